"""Orders of triples and the blocks of a relation."""
from spec import *

mp = z3.MultiPattern


class SortOrder(Contract):
    """Triples are compared component by component in the given order."""
    tu = '#include "@REPO@/src/index/StxxlSortFunctors.h"\n'
    param_names = ["a", "b"]
    order = ()

    def ensures(self, s, ret):
        a, b = s("a"), s("b")
        x, y, z = ((Select(a.data, i), Select(b.data, i)) for i in self.order)
        return [("lexicographic", ret == Or(x[0] < x[1], And(x[0] == x[1], Or(y[0] < y[1], And(y[0] == y[1], z[0] < z[1])))))]




def order(name):
    return type("SortBy" + name, (SortOrder,), {"function": f"SortBy{name}::operator()", "order": tuple("SPO".index(c) for c in name),
                                               "__doc__": f"Triples are compared in the order {name}."})


class BlockFor(Contract):
    """The block that holds the entries of an id, if there are any: the last
    one that starts with this id or a smaller one."""
    tu = '#include "@REPO@/src/index/MetaDataTypes.cpp"\n'
    function = "BlockBasedRelationMetaData::getBlockStartAndNofBytesForLhs"
    param_names = ["lhs"]

    def requires(self, s):
        B = s("this._blocks")
        first, off = B.data.get("_firstLhs"), B.data.get("_startOffset")
        p, q = Ints("p!t q!t")
        return [("there is a block", B.n > 0),
                ("blocks ascend", ForAll([p, q], Implies(And(0 <= p, p < q, q < B.n), And(first[p] < first[q], off[p] <= off[q])), patterns=[mp(first[p], first[q])])),
                ("offsets", ForAll([p], Implies(And(0 <= p, p < B.n), And(0 <= off[p], off[p] <= s("this._startRhs"))), patterns=[off[p]]))]

    def follow(self, k, n):
        return k

    def ensures(self, s, ret):
        B, lhs = s.old("this._blocks"), s.old("lhs")
        first, off = B.data.get("_firstLhs"), B.data.get("_startOffset")
        k = Int("k!t")
        b = self.follow(k, B.n)
        last = Or(k + 1 == B.n, lhs < first[k + 1])
        end = If(b + 1 < B.n, off[b + 1], s.old("this._startRhs"))
        return [("range of the block", ForAll([k], Implies(And(0 <= k, k < B.n, first[k] <= lhs, last), And(ret.get("first") == off[b], ret.get("second") == end - off[b])), patterns=[first[k]])),
                ("nothing before the first block", Implies(lhs < first[0], And(ret.get("second") == 0, ret.get("first") == off[0])))]


class BlockAfter(BlockFor):
    """The block behind that one, or that one if it is the last."""
    function = "BlockBasedRelationMetaData::getFollowBlockForLhs"

    def follow(self, k, n):
        return If(k + 1 < n, k + 1, k)


ORDERS = [order(n) for n in ("PSO", "POS", "SPO", "SOP", "OSP", "OPS")]
for o in ORDERS:
    globals()[o.__name__] = o
CONTRACTS = ORDERS + [BlockFor, BlockAfter]
