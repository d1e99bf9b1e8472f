"""Scans for the predicates of entities.

The stored lists are read through an assumed contract of the string vector
type: size() and operator[] give the length and the elements of a list.
"""
from spec import *
from models import V, void

mp = z3.MultiPattern
LEN = z3.Function("LEN", INT, INT)         # number of predicates of an entity
PRED = z3.Function("PRED", INT, ARR)       # predicates of an entity
PATLEN, PREDLEN = z3.Function("PATLEN", INT, INT), z3.Function("PREDLEN", INT, INT)
PATDATA, PREDDATA = z3.Function("PATDATA", INT, ARR), z3.Function("PREDDATA", INT, ARR)
NPAT, NPRED = Int("NPAT"), Int("NPRED")
NO_PATTERN = 2 ** 32 - 1


def which(eng, st, base):
    """Is it the list of patterns or that of the single predicates?"""
    r = eng.as_ptr(st, base).root
    for name in ("patterns", "hasPredicate"):
        if r == eng.lookup_value(st, "&" + name).root:
            return name == "patterns"
    raise Unsupported("unknown string vector")


def m_size(eng, st, base, a, e):
    return V(st, NPAT if which(eng, st, base) else NPRED)


def m_at(eng, st, base, a, e):
    pat = which(eng, st, base)
    i = eng.rv(st, a[0])
    eng.oblige(st, "list within bounds", And(i >= 0, i < (NPAT if pat else NPRED)), e.get("line"))
    et = next(t for t, ty in enumerate(eng.types) if ty["k"] == "int" and ty.get("w") == 64 and not ty.get("signed")) if isinstance(eng.types, list) else \
        next(t for t, ty in eng.types.items() if ty["k"] == "int" and ty.get("w") == 64 and not ty.get("signed"))
    v = Vec((PATLEN if pat else PREDLEN)(i), (PATDATA if pat else PREDDATA)(i), et)
    p = eng.new_tmp(st, v)
    return V(st, Rec(e["t"], {"first": p.ext("i", IntVal(0)), "second": v.n}, None, eng))


def m_tie(eng, st, base, a, e):
    return V(st, Rec(e["t"], {str(i): eng.as_ptr(st, x) for i, x in enumerate(a)}, None, eng))


def m_tie_assign(eng, st, base, a, e):
    t, p = eng.rv(st, base), eng.rv(st, a[0])
    for i, f in enumerate(("first", "second")):
        eng.write(st, t.get(str(i)), p.get(f))
    return void(st)


class Scan(Contract):
    tu = '#include "@REPO@/src/engine/HasPredicateScan.cpp"\n' + \
         'template void HasPredicateScan::computeSubqueryS<0,0>(IdTable*, const IdTable&, const size_t, const std::vector<PatternID>&, const CompactStringVector<Id, Id>&, const CompactStringVector<size_t, Id>&);\n'
    assumptions = ["LEN and PRED abbreviate the list of an entity: its pattern if it has one, else its single predicates"]
    models = {"CompactStringVector::size": m_size, "CompactStringVector::operator[]": m_at, "std::tie": m_tie, "std::tuple::operator=": m_tie_assign}
    type_kinds = {"CompactStringVector": "opaque"}

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wk": z3.Const("wk", ARR), "pos": z3.Const("pos", ROWS)}

    def lists(self, s):
        H = s("hasPattern")
        e, i = Ints("e!t i!t")
        pat = And(e < H.n, Select(H.data, e) != NO_PATTERN)
        p = Select(H.data, e)
        return [("numbers of lists", And(0 <= NPAT, 0 <= NPRED, NPRED < 2 ** 63)),
                ("patterns exist", ForAll([e], Implies(And(0 <= e, pat), And(0 <= p, p < NPAT)), patterns=[p])),
                ("lists of entities", ForAll([e], Implies(0 <= e, And(LEN(e) == If(pat, PATLEN(p), If(e < NPRED, PREDLEN(e), 0)), PRED(e) == If(pat, PATDATA(p), PREDDATA(e)))),
                                             patterns=[LEN(e), PRED(e)])),
                ("lengths", ForAll([i], And(PATLEN(i) >= 0, PATLEN(i) < 2 ** 60), patterns=[PATLEN(i)])),
                ("lengths", ForAll([i], And(PREDLEN(i) >= 0, PREDLEN(i) < 2 ** 60), patterns=[PREDLEN(i)]))]


class FreeS(Scan):
    """All entities that have a given predicate."""
    function = "HasPredicateScan::computeFreeS"
    param_names = ["resultTable", "objectId", "hasPattern", "hasPredicate", "patterns"]
    cols = 1

    def requires(self, s):
        T = s("resultTable").get("_data")
        return self.lists(s) + [("result empty", And(T.n == 0, T.cols == self.cols))]

    def row(self, s, R, r, e, k):
        return And(cell(R, r, 0) == e, Select(PRED(e), k) == s.old("objectId"))

    def wanted(self, s, e, k):
        return Select(PRED(e), k) == s.old("objectId")

    def found(self, s, R, id, i):
        wi, wk, pos = s.ghost("wi"), s.ghost("wk"), s.ghost("pos")
        r, q, e, k = Ints("r!t q!t e!t k!t")
        before = lambda e, k: Or(And(e < id, k < LEN(e)), And(e == id, k < i))
        at = Select(Select(pos, e), k)
        return [("width", R.cols == self.cols),
                ("rows are wanted", ForAll([r], Implies(And(0 <= r, r < R.n), And(0 <= wi[r], 0 <= wk[r], before(wi[r], wk[r]), self.row(s, R, r, wi[r], wk[r]))), patterns=[mp(wi[r], wk[r]), Select(R.data, r)])),
                ("rows are in order", ForAll([r, q], Implies(And(0 <= r, r < q, q < R.n), Or(wi[r] < wi[q], And(wi[r] == wi[q], wk[r] < wk[q]))), patterns=[mp(wi[r], wi[q])])),
                ("no row is missing", ForAll([e, k], Implies(And(0 <= e, 0 <= k, before(e, k), self.wanted(s, e, k)),
                                                             And(0 <= at, at < R.n, wi[at] == e, wk[at] == k)), patterns=[at]))]

    def ensures(self, s, ret):
        H = s.old("hasPattern")
        return self.found(s, s("resultTable").get("_data"), If(H.n < NPRED, NPRED, H.n), 0)

    def __init__(self):
        def outer(s, e):
            id = s("id")
            H = s.old("hasPattern")
            return [("position", And(0 <= id, Or(id <= H.n, id <= NPRED)))] + self.found(s, s("result"), id, 0)

        def inner(s, e):
            id, i = s("id"), s("i")
            return [("position", And(0 <= i, i <= LEN(id), s("numPredicates") == LEN(id)))] + self.found(s, s("result"), id, i)
        self.loops = {0: dict(inv=outer, name="entities"), 1: dict(inv=inner, name="pattern"), 2: dict(inv=inner, name="predicates")}

    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        id, i = sv("id"), sv("i")
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, id))
        sv.set_ghost("wk", Store(sv.ghost("wk"), R.n - 1, i))
        pos = sv.ghost("pos")
        sv.set_ghost("pos", Store(pos, id, Store(Select(pos, id), i, R.n - 1)))

    hooks = {"detail::IdTableTemplated::push_back": push}


class FullScan(FreeS):
    """All pairs of entities and predicates."""
    function = "HasPredicateScan::computeFullScan"
    param_names = ["resultTable", "hasPattern", "hasPredicate", "patterns", "resultSize"]
    cols = 2

    def row(self, s, R, r, e, k):
        return And(cell(R, r, 0) == e, cell(R, r, 1) == Select(PRED(e), k))

    def wanted(self, s, e, k):
        return True


class FreeO(Scan):
    """All predicates of a given entity."""
    function = "HasPredicateScan::computeFreeO"
    param_names = ["resultTable", "subjectId", "hasPattern", "hasPredicate", "patterns"]

    def requires(self, s):
        T = s("resultTable").get("_data")
        return self.lists(s) + [("result empty", And(T.n == 0, T.cols == 1))]

    def found(self, s, R, n):
        r = Int("r!t")
        return [("number of rows", And(R.n == n, R.cols == 1)),
                ("rows are the predicates", ForAll([r], Implies(And(0 <= r, r < R.n), cell(R, r, 0) == Select(PRED(s.old("subjectId")), r)), patterns=[Select(R.data, r)]))]

    def ensures(self, s, ret):
        return self.found(s, s("resultTable").get("_data"), LEN(s.old("subjectId")))

    def __init__(self):
        def inner(s, e):
            n = LEN(s.old("subjectId"))
            return [("position", And(0 <= s("i"), s("i") <= n, s("numPredicates") == n))] + self.found(s, s("result"), s("i"))
        self.loops = {0: dict(inv=inner, name="pattern"), 1: dict(inv=inner, name="predicates")}


class SubqueryS(Scan):
    """The rows of a table, once for each predicate of an entity in them."""
    function = "HasPredicateScan::computeSubqueryS<0,0>"
    param_names = ["dynResult", "dynInput", "subtreeColIndex", "hasPattern", "hasPredicate", "patterns"]

    def requires(self, s):
        T, I, c = s("dynResult"), s("dynInput"), s("subtreeColIndex")
        return self.lists(s) + [("result empty", And(T.n == 0, T.cols == I.cols + 1)), ("column exists", And(0 <= c, c < I.cols))]

    def found(self, s, R, x, i):
        I, col = s.old("dynInput"), s.old("subtreeColIndex")
        wi, wk, pos = s.ghost("wi"), s.ghost("wk"), s.ghost("pos")
        r, q, e, k, c = Ints("r!t q!t e!t k!t c!t")
        ent = lambda e: cell(I, e, col)
        before = lambda e, k: Or(And(e < x, k < LEN(ent(e))), And(e == x, k < i))
        at = Select(Select(pos, e), k)
        inr = And(0 <= r, r < R.n)
        return [("width", R.cols == I.cols + 1),
                ("rows are wanted", ForAll([r], Implies(inr, And(0 <= wi[r], wi[r] < I.n, 0 <= wk[r], before(wi[r], wk[r]), cell(R, r, I.cols) == Select(PRED(ent(wi[r])), wk[r]))),
                                           patterns=[mp(wi[r], wk[r]), Select(R.data, r)])),
                ("rows are copied", ForAll([r, c], Implies(And(inr, 0 <= c, c < I.cols), cell(R, r, c) == cell(I, wi[r], c)), patterns=[cell(R, r, c)])),
                ("rows are in order", ForAll([r, q], Implies(And(0 <= r, r < q, q < R.n), Or(wi[r] < wi[q], And(wi[r] == wi[q], wk[r] < wk[q]))), patterns=[mp(wi[r], wi[q])])),
                ("no row is missing", ForAll([e, k], Implies(And(0 <= e, e < I.n, 0 <= k, before(e, k)), And(0 <= at, at < R.n, wi[at] == e, wk[at] == k)), patterns=[at]))]

    def ensures(self, s, ret):
        return self.found(s, s("dynResult"), s.old("dynInput").n, 0)

    def __init__(self):
        def outer(s, e):
            i = s("i")
            return [("position", And(0 <= i, i <= s.old("dynInput").n))] + self.found(s, s("result"), i, 0)

        def inner(s, e):
            i, j, I = s("i"), s("j"), s.old("dynInput")
            n = LEN(cell(I, i, s.old("subtreeColIndex")))
            return [("position", And(0 <= i, i < I.n, 0 <= j, j <= n, s("numPredicates") == n))] + self.found(s, s("result"), i, j)
        self.loops = {0: dict(inv=outer, name="rows"), 1: dict(inv=inner, name="pattern"), 2: dict(inv=inner, name="predicates")}

    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        i, j = sv("i"), sv("j")
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, i))
        sv.set_ghost("wk", Store(sv.ghost("wk"), R.n - 1, j))
        pos = sv.ghost("pos")
        sv.set_ghost("pos", Store(pos, i, Store(Select(pos, i), j, R.n - 1)))

    hooks = {"detail::IdTableTemplated::push_back": push}


CONTRACTS = [FreeS, FullScan, FreeO, SubqueryS]
