"""GROUP BY: the input is cut into maximal runs of rows with equal group columns."""
from spec import *
from models import V, void, raw_write

mp = z3.MultiPattern
SAME = z3.Function("SAME", INT, INT, z3.BoolSort())   # do two rows agree on the group columns?
DIFF = z3.Function("DIFF", INT, INT, INT)             # number of a group column in which they differ


def m_process(eng, st, base, a, e):
    """processGroup writes the row it is told to, from the rows it is told to."""
    sv = SpecView(eng, st)
    agg, first, last, idx = eng.as_ptr(st, a[0]), eng.rv(st, a[1]), eng.rv(st, a[2]), eng.rv(st, a[6])
    res = eng.rv(st, a[5])
    R = eng.read(st, res)
    gs, ge, cnt = sv.ghost("gs"), sv.ghost("ge"), sv.ghost("cnt")
    r = R.n - 1
    eng.oblige(st, "the last row is filled", And(idx == r, r >= 0), e.get("line"))
    eng.oblige(st, "aggregates are taken in turn", BoolVal(agg.root == sv("&aggregates").root) if not agg.path else agg.idx() == cnt[r], e.get("line"))
    eng.oblige(st, "aggregates of a row see the same rows", Implies(cnt[r] > 0, And(first == gs[r], last == ge[r])), e.get("line"))
    eng.oblige(st, "rows exist", And(0 <= first, first <= last, last < sv("dynInput").n), e.get("line"))
    sv.set_ghost("gs", Store(gs, r, first))
    sv.set_ghost("ge", Store(ge, r, last))
    sv.set_ghost("cnt", Store(cnt, r, cnt[r] + 1))
    eng.note_write(res.root, res.path, "data")
    raw_write(eng, st, res, Tab(R.n, R.cols, Store(R.data, r, z3.Const(eng.name("aggrow"), ARR))))
    return void(st)


def m_emplace(sv, eng, st, base, a, r):
    R = eng.read(st, eng.as_ptr(st, base))
    sv.set_ghost("cnt", Store(sv.ghost("cnt"), R.n - 1, 0))


class Groups(Contract):
    tu = '''#include "@REPO@/src/engine/GroupBy.cpp"
template void GroupBy::doGroupBy<0,0>(const IdTable&, const vector<ResultTable::ResultType>&, const vector<size_t>&, const vector<GroupBy::Aggregate>&, IdTable*, const ResultTable*, ResultTable*, const Index&) const;
'''
    function = "GroupBy::doGroupBy<0,0>"
    param_names = ["dynInput", "inputTypes", "groupByCols", "aggregates", "dynResult", "inTable", "outTable", "index"]
    assumptions = ["processGroup is not under contract: it is taken to write the row it is given",
                   "SAME says whether two rows agree on the group columns, DIFF names a column in which they do not"]
    models = {"GroupBy::processGroup": m_process}
    hooks = {"detail::IdTableTemplated::push_back": m_emplace}

    def ghosts(self, eng):
        return {n: z3.Const(n, ARR) for n in ("gs", "ge", "cnt")}

    def requires(self, s):
        I, R, G, A = s("dynInput"), s("dynResult"), s("groupByCols"), s("aggregates")
        x, y, c = Ints("x!t y!t c!t")
        g = Select(G.data, c)
        d = Select(G.data, DIFF(x, y))
        return [("result empty", R.n == 0), ("there is an aggregate", A.n >= 1),
                ("columns exist", ForAll([c], Implies(And(0 <= c, c < G.n), And(0 <= g, g < I.cols)), patterns=[g])),
                ("same", ForAll([x, y, c], Implies(And(SAME(x, y), 0 <= c, c < G.n), cell(I, x, g) == cell(I, y, g)), patterns=[mp(SAME(x, y), g)])),
                ("different", ForAll([x, y], Implies(Not(SAME(x, y)), And(0 <= DIFF(x, y), DIFF(x, y) < G.n, cell(I, x, d) != cell(I, y, d))), patterns=[SAME(x, y)]))]

    def groups(self, s, R, n, upto):
        """The first n rows of the result stand for the rows before upto."""
        gs, ge, cnt = s.ghost("gs"), s.ghost("ge"), s.ghost("cnt")
        r, q, x = Ints("r!t q!t x!t")
        inr = And(0 <= r, r < n)
        return [("groups follow each other", And(Implies(n > 0, And(gs[0] == 0, ge[n - 1] == upto - 1)), Implies(n == 0, upto == 0),
                                                 ForAll([r, q], Implies(And(0 <= r, q == r + 1, q < n), gs[q] == ge[r] + 1), patterns=[mp(ge[r], gs[q])]))),
                ("groups are nonempty", ForAll([r], Implies(inr, And(0 <= gs[r], gs[r] <= ge[r], ge[r] < upto)), patterns=[gs[r], ge[r]])),
                ("rows of a group agree", ForAll([r, x], Implies(And(inr, gs[r] <= x, x <= ge[r]), SAME(gs[r], x)), patterns=[SAME(gs[r], x)])),
                ("neighbouring groups differ", ForAll([r, q], Implies(And(0 <= r, q == r + 1, q < n), Not(SAME(gs[r], gs[q]))), patterns=[mp(gs[r], gs[q])])),
                ("all aggregates are computed", ForAll([r], Implies(inr, cnt[r] == s.old("aggregates").n), patterns=[cnt[r]]))]

    def ensures(self, s, ret):
        R, I = s("dynResult"), s.old("dynInput")
        return self.groups(s, R, R.n, I.n)

    def __init__(self):
        def filling(s, e):
            R, i, A = s("result"), s("@idx"), s.old("aggregates")
            gs, ge, cnt = s.ghost("gs"), s.ghost("ge"), s.ghost("cnt")
            bs, be = s("blockStart"), s("blockEnd")
            r = R.n - 1
            return [("aggregates so far", And(R.n >= 1, cnt[r] == i, 0 <= i, i <= A.n)), ("block", And(0 <= bs, bs <= be, be < s.old("dynInput").n)),
                    ("last change", Implies(R.n >= 2, Not(SAME(gs[R.n - 2], bs)))), ("rows so far", Implies(i > 0, And(gs[r] == bs, ge[r] == be)))] + self.groups(s, R, r, bs)

        def block(s, bs):
            I, G, B = s.old("dynInput"), s.old("groupByCols"), s("currentGroupBlock")
            c = Int("c!t")
            f, v = Select(B.data.get("first"), c), Select(B.data.get("second"), c)
            return [("number of group columns", B.n == G.n),
                    ("current group", ForAll([c], Implies(And(0 <= c, c < B.n), And(f == Select(G.data, c), v == cell(I, bs, f))), patterns=[f, v]))]

        def collect(s, e):
            I, G, B, i = s.old("dynInput"), s.old("groupByCols"), s("currentGroupBlock"), s("@idx")
            c = Int("c!t")
            f, v = Select(B.data.get("first"), c), Select(B.data.get("second"), c)
            return [("columns so far", And(B.n == i, 0 <= i, i <= G.n)),
                    ("first group", ForAll([c], Implies(And(0 <= c, c < B.n), And(f == Select(G.data, c), v == cell(I, 0, f))), patterns=[f, v]))]

        def inside(s, pos):
            bs = s("blockStart")
            x = Int("x!t")
            return [("rows since the last change agree", ForAll([x], Implies(And(bs <= x, x < pos), SAME(bs, x)), patterns=[SAME(bs, x)]))]

        def rows(s, e):
            I, pos, bs = s.old("dynInput"), s("pos"), s("blockStart")
            gs = s.ghost("gs")
            R = s("result")
            return [("position", And(1 <= pos, pos <= I.n, 0 <= bs, bs < pos)), ("last change", Implies(R.n > 0, Not(SAME(gs[R.n - 1], bs))))] + \
                block(s, bs) + inside(s, pos) + self.groups(s, R, R.n, bs)

        def compare(s, e):
            I, pos, bs, i, B = s.old("dynInput"), s("pos"), s("blockStart"), s("i"), s("currentGroupBlock")
            c = Int("c!t")
            g = Select(s.old("groupByCols").data, c)
            m = s("rowMatchesCurrentBlock") if s.has("rowMatchesCurrentBlock") else BoolVal(True)
            return [("columns so far", And(0 <= i, i <= B.n)),
                    ("columns agree", Implies(m, ForAll([c], Implies(And(0 <= c, c < i), cell(I, pos, g) == cell(I, bs, g)), patterns=[g]))),
                    ("difference found", Implies(Not(m), Not(SAME(bs, pos))))]

        def renew(s, e):
            I, pos, i, B, G = s.old("dynInput"), s("pos"), s("i"), s("currentGroupBlock"), s.old("groupByCols")
            c = Int("c!t")
            f, v = Select(B.data.get("first"), c), Select(B.data.get("second"), c)
            return [("columns so far", And(0 <= i, i <= B.n, B.n == G.n)), ("columns stay", ForAll([c], Implies(And(0 <= c, c < B.n), f == Select(G.data, c)), patterns=[f])),
                    ("new values", ForAll([c], Implies(And(0 <= c, c < i), v == cell(I, pos, f)), patterns=[f, v]))]
        self.loops = {0: dict(inv=filling, name="aggregates of everything"), 1: dict(inv=collect, name="group columns"), 2: dict(inv=rows, name="rows"), 3: dict(inv=compare, name="compare"),
                      4: dict(inv=filling, name="aggregates of a group"), 5: dict(inv=renew, name="next group"), 6: dict(inv=filling, name="aggregates of the last group")}


# ---------------------------------------------------------------- aggregates
BSET = z3.ArraySort(INT, z3.BoolSort())
HS = "absl::container_internal::raw_hash_set::"


def m_find(eng, st, base, a, e):
    x = eng.rv(st, a[0])
    return V(st, If(Select(eng.rv(st, base).get("in"), x), x, -1))


def m_end(eng, st, base, a, e):
    return V(st, IntVal(-1))


def m_it_eq(eng, st, base, a, e):
    v = [eng.rv(st, x) for x in ([base] if base is not None else []) + list(a)]
    eq = v[0] == v[1]
    return V(st, eq if e["c"]["q"].endswith("==") else Not(eq))


def m_insert(eng, st, base, a, e):
    p, x = eng.as_ptr(st, base), eng.rv(st, a[0])
    S = eng.read(st, p)
    had = Select(S.get("in"), x)
    eng.write(st, p, S.set("in", Store(S.get("in"), x, True)).set("n", If(had, S.get("n"), S.get("n") + 1)))
    return V(st, Rec(e["t"], {"first": x, "second": Not(had)}, None, eng))


def m_hclear(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    S = eng.read(st, p)
    eng.write(st, p, S.set("in", z3.K(INT, BoolVal(False))).set("n", IntVal(0)))
    return void(st)


def m_hsize(eng, st, base, a, e):
    return V(st, eng.rv(st, base).get("n"))


KINDS = {"COUNT": 0, "FIRST": 2, "LAST": 3, "SAMPLE": 4, "MIN": 5, "MAX": 6}
NEW = z3.Function("NEW", INT, z3.BoolSort())   # does a row have a value no earlier row of the group has?
PRV = z3.Function("PRV", INT, INT)             # an earlier row with the same value
CNT = z3.Function("CNT", INT, INT)             # number of new values before a row


class Aggregate(Contract):
    tu = '''#include "@REPO@/src/engine/GroupBy.cpp"
template void GroupBy::processGroup<0,0>(const GroupBy::Aggregate&, size_t, size_t, const IdTableView<0>&, const vector<ResultTable::ResultType>&, IdTableStatic<0>*, size_t, const ResultTable*, ResultTable*, const Index&, ad_utility::HashSet<size_t>&) const;
'''
    function = "GroupBy::processGroup<0,0>"
    param_names = ["a", "blockStart", "blockEnd", "input", "inputTypes", "result", "resultRow", "inTable", "outTable", "index", "distinctHashSet"]
    kind = None
    distinct = None
    types = (0, 1, 2, 3, 4)
    models = {**{pre + n: m for pre in (HS, "absl::flat_hash_set::", "absl::container_internal::raw_hash_set::iterator::", "absl::container_internal::raw_hash_set::const_iterator::")
                 for n, m in (("find", m_find), ("end", m_end), ("insert", m_insert), ("clear", m_hclear), ("size", m_hsize))},
              **{q + op: m_it_eq for q in ("absl::container_internal::", HS, HS + "iterator::", HS + "const_iterator::") for op in ("operator==", "operator!=")}}

    def prepare(self, eng, st):
        eng.write(st, Ptr("*a", (("f", "_type"),)), IntVal(KINDS[self.kind]))
        if self.distinct is not None:
            eng.write(st, Ptr("*a", (("f", "_distinct"),)), BoolVal(self.distinct))
        st.vars["*distinctHashSet"] = Rec(eng.var_types["*distinctHashSet"], {"in": z3.Const("seen.in", BSET), "n": Int("seen.n")}, None, eng)

    def val(self, s, x):
        return cell(s.old("input"), x, s.old("a").get("_inCol"))

    def requires(self, s):
        I, R, a, b, e, T = s("input"), s("result"), s("a"), s("blockStart"), s("blockEnd"), s("inputTypes")
        t = Select(T.data, a.get("_inCol"))
        H, v = s("distinctHashSet"), Int("v!t")
        return [("block", And(0 <= b, b <= e, e < I.n, e < 2 ** 63)), ("columns", And(0 <= a.get("_inCol"), a.get("_inCol") < I.cols, a.get("_inCol") < T.n, 0 <= a.get("_outCol"), a.get("_outCol") < R.cols)),
                ("row", And(0 <= s("resultRow"), s("resultRow") < R.n)), ("type", Or(*[t == x for x in self.types])),
                ("cells are 64 bit numbers", ForAll([v], And(0 <= self.val(s, v), self.val(s, v) < 2 ** 64), patterns=[self.val(s, v)])),
                ("set is empty", And(H.get("n") == 0, ForAll([v], Not(Select(H.get("in"), v)), patterns=[Select(H.get("in"), v)])))]

    def value(self, s, v):
        raise NotImplementedError

    def ensures(self, s, ret):
        R, O, a, row = s("result"), s.old("result"), s.old("a"), s.old("resultRow")
        r, c = Ints("r!t c!t")
        H, v = s("distinctHashSet"), Int("v!t")
        return [("size stays", And(R.n == O.n, R.cols == O.cols)),
                ("other cells stay", ForAll([r, c], Implies(Or(r != row, c != a.get("_outCol")), cell(R, r, c) == cell(O, r, c)), patterns=[cell(R, r, c)])),
                ("set is empty", ForAll([v], Not(Select(H.get("in"), v)), patterns=[Select(H.get("in"), v)])),
                ("value", self.value(s, cell(R, row, a.get("_outCol"))))]


class Count(Aggregate):
    kind, distinct = "COUNT", False

    def value(self, s, v):
        return v == s.old("blockEnd") - s.old("blockStart") + 1


class First(Aggregate):
    kind = "FIRST"

    def value(self, s, v):
        return v == self.val(s, s.old("blockStart"))


class Last(Aggregate):
    kind = "LAST"

    def value(self, s, v):
        return v == self.val(s, s.old("blockEnd"))


class Sample(Aggregate):
    """Some row of the group."""
    kind = "SAMPLE"

    def value(self, s, v):
        x = Int("x!t")
        return Exists([x], And(s.old("blockStart") <= x, x <= s.old("blockEnd"), v == self.val(s, x)))


class Max(Aggregate):
    kind = "MAX"
    types = (0, 1)      # entities and integers

    def best(self, a, b):
        return a >= b

    def extreme(self, s, v, upto):
        x, b = Int("x!t"), s.old("blockStart")
        return [ForAll([x], Implies(And(b <= x, x < upto), self.best(v, self.val(s, x))), patterns=[self.val(s, x)]),
                Exists([x], And(b <= x, x < upto, v == self.val(s, x)))]

    def value(self, s, v):
        return And(*self.extreme(s, v, s.old("blockEnd") + 1))

    def __init__(self):
        def inv(s, e):
            i, b, v = s("i"), s.old("blockStart"), s("res")
            best, some = self.extreme(s, v, i)
            neutral = 0 if self.kind == "MAX" else 2 ** 64 - 1
            return [("position", And(b <= i, i <= s.old("blockEnd") + 1)), ("no better value", best), ("a value of the group", If(i == b, v == neutral, some)),
                    ("range", And(0 <= v, v < 2 ** 64))]
        self.default_loop = dict(inv=inv, name="rows")


class Min(Max):
    kind = "MIN"

    def best(self, a, b):
        return a <= b


class CountDistinct(Aggregate):
    kind, distinct = "COUNT", True
    assumptions = ["NEW, PRV and CNT name the rows with a new value, an earlier row with the same value, and the number of new values before a row"]

    def ghosts(self, eng):
        return {"src": z3.Const("src", ARR)}

    def requires(self, s):
        i, k, b = Int("i!t"), Int("k!t"), s("blockStart")
        V_ = lambda x: self.val(s, x)
        return super().requires(s) + [
            ("new", ForAll([i, k], Implies(And(NEW(i), b <= k, k < i), V_(k) != V_(i)), patterns=[mp(NEW(i), V_(k))])),
            ("not new", ForAll([i], Implies(And(b <= i, Not(NEW(i))), And(b <= PRV(i), PRV(i) < i, V_(PRV(i)) == V_(i))), patterns=[NEW(i)])),
            ("count", And(CNT(b) == 0, ForAll([i], Implies(b <= i, CNT(i + 1) == CNT(i) + If(NEW(i), 1, 0)), patterns=[CNT(i + 1)])))]

    def value(self, s, v):
        return v == CNT(s.old("blockEnd") + 1)

    def __init__(self):
        def inv(s, e):
            i, b, H, src = s("i"), s.old("blockStart"), s("distinctHashSet"), s.ghost("src")
            k, v = Ints("k!t v!t")
            n = H.get("n")
            return [("position", And(b <= i, i <= s.old("blockEnd") + 1, n == CNT(i), 0 <= n, n <= i - b)), ("counter", s("count") == n if s.has("count") else BoolVal(True)),
                    ("values are in the set", ForAll([k], Implies(And(b <= k, k < i), Select(H.get("in"), self.val(s, k))), patterns=[self.val(s, k)])),
                    ("nothing else is", ForAll([v], Implies(Select(H.get("in"), v), And(b <= src[v], src[v] < i, self.val(s, src[v]) == v)), patterns=[Select(H.get("in"), v)]))]
        self.loops = {}
        self.default_loop = dict(inv=inv, name="rows")

    def inserted(sv, eng, st, base, a, r):
        sv.set_ghost("src", Store(sv.ghost("src"), eng.rv(st, a[0]), sv("i")))

    hooks = {HS + "insert": inserted, "absl::flat_hash_set::insert": inserted}


CONTRACTS = [Groups, Count, First, Last, Sample, Max, Min, CountDistinct]
