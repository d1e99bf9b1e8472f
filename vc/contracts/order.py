"""ORDER BY."""
from spec import *
from models import V, opaque_ret


class SortedOn(Contract):
    """The announced order: the columns before the first descending one."""
    tu = '#include "@REPO@/src/engine/OrderBy.cpp"\n'
    function = "OrderBy::resultSortedOn"
    param_names = []
    models = {}

    def ascending(self, s, k):
        S = s.old("this._sortIndices")
        i = Int("i!t")
        return ForAll([i], Implies(And(0 <= i, i < k), Not(S.data.get("second")[i])), patterns=[S.data.get("second")[i]])

    def ensures(self, s, ret):
        S = s.old("this._sortIndices")
        i = Int("i!t")
        return [("columns", ForAll([i], Implies(And(0 <= i, i < ret.n), Select(ret.data, i) == S.data.get("first")[i]), patterns=[Select(ret.data, i)])),
                ("ascending", And(ret.n <= S.n, self.ascending(s, ret.n))),
                ("as many as possible", Or(ret.n == S.n, S.data.get("second")[ret.n]))]

    def __init__(self):
        def inv(s, e):
            S, T = s.old("this._sortIndices"), s("sortedOn")
            i = Int("i!t")
            return [("position", And(0 <= T.n, T.n <= S.n, T.n == s("@idx"))),
                    ("columns", ForAll([i], Implies(And(0 <= i, i < T.n), Select(T.data, i) == S.data.get("first")[i]), patterns=[Select(T.data, i)])),
                    ("ascending", self.ascending(s, T.n))]
        self.loops = {0: dict(inv=inv, name="columns")}


mp = z3.MultiPattern
ROW = z3.ArraySort(INT, INT)
FD = z3.Function("FD", ROW, ROW, INT)    # first sort column on which two rows differ


def m_result(eng, st, base, a, e):
    return V(st, Ptr("*subRes"))


def m_sorted_on(eng, st, base, a, e):
    """By its contract."""
    v = eng.fresh(e["t"], "sortedOn", exact=True)
    for f in eng.type_facts(e["t"], v):
        st.assume(f)
    for _, f in SortedOn().ensures(SpecView(eng, st), v):
        st.assume(f)
    return V(st, v)


class Compute(Contract):
    """The rows of the operand, sorted by the wanted columns and directions."""
    tu = SortedOn.tu
    function = "OrderBy::computeResult"
    param_names = ["result"]
    assumptions = ["FD names the first sort column on which two rows differ; it exists because there are finitely many"]
    models = {"QueryExecutionTree::getResult": m_result, "Operation::getResult": m_result, "OrderBy::resultSortedOn": m_sorted_on,
              **{n: opaque_ret for n in ("ad_utility::Synchronized::wlock", "ad_utility::LockPtr::operator->", "Operation::getExecutionContext", "Operation::getRuntimeInfo",
                                         "QueryExecutionContext::getSortPerformanceEstimator", "SortPerformanceEstimator::estimatedSortTimeInSeconds",
                                         "QueryExecutionTree::getRootOperation", "ResultTable::size", "ResultTable::width")}}

    def prepare(self, eng, st):
        t = eng.var_types["*result"]
        v = eng.fresh(t, "subRes", exact=True)
        st.vars["*subRes"] = v
        for f in eng.type_facts(t, v):
            st.assume(f)
        eng.var_types["*subRes"] = t

    def ghosts(self, eng):
        return {"srt_from": z3.Const("srt_from", ARR), "srt_to": z3.Const("srt_to", ARR)}

    def before(self, s, x, y, tie):
        S = s.old("this._sortIndices")
        k = FD(x, y)
        c = S.data.get("first")[k]
        return If(k < S.n, If(S.data.get("second")[k], x[c] > y[c], x[c] < y[c]), tie)

    def sort_rel(self, s, x, y):
        return self.before(s, x, y, False)

    @property
    def sort_rels(self):
        """Rows that agree on all sort columns may come in any order."""
        return [lambda s, x, y: self.before(s, x, y, x[0] < y[0]), self.sort_rel]

    def requires(self, s):
        S, T = s("this._sortIndices"), s("result").get("_data")
        x, y = z3.Consts("x!t y!t", ROW)
        k = Int("k!t")
        f = S.data.get("first")
        I = s.eng.read(s.st, Ptr("*subRes")).get("_data")
        return [("result empty", And(T.n == 0, s("result").get("_resultTypes").n == 0)),
                ("sort columns exist", ForAll([k], Implies(And(0 <= k, k < S.n), And(0 <= f[k], f[k] < I.cols)), patterns=[f[k]])),
                ("first difference", ForAll([x, y], And(0 <= FD(x, y), FD(x, y) <= S.n, Implies(FD(x, y) < S.n, x[f[FD(x, y)]] != y[f[FD(x, y)]])), patterns=[FD(x, y)])),
                ("equal before", ForAll([x, y, k], Implies(And(0 <= k, k < FD(x, y)), x[f[k]] == y[f[k]]), patterns=[mp(FD(x, y), f[k])]))]

    def ensures(self, s, ret):
        T, sub = s("result").get("_data"), s.eng.read(s.st, Ptr("*subRes"))
        I = sub.get("_data")
        u, to = s.ghost("srt_from"), s.ghost("srt_to")
        r, q, c = Ints("r!t q!t c!t")
        inr = And(0 <= r, r < T.n)
        return [("same number of rows", And(T.n == I.n, T.cols == I.cols)),
                ("rows of the operand", ForAll([r, c], Implies(And(inr, 0 <= c, c < T.cols), And(0 <= u[r], u[r] < I.n, cell(T, r, c) == cell(I, u[r], c))), patterns=[cell(T, r, c)])),
                ("each once", ForAll([r], Implies(inr, And(0 <= to[r], to[r] < T.n, u[to[r]] == r, to[u[r]] == r)), patterns=[to[r], u[r]])),
                ("rows are sorted", ForAll([r, q], Implies(And(0 <= r, r < q, q < T.n), Not(self.sort_rel(s, Select(T.data, q), Select(T.data, r)))),
                                           patterns=[mp(Select(T.data, r), Select(T.data, q))])),
                ("types of the columns", And(s("result").get("_resultTypes").n == sub.get("_resultTypes").n, ForAll([c], Implies(
                    And(0 <= c, c < sub.get("_resultTypes").n), Select(s("result").get("_resultTypes").data, c) == Select(sub.get("_resultTypes").data, c)),
                    patterns=[Select(s("result").get("_resultTypes").data, c)]))),
                ("announced order", self.announced(s))]

    def announced(self, s):
        S, on = s.old("this._sortIndices"), s("result").get("_sortedBy")
        r = Int("r!t")
        return And(on.n <= S.n, ForAll([r], Implies(And(0 <= r, r < on.n), And(Select(on.data, r) == S.data.get("first")[r], Not(S.data.get("second")[r]))), patterns=[Select(on.data, r)]))

    def on_throw(self, s):   # running out of time
        return []

    def __init__(self):
        def inv(s, e):
            S = s.old("this._sortIndices")
            x, y = s.ghost("srt_a"), s.ghost("srt_b")
            return [("equal so far", FD(x, y) >= s("@idx"))]
        self.default_loop = dict(inv=inv, name="sort columns")


class ComputeOne(Compute):
    """The rows of the operand, sorted by one column."""
    tu = '#include "@REPO@/src/engine/Sort.cpp"\n'
    function = "Sort::computeResult"
    assumptions = []
    models = {k: v for k, v in Compute.models.items() if k != "OrderBy::resultSortedOn"}

    def requires(self, s):
        I = s.eng.read(s.st, Ptr("*subRes")).get("_data")
        c = s("this._sortCol")
        return [("result empty", And(s("result").get("_data").n == 0, s("result").get("_resultTypes").n == 0)), ("column exists", And(0 <= c, c < I.cols))]

    def sort_rel(self, s, x, y):
        c = s.old("this._sortCol")
        return x[c] < y[c]

    @property
    def sort_rels(self):
        return [self.sort_rel]

    def announced(self, s):
        on = s("result").get("_sortedBy")
        return And(on.n == 1, Select(on.data, 0) == s.old("this._sortCol"))

    def __init__(self):
        pass


CONTRACTS = [SortedOn, Compute, ComputeOne]
