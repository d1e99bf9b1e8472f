"""FILTER: comparison of a column with a constant, a range or another column.

Ghost wi gives for each result row the input row it stems from, pos the
position of a kept input row in the result.
"""
from spec import *

NAMES = {"EQ": 0, "NE": 1, "LT": 2, "LE": 3, "GT": 5, "GE": 6}
TEST = {"EQ": lambda a, b: a == b, "NE": lambda a, b: a != b, "LT": lambda a, b: a < b,
        "LE": lambda a, b: a <= b, "GT": lambda a, b: a > b, "GE": lambda a, b: a >= b}


def kept_rows(s, A, R):
    """R consists of rows of A, in order, each at most once."""
    wi = s.ghost("wi")
    r, c = Ints("r!j c!j")
    inn = And(0 <= r, r < R.n)
    return [
        ("rows stem from the input", ForAll([r], Implies(inn, And(0 <= wi[r], wi[r] < A.n)), patterns=[wi[r]])),
        ("rows are copied completely", ForAll([r, c], Implies(And(inn, 0 <= c, c < A.cols), cell(R, r, c) == cell(A, wi[r], c)), patterns=[cell(R, r, c)])),
        ("rows keep their order and occur once", ForAll([r, c], Implies(And(0 <= r, r < c, c < R.n), wi[r] < wi[c]), patterns=[z3.MultiPattern(wi[r], wi[c])])),
    ]


def true_rows(s, A, R, P):
    wi = s.ghost("wi")
    r = Int("r!t")
    return ("only rows that satisfy the comparison", ForAll([r], Implies(And(0 <= r, r < R.n), P(wi[r])), patterns=[wi[r]]))


def all_rows(s, A, R, P, lim):
    wi, pos = s.ghost("wi"), s.ghost("pos")
    x = Int("x!t")
    return ("all rows that satisfy the comparison", ForAll([x], Implies(And(0 <= x, x < lim, P(x)), And(0 <= pos[x], pos[x] < R.n, wi[pos[x]] == x)), patterns=[pos[x]]))


def push_row(name):
    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        i = sv("@idx")
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, i))
        sv.set_ghost("pos", Store(sv.ghost("pos"), i, R.n - 1))
    return push


def insert_rows(sv, eng, st, base, a, r):
    """Ghost effect of appending the rows [b, e) of the input."""
    R = eng.read(st, eng.as_ptr(st, base))
    b, e = (eng.rv(st, x).idx() for x in a[1:3])
    cnt = If(b < e, e - b, 0)
    n0 = R.n - cnt
    wi, pos = sv.ghost("wi"), sv.ghost("pos")
    w2, p2 = z3.Const(eng.name("wi"), ARR), z3.Const(eng.name("pos"), ARR)
    k = Int("k!g")
    st.assume(ForAll([k], w2[k] == If(And(n0 <= k, k < n0 + cnt), b + k - n0, wi[k]), patterns=[w2[k]]))
    st.assume(ForAll([k], p2[k] == If(And(b <= k, k < e), n0 + k - b, pos[k]), patterns=[p2[k]]))
    sv.set_ghost("wi", w2)
    sv.set_ghost("pos", p2)


class Base(Contract):
    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "pos": z3.Const("pos", ARR)}

    hooks = {"detail::IdTableTemplated::push_back": push_row("e"), "detail::IdTableTemplated::insert": insert_rows}

    def pred(self, s, A):
        raise NotImplementedError

    def table(self, s, old=True):
        return (s.old if old else s)("input")

    def ensures(self, s, ret):
        A, R = self.table(s), s("res")
        P = self.pred(s, A)
        return [("width", R.cols == A.cols)] + kept_rows(s, A, R) + [true_rows(s, A, R, P), all_rows(s, A, R, P, A.n)]

    def loop(self, s, e):
        A, R, i = self.table(s), s("res"), s("@idx")
        P = self.pred(s, A)
        wi = s.ghost("wi")
        r = Int("r!l")
        return [("position", And(0 <= i, i <= A.n)), ("width", R.cols == A.cols)] + kept_rows(s, A, R) + [
            ("rows before the position", ForAll([r], Implies(And(0 <= r, r < R.n), wi[r] < i), patterns=[wi[r]])),
            true_rows(s, A, R, P), all_rows(s, A, R, P, i)]

    def __init__(self):
        self.default_loop = dict(inv=self.loop, name="scan")


TU = '#include "@REPO@/src/engine/Filter.cpp"\n'


class FixedBase(Base):
    param_names = ["res", "lhs", "rhs", "input", "subRes"]
    kind = None

    function = "Filter::computeFilterFixedValue<ResultTable::ResultType::KB,0>"
    tu = TU + '''template void Filter::computeFilterFixedValue<ResultTable::ResultType::KB, 0>(IdTableStatic<0>*, size_t, Id, const IdTableView<0>&, shared_ptr<const ResultTable>) const;
'''

    def start(self, s, eng, st):
        eng.write(st, Ptr("*this", (("f", "_type"),)), IntVal(NAMES[self.kind]))

    def pred(self, s, A):
        l, v = s.old("lhs"), s.old("rhs")
        t = TEST[self.kind]
        return lambda x: t(cell(A, x, l), v)

    def requires(self, s):
        A, R = s("input"), s("res")
        by = s("subRes._sortedBy")
        return [("column exists", And(0 <= s("lhs"), s("lhs") < A.cols)),
                ("result empty and of the right width", And(R.n == 0, R.cols == A.cols)),
                ("announced order holds", Implies(And(by.n > 0, Select(by.data, 0) == s("lhs")), sorted_by(A, s("lhs"))))]


def _fixed(k):
    return type("FilterFixed" + k, (FixedBase,), {"kind": k})


for _k in NAMES:
    globals()["FilterFixed" + _k] = _fixed(_k)
CONTRACTS = [globals()["FilterFixed" + k] for k in NAMES]


class RangeBase(FixedBase):
    """Rows whose value lies in [rhs_lower, rhs_upper), or outside it."""
    param_names = ["res", "lhs", "rhs_lower", "rhs_upper", "input", "subRes"]
    inverse = False

    def start(self, s, eng, st):
        pass

    def pred(self, s, A):
        l, lo, up = s.old("lhs"), s.old("rhs_lower"), s.old("rhs_upper")
        t = lambda x: And(lo <= cell(A, x, l), cell(A, x, l) < up)
        return (lambda x: Not(t(x))) if self.inverse else t

    def requires(self, s):
        return super().requires(s) + [("range is not reversed", s("rhs_lower") <= s("rhs_upper"))]


def _range(name, inv):
    f = "Filter::computeFilterRange<ResultTable::ResultType::KB,0,%s>" % inv
    tu = TU + '''template void Filter::computeFilterRange<ResultTable::ResultType::KB, 0, %s>(IdTableStatic<0>*, size_t, Id, Id, const IdTableView<0>&, shared_ptr<const ResultTable>) const;
''' % inv
    return type(name, (RangeBase,), {"function": f, "tu": tu, "inverse": inv == "true"})


FilterRange = _range("FilterRange", "false")
FilterRangeInverse = _range("FilterRangeInverse", "true")


class ColumnsBase(Base):
    """Comparison of two columns."""
    param_names = ["res", "lhs", "rhs", "input"]
    function = "Filter::computeFilter<ResultTable::ResultType::KB,0>"
    tu = TU + '''template void Filter::computeFilter<ResultTable::ResultType::KB, 0>(IdTableStatic<0>*, size_t, size_t, const IdTableView<0>&) const;
'''

    def start(self, s, eng, st):
        eng.write(st, Ptr("*this", (("f", "_type"),)), IntVal(NAMES[self.kind]))

    def pred(self, s, A):
        l, v = s.old("lhs"), s.old("rhs")
        t = TEST[self.kind]
        return lambda x: t(cell(A, x, l), cell(A, x, v))

    def requires(self, s):
        A, R = s("input"), s("res")
        return [("columns exist", And(0 <= s("lhs"), s("lhs") < A.cols, 0 <= s("rhs"), s("rhs") < A.cols)),
                ("result empty and of the right width", And(R.n == 0, R.cols == A.cols))]


for _k in NAMES:
    globals()["FilterColumns" + _k] = type("FilterColumns" + _k, (ColumnsBase,), {"kind": _k})
CONTRACTS += [FilterRange, FilterRangeInverse] + [globals()["FilterColumns" + k] for k in NAMES]
