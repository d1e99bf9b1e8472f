"""Joins on several columns: MultiColumnJoin, OptionalJoin, Minus.

The lexicographic order on the matched columns is described by ranks: RA(i)
and RB(j) are integers attached to the rows of the two inputs such that
RA(i) < RB(j) iff row i is lexicographically smaller than row j, and equal iff
the rows agree on all matched columns.  PRE(i, j, k) says that the rows agree
on the first k matched columns.
"""
from spec import *

RA = z3.Function("RA", INT, INT)
RB = z3.Function("RB", INT, INT)
PRE = z3.Function("PRE", INT, INT, INT, z3.BoolSort())
ISJ = z3.Function("ISJ", INT, z3.BoolSort())     # column of b is matched
WJ = z3.Function("WJ", INT, INT)                 # position in the list of matched columns
NJ = z3.Function("NJ", INT, INT)                 # number of unmatched columns of b before this one


def jcf(J, k, side):
    return Select(Select(J.data.data, k), IntVal(side))


def ranks(A, B, J):
    """Definitions of RA, RB, PRE."""
    i, j, k = Ints("i!r j!r k!r")
    rng = And(0 <= i, i < A.n, 0 <= j, j < B.n, 0 <= k, k < J.n)
    a, b = cell(A, i, jcf(J, k, 0)), cell(B, j, jcf(J, k, 1))
    mp = z3.MultiPattern
    return [
        ("no columns compared", ForAll([i, j], PRE(i, j, 0), patterns=[mp(RA(i), RB(j)), PRE(i, j, 0)])),
        ("one more column", ForAll([i, j, k], Implies(And(rng, PRE(i, j, k), a == b), PRE(i, j, k + 1)), patterns=[mp(PRE(i, j, k), a, b)])),
        ("all columns", ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < B.n), PRE(i, j, J.n) == (RA(i) == RB(j))),
                               patterns=[mp(RA(i), RB(j)), PRE(i, j, J.n)])),
        ("equal ranks mean equal columns", ForAll([i, j, k], Implies(And(rng, RA(i) == RB(j)), a == b), patterns=[mp(a, b)])),
        ("first difference decides", ForAll([i, j, k], Implies(And(rng, PRE(i, j, k), a < b), RA(i) < RB(j)), patterns=[mp(PRE(i, j, k), a, b)])),
        ("first difference decides, other way", ForAll([i, j, k], Implies(And(rng, PRE(i, j, k), b < a), RB(j) < RA(i)), patterns=[mp(PRE(i, j, k), a, b)])),
    ]


def rank_sorted(F, n):
    p, q = Ints("p!s q!s")
    return ForAll([p, q], Implies(And(0 <= p, p < q, q < n), F(p) <= F(q)), patterns=[z3.MultiPattern(F(p), F(q))])


def join_columns(A, B, J, side=1):
    """Definitions of ISJ, WJ and NJ and their elementary consequences."""
    k, c, d = Ints("k!c c!c d!c")
    T = B
    return [
        ("matched columns exist", ForAll([k], Implies(And(0 <= k, k < J.n), And(0 <= jcf(J, k, 0), jcf(J, k, 0) < A.cols, 0 <= jcf(J, k, 1), jcf(J, k, 1) < B.cols)),
                                         patterns=[Select(J.data.data, k)])),
        ("matched column", ForAll([k], Implies(And(0 <= k, k < J.n), And(ISJ(jcf(J, k, 1)))), patterns=[Select(J.data.data, k)])),
        ("matched column position", ForAll([c], Implies(ISJ(c), And(0 <= WJ(c), WJ(c) < J.n, jcf(J, WJ(c), 1) == c)), patterns=[ISJ(c)])),
        ("count starts", NJ(0) == 0),
        ("count", ForAll([c], Implies(And(0 <= c, c < B.cols), NJ(c + 1) == NJ(c) + If(ISJ(c), 0, 1)), patterns=[NJ(c + 1)])),
        ("count is monotone", ForAll([c, d], Implies(And(0 <= c, c < d, d <= B.cols), And(0 <= NJ(c), NJ(c) <= NJ(d), Implies(Not(ISJ(c)), NJ(c) < NJ(d)))),
                                     patterns=[z3.MultiPattern(NJ(c), NJ(d))])),
    ]


NOTES = ["the order on the matched columns is given by integer ranks (RA, RB); such ranks exist for all finite inputs because the lexicographic order is a total preorder",
         "the number of unmatched columns before a column (NJ) is monotone"]


def bitmap_inv(name):
    def inv(s, e):
        J = s("joinColumns")
        m = s(name)
        idx = s("@idx")
        c, k = Ints("c!m k!m")
        return [("index", And(0 <= idx, idx <= J.n)), ("size", m.n == s.entry(name).n),
                ("only matched columns marked", ForAll([c], Implies(And(0 <= c, c < m.n, Select(m.data, c)), ISJ(c)), patterns=[Select(m.data, c)])),
                ("seen columns marked", ForAll([k], Implies(And(0 <= k, k < idx), Select(m.data, jcf(J, k, 1))), patterns=[Select(J.data.data, k)]))]
    return inv


def pairs(s, A, B, R):
    wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
    r, c = Ints("r!j c!j")
    n, ac = R.n, A.cols
    return [
        ("row pair in range and matching",
         ForAll([r], Implies(And(0 <= r, r < n),
                             And(0 <= wi[r], wi[r] < A.n, 0 <= wj[r], wj[r] < B.n, RA(wi[r]) == RB(wj[r]), pos[wi[r]][wj[r]] == r)), patterns=[wi[r], wj[r]])),
        ("row carries the left columns",
         ForAll([r, c], Implies(And(0 <= r, r < n, 0 <= c, c < ac), cell(R, r, c) == cell(A, wi[r], c)), patterns=[cell(R, r, c)])),
        ("row carries the right columns",
         ForAll([r, c], Implies(And(0 <= r, r < n, 0 <= c, c < B.cols, Not(ISJ(c))), cell(R, r, ac + NJ(c)) == cell(B, wj[r], c)),
                patterns=[z3.MultiPattern(Select(R.data, r), NJ(c))])),
        ("rows are in order of the left input",
         ForAll([r, c], Implies(And(0 <= r, r < c, c < n), wi[r] <= wi[c]), patterns=[z3.MultiPattern(wi[r], wi[c])])),
    ]


def emitted(s, R, i, j):
    wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
    p = pos[i][j]
    return And(0 <= p, p < R.n, wi[p] == i, wj[p] == j)


def complete(s, A, B, R, when):
    pos = s.ghost("pos")
    i, j = Ints("i!c j!c")
    return ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < B.n, RA(i) == RB(j), when(i, j)), emitted(s, R, i, j)), patterns=[pos[i][j]])


def bounded(s, R, cond):
    wi, wj = s.ghost("wi"), s.ghost("wj")
    r = Int("r!b")
    return ForAll([r], Implies(And(0 <= r, r < R.n), cond(wi[r], wj[r])), patterns=[wi[r]])


class MultiColumnJoinContract(Contract):
    tu = '''#include "@REPO@/src/engine/MultiColumnJoin.h"
template void MultiColumnJoin::computeMultiColumnJoin<0,0,0>(const IdTable&, const IdTable&, const vector<array<Id, 2>>&, IdTable*);
'''
    function = "MultiColumnJoin::computeMultiColumnJoin<0,0,0>"
    param_names = ["dynA", "dynB", "joinColumns", "dynResult"]
    assumptions = NOTES

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ROWS)}

    def requires(self, s):
        A, B, J, R = s("dynA"), s("dynB"), s("joinColumns"), s("dynResult")
        return ranks(A, B, J) + join_columns(A, B, J) + [
            ("left sorted", rank_sorted(RA, A.n)), ("right sorted", rank_sorted(RB, B.n)),
            ("at least one column", J.n >= 1),
            ("result empty and of the right width", And(R.n == 0, R.cols == A.cols + NJ(B.cols)))]

    def ensures(self, s, ret):
        A, B, R = s.old("dynA"), s.old("dynB"), s("dynResult")
        return pairs(s, A, B, R) + [
            ("every matching pair has a row", complete(s, A, B, R, lambda i, j: BoolVal(True))),
            ("result width", R.cols == A.cols + NJ(B.cols))]

    @staticmethod
    def env(s):
        return s("a"), s("b"), s("result"), s("ia"), s("ib")

    @staticmethod
    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        i, j = sv("ia"), sv("ib")
        k = R.n - 1
        sv.set_ghost("wi", Store(sv.ghost("wi"), k, i))
        sv.set_ghost("wj", Store(sv.ghost("wj"), k, j))
        pos = sv.ghost("pos")
        sv.set_ghost("pos", Store(pos, i, Store(pos[i], j, k)))

    def __init__(self):
        env = self.env
        self.hooks = {"detail::IdTableTemplated::push_back": self.push, "detail::IdTableTemplated::emplace_back": self.push}

        def done(s):
            A, B, R, i, j = env(s)
            return [("done before the front", complete(s, A, B, R, lambda x, y: Or(x < i, y < j))),
                    ("rows stem from before the front", bounded(s, R, lambda x, y: x < i))]

        def strict(s, cond=None):
            A, B, R, i, j = env(s)
            x = Int("x!f")
            f1 = Implies(j < B.n, ForAll([x], Implies(And(0 <= x, x < i), RA(x) < RB(j)), patterns=[RA(x)]))
            f2 = Implies(i < A.n, ForAll([x], Implies(And(0 <= x, x < j), RB(x) < RA(i)), patterns=[RB(x)]))
            if cond is not None:
                f1 = Or(cond, f1)
            return [("left keys before the front are smaller", f1), ("right keys before the front are smaller", f2)]

        def outer(s, e):
            A, B, R, i, j = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n)), ("width", R.cols == s.entry("result").cols)] + pairs(s, A, B, R) + done(s) + strict(s)

        def scan(s, e):
            A, B, R, i, j = env(s)
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n))] + done(s) + strict(s)

        def compare(s, e):
            A, B, R, i, j = env(s)
            k = s("joinColIndex")
            return [("positions", And(i == s.entry("ia"), j == s.entry("ib"), 0 <= k, k <= s("joinColumns").n)),
                    ("agree so far", And(s("matched"), PRE(i, j, k)))]

        def match(s, e):
            A, B, R, i, j = env(s)
            m = s("matched")
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n)), ("width", R.cols == s.entry("result").cols),
                    ("matched means equal", Implies(m, And(i < A.n, j < B.n, RA(i) == RB(j))))] + pairs(s, A, B, R) + done(s) + strict(s, m)

        def inner(s, e):
            A, B, R, i, j = env(s)
            kj = s("initIb")
            m = s("matched")
            k = Int("k!m")
            return [("positions", And(kj <= j, j <= B.n)), ("width", R.cols == s.entry("result").cols),
                    ("starts in the block", Implies(j == kj, m)),
                    ("matched means equal", Implies(j < B.n, m == (RA(i) == RB(j)))),
                    ("not past the end", Implies(m, j < B.n)),
                    ] + pairs(s, A, B, R) + [
                ("done so far", complete(s, A, B, R, lambda x, y: Or(x < i, And(x == i, y < j), y < kj))),
                ("rows so far", bounded(s, R, lambda x, y: Or(x < i, And(x == i, y < j)))),
                ("block equals the left key", ForAll([k], Implies(And(kj <= k, k < j), RB(k) == RA(i)), patterns=[RB(k)])),
            ]

        def columns(s, e):
            A, B, R, i, j = env(s)
            R0 = s.entry("result")
            back, col, x = s("backIdx"), s("col"), s("rIndex")
            r, c = Ints("r!w c!w")
            return [("position", And(0 <= col, col <= B.cols, x == A.cols + NJ(col), R.cols == R0.cols, R.n == R0.n)),
                    ("earlier rows unchanged", ForAll([r], Implies(And(0 <= r, r < back), Select(R.data, r) == Select(R0.data, r)), patterns=[Select(R.data, r)])),
                    ("left part unchanged", ForAll([c], Implies(And(0 <= c, c < A.cols), cell(R, back, c) == cell(R0, back, c)), patterns=[cell(R, back, c)])),
                    ("columns written", ForAll([c], Implies(And(0 <= c, c < col, Not(ISJ(c))), cell(R, back, A.cols + NJ(c)) == cell(B, j, c)), patterns=[NJ(c)])),
                    ]

        def still(s, e):
            A, B, R, i, j = env(s)
            k = s("@idx")
            return [("positions", And(0 <= k, k <= s("joinColumns").n)),
                    ("agree so far", And(s("matched"), Implies(k > 0, j < B.n), Implies(j < B.n, PRE(i, j, k))))]

        def nextrow(s, e):
            A, B, R, i, j = env(s)
            k, j0 = s("@idx"), s("initIb")
            return [("positions", And(0 <= k, k <= s("joinColumns").n)),
                    ("agree so far", And(s("matched"), Implies(k > 0, i < A.n), Implies(i < A.n, PRE(i, j0, k))))]
        self.loops = {
            0: dict(inv=bitmap_inv("joinColumnBitmap_b"), name="mark matched columns"),
            1: dict(inv=outer, name="main loop"),
            2: dict(inv=scan, name="skip left"),
            3: dict(inv=scan, name="skip right"),
            4: dict(inv=compare, name="compare the rows"),
            5: dict(inv=match, name="match"),
            6: dict(inv=inner, name="block"),
            7: dict(inv=columns, name="copy the right columns"),
            8: dict(inv=still, name="do the rows still match"),
            9: dict(inv=nextrow, name="does the next row match"),
        }



# ---------------------------------------------------------------- OPTIONAL
ISA = z3.Function("ISA", INT, z3.BoolSort())     # column of a is matched
WA = z3.Function("WA", INT, INT)
MA = z3.Function("MA", INT, INT)                 # a matching row of b, or -1
MB = z3.Function("MB", INT, INT)                 # a matching row of a, or -1
NOVAL = 2 ** 64 - 3


def left_columns(J):
    k, l, c = Ints("k!l l!l c!l")
    return [
        ("matched left column", ForAll([k], Implies(And(0 <= k, k < J.n), ISA(jcf(J, k, 0))), patterns=[Select(J.data.data, k)])),
        ("matched left column position", ForAll([c], Implies(ISA(c), And(0 <= WA(c), WA(c) < J.n, jcf(J, WA(c), 0) == c)), patterns=[ISA(c)])),
        ("left columns are distinct", ForAll([k, l], Implies(And(0 <= k, k < l, l < J.n), jcf(J, k, 0) != jcf(J, l, 0)),
                                             patterns=[z3.MultiPattern(Select(J.data.data, k), Select(J.data.data, l))])),
    ]


def partners(A, B):
    """Definitions of MA and MB."""
    x, y = Ints("x!p y!p")
    out = []
    for nm, M, F, n, G, m in (("left", MA, RA, A.n, RB, B.n), ("right", MB, RB, B.n, RA, A.n)):
        out.append((f"partner of a {nm} row", ForAll([x], Or(M(x) == -1, And(0 <= M(x), M(x) < m, G(M(x)) == F(x))), patterns=[M(x)])))
        out.append((f"{nm} row without partner", ForAll([x, y], Implies(And(0 <= y, y < m, M(x) == -1), F(x) != G(y)), patterns=[z3.MultiPattern(M(x), G(y))])))
    return out


def okey(s, r):
    wi, wj = s.ghost("wi"), s.ghost("wj")
    return If(wi[r] >= 0, RA(wi[r]), RB(wj[r]))


def orows(s, A, B, R, J, aOpt, bOpt):
    wi, wj, pos, pa, pb = (s.ghost(x) for x in ("wi", "wj", "pos", "pa", "pb"))
    r, c = Ints("r!j c!j")
    n, ac = R.n, A.cols
    inn = And(0 <= r, r < n)
    i, j = wi[r], wj[r]
    return [
        ("every row stems from a pair or from a row without partner",
         ForAll([r], Implies(inn, Or(
             And(0 <= i, i < A.n, 0 <= j, j < B.n, RA(i) == RB(j), pos[i][j] == r),
             And(0 <= i, i < A.n, j == -1, bOpt, MA(i) == -1, pa[i] == r),
             And(i == -1, 0 <= j, j < B.n, aOpt, MB(j) == -1, pb[j] == r))), patterns=[i, j])),
        ("left columns", ForAll([r, c], Implies(And(inn, 0 <= c, c < ac, i >= 0), cell(R, r, c) == cell(A, i, c)), patterns=[cell(R, r, c)])),
        ("left columns of a padded row",
         ForAll([r, c], Implies(And(inn, 0 <= c, c < ac, i < 0), cell(R, r, c) == If(ISA(c), cell(B, j, jcf(J, WA(c), 1)), NOVAL)), patterns=[cell(R, r, c)])),
        ("right columns", ForAll([r, c], Implies(And(inn, 0 <= c, c < B.cols, Not(ISJ(c)), j >= 0), cell(R, r, ac + NJ(c)) == cell(B, j, c)),
                                 patterns=[z3.MultiPattern(Select(R.data, r), NJ(c))])),
        ("right columns of a padded row", ForAll([r, c], Implies(And(inn, ac <= c, c < R.cols, j < 0), cell(R, r, c) == NOVAL), patterns=[cell(R, r, c)])),
        ("rows are ordered by the matched columns",
         ForAll([r, c], Implies(And(0 <= r, r < c, c < n), okey(s, r) <= okey(s, c)), patterns=[z3.MultiPattern(wi[r], wi[c])])),
    ]


def osingle(s, R, aOpt, bOpt, A, B, ca, cb):
    """Rows without partner below the bounds are in the result."""
    wi, wj, pa, pb = (s.ghost(x) for x in ("wi", "wj", "pa", "pb"))
    x = Int("x!o")
    return [
        ("left rows without partner are kept", Or(Not(bOpt), ForAll([x], Implies(And(0 <= x, x < A.n, MA(x) == -1, ca(x)), And(
            0 <= pa[x], pa[x] < R.n, wi[pa[x]] == x, wj[pa[x]] == -1)), patterns=[MA(x), pa[x]]))),
        ("right rows without partner are kept", Or(Not(aOpt), ForAll([x], Implies(And(0 <= x, x < B.n, MB(x) == -1, cb(x)), And(
            0 <= pb[x], pb[x] < R.n, wi[pb[x]] == -1, wj[pb[x]] == x)), patterns=[MB(x), pb[x]]))),
    ]


class OptionalJoinContract(Contract):
    tu = '''#include "@REPO@/src/engine/OptionalJoin.cpp"
template void OptionalJoin::optionalJoin<0,0,0>(const IdTable&, const IdTable&, bool, bool, const vector<array<Id, 2>>&, IdTable*);
'''
    function = "OptionalJoin::optionalJoin<0,0,0>"
    param_names = ["dynA", "dynB", "aOptional", "bOptional", "joinColumns", "dynResult"]
    assumptions = NOTES

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ROWS), "pa": z3.Const("pa", ARR), "pb": z3.Const("pb", ARR)}

    def requires(self, s):
        A, B, J, R = s("dynA"), s("dynB"), s("joinColumns"), s("dynResult")
        return ranks(A, B, J) + join_columns(A, B, J) + left_columns(J) + partners(A, B) + [
            ("left sorted", rank_sorted(RA, A.n)), ("right sorted", rank_sorted(RB, B.n)),
            ("at least one column", J.n >= 1),
            ("result empty and of the right width", And(R.n == 0, R.cols == A.cols + NJ(B.cols)))]

    def ensures(self, s, ret):
        A, B, R, J = s.old("dynA"), s.old("dynB"), s("dynResult"), s.old("joinColumns")
        ao, bo = s.old("aOptional"), s.old("bOptional")
        T = lambda *a: BoolVal(True)
        return orows(s, A, B, R, J, ao, bo) + osingle(s, R, ao, bo, A, B, T, T) + [
            ("every matching pair has a row", complete(s, A, B, R, T)),
            ("result width", R.cols == A.cols + NJ(B.cols))]

    @staticmethod
    def env(s):
        return s("a"), s("b"), s("result"), s("ia"), s("ib")

    @staticmethod
    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        ai, ae, bi, be = sv("aIdx"), sv("aEmpty"), sv("bIdx"), sv("bEmpty")
        k = R.n - 1
        i = If(ae, IntVal(-1), ai)
        j = If(be, IntVal(-1), bi)
        sv.set_ghost("wi", Store(sv.ghost("wi"), k, z3.simplify(i)))
        sv.set_ghost("wj", Store(sv.ghost("wj"), k, z3.simplify(j)))
        pos, pa, pb = sv.ghost("pos"), sv.ghost("pa"), sv.ghost("pb")
        none = Or(ae, be)
        sv.set_ghost("pos", z3.simplify(If(none, pos, Store(pos, ai, Store(pos[ai], bi, k)))))
        sv.set_ghost("pa", z3.simplify(If(And(be, Not(ae)), Store(pa, ai, k), pa)))
        sv.set_ghost("pb", z3.simplify(If(And(ae, Not(be)), Store(pb, bi, k), pb)))

    def __init__(self):
        env = self.env
        self.hooks = {"detail::IdTableTemplated::push_back": self.push, "detail::IdTableTemplated::emplace_back": self.push}

        def rows(s):
            A, B, R, i, j = env(s)
            return [("width", R.cols == s.old("dynResult").cols)] + orows(s, A, B, R, s("joinColumns"), s("aOptional"), s("bOptional"))

        def keys(s, lim):
            R = s("result")
            r = Int("r!k")
            return ForAll([r], Implies(And(0 <= r, r < R.n), okey(s, r) <= lim), patterns=[s.ghost("wi")[r]])

        def done(s):
            A, B, R, i, j = env(s)
            return [("done before the front", complete(s, A, B, R, lambda x, y: Or(x < i, y < j))),
                    ("pairs stem from before the front", bounded(s, R, lambda x, y: And(x < i, Or(x >= 0, y < j)))),
                    ("result keys up to the left front", Implies(i < A.n, keys(s, RA(i)))),
                    ("result keys up to the right front", Implies(j < B.n, keys(s, RB(j))))] + \
                osingle(s, R, s("aOptional"), s("bOptional"), A, B, lambda x: x < i, lambda y: y < j)

        def strict(s, cond=None):
            A, B, R, i, j = env(s)
            x = Int("x!f")
            f1 = Implies(j < B.n, ForAll([x], Implies(And(0 <= x, x < i), RA(x) < RB(j)), patterns=[RA(x)]))
            f2 = Implies(i < A.n, ForAll([x], Implies(And(0 <= x, x < j), RB(x) < RA(i)), patterns=[RB(x)]))
            if cond is not None:
                f1 = Or(cond, f1)
            return [("left keys before the front are smaller", f1), ("right keys before the front are smaller", f2)]

        def outer(s, e):
            A, B, R, i, j = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n))] + rows(s) + done(s) + strict(s)

        def scan(s, e):
            A, B, R, i, j = env(s)
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n))] + rows(s) + done(s) + strict(s)

        def compare(s, e):
            A, B, R, i, j = env(s)
            k = s("joinColIndex")
            g = [s.ghost(x) == s.ghost_entry(x) for x in ("wi", "wj", "pos", "pa", "pb")]
            R0 = s.entry("result")
            return [("positions", And(i == s.entry("ia"), j == s.entry("ib"), 0 <= k, k <= s("joinColumns").n)),
                    ("nothing written", And(R.n == R0.n, R.cols == R0.cols, R.data == R0.data, *g)),
                    ("agree so far", And(s("matched"), PRE(i, j, k)))]

        def match(s, e):
            A, B, R, i, j = env(s)
            m = s("matched")
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n)),
                    ("matched means equal", Implies(m, And(i < A.n, j < B.n, RA(i) == RB(j))))] + rows(s) + done(s) + strict(s, m)

        def inner(s, e):
            A, B, R, i, j = env(s)
            kj = s("initIb")
            m = s("matched")
            k = Int("k!m")
            return [("positions", And(kj <= j, j <= B.n)),
                    ("starts in the block", Implies(j == kj, m)),
                    ("matched means equal", Implies(j < B.n, m == (RA(i) == RB(j)))),
                    ("not past the end", Implies(m, j < B.n)),
                    ] + rows(s) + [
                ("done so far", complete(s, A, B, R, lambda x, y: Or(x < i, And(x == i, y < j), y < kj))),
                ("rows so far", bounded(s, R, lambda x, y: Or(And(0 <= x, x < i), And(x == i, y < j, y >= 0), And(x < 0, y < kj)))),
                ("result keys up to the block", keys(s, RA(i))),
                ("block equals the left key", ForAll([k], Implies(And(kj <= k, k < j), RB(k) == RA(i)), patterns=[RB(k)])),
            ] + osingle(s, R, s("aOptional"), s("bOptional"), A, B, lambda x: x < i, lambda y: y < kj)

        def cols(which):
            def inv(s, e):
                A, B, R = s("a"), s("b"), s("res")
                R0 = s.entry("res")
                back, col, x, j = s("rIdx"), s("col"), s("i"), s("bIdx")
                J = s("joinColumns")
                r, c = Ints("r!w c!w")
                out = [("table", And(R.cols == R0.cols, R.n == R0.n)),
                       ("earlier rows unchanged", ForAll([r], Implies(And(0 <= r, r < back), Select(R.data, r) == Select(R0.data, r)), patterns=[Select(R.data, r)]))]
                if which == "a":
                    return out + [("position", And(0 <= col, col <= A.cols, x == col)),
                                  ("columns written", ForAll([c], Implies(And(0 <= c, c < col), cell(R, back, c) == If(ISA(c), cell(B, j, jcf(J, WA(c), 1)), NOVAL)),
                                                             patterns=[cell(R, back, c)]))]
                return out + [("position", And(0 <= col, col <= B.cols, x == A.cols + NJ(col))),
                              ("left part unchanged", ForAll([c], Implies(And(0 <= c, c < A.cols), cell(R, back, c) == cell(R0, back, c)), patterns=[cell(R, back, c)])),
                              ("columns written", ForAll([c], Implies(And(0 <= c, c < col, Not(ISJ(c))), cell(R, back, A.cols + NJ(c)) == cell(B, j, c)), patterns=[NJ(c)]))]
            return inv

        def still(s, e):
            A, B, R, i, j = env(s)
            k = s("@idx")
            return [("positions", And(0 <= k, k <= s("joinColumns").n)),
                    ("agree so far", And(s("matched"), Implies(k > 0, j < B.n), Implies(j < B.n, PRE(i, j, k))))]

        def nextrow(s, e):
            A, B, R, i, j = env(s)
            k, j0 = s("@idx"), s("initIb")
            return [("positions", And(0 <= k, k <= s("joinColumns").n)),
                    ("agree so far", And(s("matched"), Implies(k > 0, i < A.n), Implies(i < A.n, PRE(i, j0, k))))]

        def bitmaps(s, e):
            J, ma, mb, idx = s("joinColumns"), s("joinColumnBitmap_a"), s("joinColumnBitmap_b"), s("@idx")
            c, k = Ints("c!m k!m")
            out = [("index", And(0 <= idx, idx <= J.n, ma.n == s.entry("joinColumnBitmap_a").n, mb.n == s.entry("joinColumnBitmap_b").n))]
            for m, P, side, nm in ((ma, ISA, 0, "left"), (mb, ISJ, 1, "right")):
                out += [(f"only matched {nm} columns marked", ForAll([c], Implies(And(0 <= c, c < m.n, Select(m.data, c)), P(c)), patterns=[Select(m.data, c)])),
                        (f"seen {nm} columns marked", ForAll([k], Implies(And(0 <= k, k < idx), Select(m.data, jcf(J, k, side))), patterns=[Select(J.data.data, k)]))]
            return out

        def maxcol(s, e):
            J, m, idx = s("joinColumns"), s("maxJoinColA"), s("@idx")
            k = Int("k!m")
            return [("index", And(0 <= idx, idx <= J.n, 0 <= m, m < 2 ** 31)),
                    ("largest so far", ForAll([k], Implies(And(0 <= k, k < idx), jcf(J, k, 0) <= m), patterns=[Select(J.data.data, k)]))]

        def atob(s, e):
            J, v, idx = s("joinColumns"), s("joinColumnAToB"), s("@idx")
            k = Int("k!m")
            return [("index", And(0 <= idx, idx <= J.n, v.n == s.entry("joinColumnAToB").n)),
                    ("mapped so far", ForAll([k], Implies(And(0 <= k, k < idx), Select(v.data, jcf(J, k, 0)) == jcf(J, k, 1)), patterns=[Select(J.data.data, k)]))]

        def only(side):
            def inv(s, e):
                A, B, R = s("a"), s("b"), s("result")
                wi, wj = s.ghost("wi"), s.ghost("wj")
                r = Int("r!o")
                out = [("width", R.cols == s.old("dynResult").cols)] + orows(s, A, B, R, s("joinColumns"), s("aOptional"), s("bOptional"))
                if side == "b":
                    j = s("ib")
                    out += [("position", And(0 <= j, j <= B.n)), ("rows so far", bounded(s, R, lambda x, y: And(x == -1, y < j)))]
                    return out + [osingle(s, R, s("aOptional"), s("bOptional"), A, B, lambda x: BoolVal(False), lambda y: y < j)[1]]
                i = s("ia")
                out += [("position", And(0 <= i, i <= A.n)), ("rows so far", bounded(s, R, lambda x, y: And(y == -1, x < i)))]
                return out + [osingle(s, R, s("aOptional"), s("bOptional"), A, B, lambda x: x < i, lambda y: BoolVal(False))[0]]
            return inv

        def tail(s, e):
            A, B, R, i, j = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n, Or(i == A.n, j == B.n)))] + rows(s) + done(s) + strict(s)
        self.loops = {
            0: dict(inv=bitmaps, name="mark matched columns"),
            1: dict(inv=maxcol, name="largest left column"),
            2: dict(inv=atob, name="map left to right columns"),
            3: dict(inv=only("b"), name="left side empty"),
            4: dict(inv=cols("a"), name="pad the left columns"),
            5: dict(inv=cols("b"), name="copy the right columns of a padded row"),
            6: dict(inv=cols("b"), name="copy the right columns"),
            7: dict(inv=only("a"), name="right side empty"),
            8: dict(inv=outer, name="main loop"),
            9: dict(inv=scan, name="skip left"),
            10: dict(inv=scan, name="skip right"),
            11: dict(inv=compare, name="compare the rows"),
            12: dict(inv=match, name="match"),
            13: dict(inv=inner, name="block"),
            14: dict(inv=still, name="do the rows still match"),
            15: dict(inv=nextrow, name="does the next row match"),
            16: dict(inv=tail, name="remaining right rows"),
            17: dict(inv=tail, name="remaining left rows"),
        }


# ---------------------------------------------------------------- MINUS
class MinusContract(Contract):
    tu = '''#include "@REPO@/src/engine/Minus.cpp"
template void Minus::computeMinus<0,0>(const IdTable&, const IdTable&, const vector<array<size_t, 2>>&, IdTable*) const;
'''
    function = "Minus::computeMinus<0,0>"
    param_names = ["dynA", "dynB", "joinColumns", "dynResult"]
    assumptions = NOTES[:1]

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "pos": z3.Const("pos", ARR)}

    def requires(self, s):
        A, B, J, R = s("dynA"), s("dynB"), s("joinColumns"), s("dynResult")
        return ranks(A, B, J) + join_columns(A, B, J)[:3] + partners(A, B)[:2] + [
            ("left sorted", rank_sorted(RA, A.n)), ("right sorted", rank_sorted(RB, B.n)),
            ("result empty and of the right width", And(R.n == 0, R.cols == A.cols))]

    @staticmethod
    def rows(s, A, R, J, lim=None):
        wi, pos = s.ghost("wi"), s.ghost("pos")
        r, c = Ints("r!j c!j")
        inn = And(0 <= r, r < R.n)
        return [
            ("width", R.cols == A.cols),
            ("every row is a left row without partner", ForAll([r], Implies(inn, And(0 <= wi[r], wi[r] < (A.n if lim is None else lim), Or(J.n == 0, MA(wi[r]) == -1))), patterns=[wi[r]])),
            ("all columns are kept", ForAll([r, c], Implies(And(inn, 0 <= c, c < A.cols), cell(R, r, c) == cell(A, wi[r], c)), patterns=[cell(R, r, c)])),
            ("rows keep their order and occur once", ForAll([r, c], Implies(And(0 <= r, r < c, c < R.n), wi[r] < wi[c]), patterns=[z3.MultiPattern(wi[r], wi[c])])),
        ]

    @staticmethod
    def kept(s, A, R, J, lim):
        wi, pos = s.ghost("wi"), s.ghost("pos")
        x = Int("x!o")
        return ("rows without partner are kept", ForAll([x], Implies(And(0 <= x, x < lim, Or(J.n == 0, MA(x) == -1)), And(
            0 <= pos[x], pos[x] < R.n, wi[pos[x]] == x)), patterns=[MA(x), pos[x]]))

    def ensures(self, s, ret):
        A, R, J = s.old("dynA"), s("dynResult"), s.old("joinColumns")
        return self.rows(s, A, R, J) + [self.kept(s, A, R, J, A.n)]

    def __init__(self):
        def push(sv, eng, st, base, a, r):
            R = eng.read(st, eng.as_ptr(st, base))
            i = sv("ia")
            sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, i))
            sv.set_ghost("pos", Store(sv.ghost("pos"), i, R.n - 1))

        def assign(sv, eng, st, base, a, r):
            R = eng.read(st, eng.as_ptr(st, base))
            if R.data.eq(sv.old("dynA").data):       # a copy of the left input
                x = Int("x!id")
                ident = z3.Const("identity", ARR)
                st.assume(ForAll([x], ident[x] == x, patterns=[ident[x]]))
                sv.set_ghost("wi", ident)
                sv.set_ghost("pos", ident)
        self.hooks = {"detail::IdTableTemplated::push_back": push, "detail::IdTableTemplated::operator=": assign}

        def env(s):
            return s("a"), s("b"), s("result"), s("ia"), s("ib"), s("joinColumns")

        def cut(A, B, i, j):
            y = Int("y!f")
            return ("right keys before the front are smaller", Implies(i < A.n, ForAll([y], Implies(And(0 <= y, y < j), RB(y) < RA(i)), patterns=[RB(y)])))

        def base(s):
            A, B, R, i, j, J = env(s)
            return self.rows(s, A, R, J, i) + [self.kept(s, A, R, J, i), cut(A, B, i, j)]

        def outer(s, e):
            A, B, R, i, j, J = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n))] + base(s)

        def scan(s, e):
            A, B, R, i, j, J = env(s)
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n))] + base(s)

        def tail(s, e):
            A, B, R, i, j, J = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n, Or(i == A.n, j == B.n)))] + base(s)

        def cmp(s, e):
            k = s("i")
            return [("position", And(1 <= k, k <= s("joinColumns").n)), ("agree so far", PRE(s("ia"), s("ib"), k))]

        def colmap(s, e):
            v, idx = s("rightToLeftCols"), s("@idx")
            return [("index", And(0 <= idx, idx <= s("joinColumns").n, v.n == s.entry("rightToLeftCols").n))]
        self.loops = {
            0: dict(inv=colmap, name="map columns"),
            1: dict(inv=outer, name="main loop"),
            2: dict(inv=scan, name="skip left"),
            3: dict(inv=scan, name="skip right"),
            4: dict(inv=scan, name="equal first column"),
            5: dict(inv=cmp, name="compare the rows"),
            6: dict(inv=tail, name="remaining rows"),
        }


CONTRACTS = [MultiColumnJoinContract, OptionalJoinContract, MinusContract]
