"""Operations on the sorted lists of the text index."""
from spec import *

mp = z3.MultiPattern
BOOL = z3.BoolSort()
TU = '#include "@REPO@/src/index/FTSAlgorithms.cpp"\n'
CNT = z3.Function("CNT", INT, INT)    # number of kept entries before a position
FST1 = z3.Function("FST1", INT, INT)  # first position of a context in the first list
FST2 = z3.Function("FST2", INT, INT)


def el(v, i):
    return Select(v.data, i)


def increasing(v):
    p, q = Ints("p!t q!t")
    return ForAll([p, q], Implies(And(0 <= p, p < q, q < v.n), el(v, p) <= el(v, q)), patterns=[mp(el(v, p), el(v, q))])


class FilterByRange(Contract):
    """Entries whose word lies in a range, in order."""
    tu = TU
    std = "gnu++17"
    function = "FTSAlgorithms::filterByRange"
    param_names = ["idRange", "blockCids", "blockWids", "blockScores", "resultCids", "resultScores"]
    assumptions = ["CNT counts the entries in range before a position; it is defined by recursion and exists"]

    def keeps(self, s, i):
        w = el(s.old("blockWids"), i)
        r = s.old("idRange")
        return And(w >= r.get("_first"), w <= r.get("_last"))

    def requires(self, s):
        i = Int("i!t")
        return [("lists have equal lengths", And(s("blockCids").n == s("blockWids").n, s("blockCids").n == s("blockScores").n)),
                ("counting starts at zero", CNT(0) == 0),
                ("counting", ForAll([i], Implies(0 <= i, CNT(i + 1) == CNT(i) + If(self.keeps(s, i), 1, 0)), patterns=[CNT(i + 1)]))]

    def placed(self, s, C, S, lim, n):
        k = Int("k!t")
        return [("kept entries are in place", ForAll([k], Implies(And(0 <= k, k < lim, self.keeps(s, k)), And(
            0 <= CNT(k), CNT(k) < n, el(C, CNT(k)) == el(s.old("blockCids"), k), el(S, CNT(k)) == el(s.old("blockScores"), k))), patterns=[CNT(k)]))]

    def ensures(self, s, ret):
        C, S, n = s("resultCids"), s("resultScores"), s.old("blockWids").n
        return [("number of entries", And(C.n == CNT(n), S.n == CNT(n)))] + self.placed(s, C, S, n, C.n)

    def __init__(self):
        def inv(s, e):
            C, S, i, n = s("resultCids"), s("resultScores"), s("i"), s("nofResultElements")
            N = s.old("blockWids").n
            return [("position", And(0 <= i, i <= N, n == CNT(i), 0 <= n, n <= i)), ("room", And(C.n == N + 2, S.n == N + 2))] + self.placed(s, C, S, i, n)
        self.loops = {0: dict(inv=inv, name="entries")}


class IntersectEntities(Contract):
    """Entity postings of matching contexts, in order."""
    tu = TU
    std = "gnu++17"
    function = "FTSAlgorithms::intersect"
    param_names = ["matchingContexts", "eBlockCids", "eBlockWids", "eBlockScores", "resultCids", "resultEids", "resultScores"]

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ARR)}

    def requires(self, s):
        M, E = s("matchingContexts"), s("eBlockCids")
        return [("lists have equal lengths", And(s("eBlockWids").n == E.n, s("eBlockScores").n == E.n)),
                ("results are empty", And(s("resultCids").n == 0, s("resultEids").n == 0, s("resultScores").n == 0)),
                ("contexts ascend", increasing(M)), ("entity postings ascend", increasing(E))]

    def found(self, s, lim):
        M, E = s.old("matchingContexts"), s.old("eBlockCids")
        C, D, S = s("resultCids"), s("resultEids"), s("resultScores")
        wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
        r, q, i, j = Ints("r!t q!t i!t j!t")
        inr = And(0 <= r, r < C.n)
        return [("results have equal lengths", And(D.n == C.n, S.n == C.n)),
                ("entries stem from the list", ForAll([r], Implies(inr, And(0 <= wj[r], wj[r] < lim, el(C, r) == el(E, wj[r]))), patterns=[wj[r], el(C, r)])),
                ("entities belong to the entries", ForAll([r], Implies(inr, el(D, r) == el(s.old("eBlockWids"), wj[r])), patterns=[wj[r], el(D, r)])),
                ("scores belong to the entries", ForAll([r], Implies(inr, el(S, r) == el(s.old("eBlockScores"), wj[r])), patterns=[wj[r], el(S, r)])),
                ("entries match", ForAll([r], Implies(inr, And(0 <= wi[r], wi[r] < M.n, el(M, wi[r]) == el(E, wj[r]))), patterns=[wi[r], wj[r]])),
                ("entries are in order", ForAll([r, q], Implies(And(0 <= r, r < q, q < C.n), wj[r] < wj[q]), patterns=[mp(wj[r], wj[q])])),
                ("no match is missing", ForAll([i, j], Implies(And(0 <= i, i < M.n, 0 <= j, j < lim, el(M, i) == el(E, j)), And(0 <= pos[j], pos[j] < C.n, wj[pos[j]] == j)),
                                               patterns=[mp(el(M, i), pos[j])]))]

    def ensures(self, s, ret):
        return self.found(s, s.old("eBlockCids").n)

    def __init__(self):
        def inv(s, e):
            M, E, i, j = s("matchingContexts"), s("eBlockCids"), s("i"), s("j")
            p = Int("p!t")
            return [("positions", And(0 <= i, i <= M.n, 0 <= j, j <= E.n)),
                    ("earlier contexts are smaller", ForAll([p], Implies(And(0 <= p, p < i, j < E.n), el(M, p) < el(E, j)), patterns=[el(M, p)]))] + self.found(s, j)

        def inner(s, e):
            return inv(s, e) + [("not at the end", And(s("i") < s("matchingContexts").n, s("j") < s("eBlockCids").n))]

        def equal(s, e):
            M, E, i, j = s("matchingContexts"), s("eBlockCids"), s("i"), s("j")
            return inner(s, e) + [("context not passed", el(M, i) <= el(E, j))]
        self.loops = {0: dict(inv=inv, name="merge"), 1: dict(inv=inner, name="skip contexts"), 2: dict(inv=inner, name="skip postings"), 3: dict(inv=equal, name="postings of a context")}

    def push(sv, eng, st, base, a, r):
        p = eng.as_ptr(st, base)
        if p.root != sv("&resultCids").root:
            return
        R = eng.read(st, p)
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, sv("i")))
        sv.set_ghost("wj", Store(sv.ghost("wj"), R.n - 1, sv("j")))
        sv.set_ghost("pos", Store(sv.ghost("pos"), sv("j"), R.n - 1))

    hooks = {"std::vector::push_back": push}


class IntersectWords(Contract):
    """Contexts two word lists have in common; contexts that occur several
    times are paired occurrence by occurrence and scores are added."""
    tu = TU
    std = "gnu++17"
    function = "FTSAlgorithms::intersectTwoPostingLists"
    param_names = ["cids1", "scores1", "cids2", "scores2", "resultCids", "resultScores"]
    assumptions = ["FST1 and FST2 name the first position of a context in a list; they exist because the lists are finite"]

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ARR)}

    def first(self, A, f):
        p = Int("p!t")
        c = el(A, p)
        return ForAll([p], Implies(And(0 <= p, p < A.n), And(0 <= f(c), f(c) <= p, el(A, f(c)) == c, Or(f(c) == 0, el(A, f(c) - 1) < c))), patterns=[f(c)])

    def requires(self, s):
        A, B = s("cids1"), s("cids2")
        return [("lists have equal lengths", And(s("scores1").n == A.n, s("scores2").n == B.n)),
                ("results are empty", And(s("resultCids").n == 0, s("resultScores").n == 0)),
                ("first list ascends", increasing(A)), ("second list ascends", increasing(B)),
                ("first positions", And(self.first(A, FST1), self.first(B, FST2)))]

    def pair(self, s, i, j):
        A, B = s.old("cids1"), s.old("cids2")
        return And(el(A, i) == el(B, j), i - FST1(el(A, i)) == j - FST2(el(B, j)))

    def found(self, s, li, lj):
        A, B, SA, SB = s.old("cids1"), s.old("cids2"), s.old("scores1"), s.old("scores2")
        C, S = s("resultCids"), s("resultScores")
        wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
        r, q, i, j = Ints("r!t q!t i!t j!t")
        inr = And(0 <= r, r < C.n)
        return [("results have equal lengths", S.n == C.n),
                ("entries stem from both lists", ForAll([r], Implies(inr, And(0 <= wi[r], wi[r] < li, 0 <= wj[r], wj[r] < lj, self.pair(s, wi[r], wj[r]))), patterns=[mp(wi[r], wj[r])])),
                ("context", ForAll([r], Implies(inr, el(C, r) == el(B, wj[r])), patterns=[wj[r], el(C, r)])),
                ("score", ForAll([r], Implies(inr, el(S, r) == (el(SA, wi[r]) + el(SB, wj[r])) % 65536), patterns=[el(S, r)])),
                ("entries are in order", ForAll([r, q], Implies(And(0 <= r, r < q, q < C.n), And(wi[r] < wi[q], wj[r] < wj[q])), patterns=[mp(wj[r], wj[q]), mp(wi[r], wi[q])])),
                ("no common context is missing", ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < B.n, Or(i < li, j < lj), self.pair(s, i, j)),
                                                                      And(0 <= pos[i], pos[i] < C.n, wi[pos[i]] == i, wj[pos[i]] == j)),
                                               patterns=[mp(pos[i], el(B, j))]))]

    def ensures(self, s, ret):
        return self.found(s, s.old("cids1").n, s.old("cids2").n)

    def __init__(self):
        def starts(s):
            A, B, i, j = s("cids1"), s("cids2"), s("i"), s("j")
            return And(Or(i == 0, el(A, i - 1) < el(A, i), el(A, i) < el(B, j)), Or(j == 0, el(B, j - 1) < el(B, j), el(B, j) < el(A, i)))

        def inv(s, e):
            A, B, i, j = s("cids1"), s("cids2"), s("i"), s("j")
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n)),
                    ("next contexts are new", Implies(And(i < A.n, j < B.n), starts(s)))] + self.found(s, i, j)

        def skip1(s, e):
            return inv(s, e) + [("not at the end", And(s("i") < s("cids1").n, s("j") < s("cids2").n))]

        def equal(s, e):
            A, B, i, j = s("cids1"), s("cids2"), s("i"), s("j")
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n)),
                    ("next contexts are new", Or(self.pair(s, i, j), And(el(A, i) != el(B, j), starts(s))))] + self.found(s, i, j)
        self.loops = {0: dict(inv=inv, name="merge"), 1: dict(inv=skip1, name="skip in the first"), 2: dict(inv=skip1, name="skip in the second"), 3: dict(inv=equal, name="common contexts")}

    def push(sv, eng, st, base, a, r):
        p = eng.as_ptr(st, base)
        if p.root != sv("&resultCids").root:
            return
        R = eng.read(st, p)
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, sv("i")))
        sv.set_ghost("wj", Store(sv.ghost("wj"), R.n - 1, sv("j")))
        sv.set_ghost("pos", Store(sv.ghost("pos"), sv("i"), R.n - 1))

    hooks = {"std::vector::push_back": push}


CONTRACTS = [FilterByRange, IntersectEntities, IntersectWords]
