"""DISTINCT and the intersection of a table with a two-column list."""
from spec import *
from filter import kept_rows

mp = z3.MultiPattern


class FilterByPairs(Contract):
    """Rows whose two given columns occur together in a list of pairs."""
    tu = '''#include "@REPO@/src/engine/Engine.h"
template void Engine::filter<0,0>(const IdTable&, size_t, size_t, const IdTable&, IdTable*);
'''
    function = "Engine::filter<0,0>"
    param_names = ["dynV", "fc1", "fc2", "dynFilter", "dynResult"]

    def ghosts(self, eng):
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ARR)}

    def requires(self, s):
        A, F, R = s("dynV"), s("dynFilter"), s("dynResult")
        x, y = s("fc1"), s("fc2")
        i, j = Ints("i!f j!f")

        def lex(T, c, d):
            return ForAll([i, j], Implies(And(0 <= i, i < j, j < T.n), Or(cell(T, i, c) < cell(T, j, c), And(cell(T, i, c) == cell(T, j, c), cell(T, i, d) <= cell(T, j, d)))),
                          patterns=[mp(Select(T.data, i), Select(T.data, j))])
        return [("columns exist", And(0 <= x, x < A.cols, 0 <= y, y < A.cols, F.cols == 2)), ("result empty", And(R.n == 0, R.cols == A.cols)),
                ("table is sorted on the two columns", lex(A, x, y)), ("list is sorted", lex(F, 0, 1))]

    def match(self, s, i, j):
        A, F = s.old("dynV"), s.old("dynFilter")
        return And(cell(A, i, s.old("fc1")) == cell(F, j, 0), cell(A, i, s.old("fc2")) == cell(F, j, 1))

    def common(self, s, R, lim):
        A, F = s.old("dynV"), s.old("dynFilter")
        wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
        r, i, j = Ints("r!f i!f j!f")
        return kept_rows(s, A, R) + [
            ("kept rows have a partner", ForAll([r], Implies(And(0 <= r, r < R.n), And(wi[r] < lim, 0 <= wj[r], wj[r] < F.n, self.match(s, wi[r], wj[r]))), patterns=[wi[r]])),
            ("rows with a partner are kept", ForAll([i, j], Implies(And(0 <= i, i < lim, 0 <= j, j < F.n, self.match(s, i, j)), And(0 <= pos[i], pos[i] < R.n, wi[pos[i]] == i)),
                                                    patterns=[mp(pos[i], Select(F.data, j))]))]

    def ensures(self, s, ret):
        A, R = s.old("dynV"), s("dynResult")
        return [("width", R.cols == A.cols)] + self.common(s, R, A.n)

    def __init__(self):
        def inv(s, e):
            A, F, R, i, j = s("v"), s("filter"), s("result"), s("i"), s("j")
            x, y = s.old("fc1"), s.old("fc2")
            k = Int("k!f")
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= F.n)), ("width", R.cols == A.cols),
                    ("list entries before the position are smaller", Implies(i < A.n, ForAll([k], Implies(And(0 <= k, k < j), Or(
                        cell(F, k, 0) < cell(A, i, x), And(cell(F, k, 0) == cell(A, i, x), cell(F, k, 1) < cell(A, i, y)))), patterns=[Select(F.data, k)])))] + self.common(s, R, i)

        def inner(s, e):
            return inv(s, e) + [("not at the end", And(s("i") < s("v").n, s("j") < s("filter").n))]
        self.loops = {0: dict(inv=inv, name="merge"), 1: dict(inv=inner, name="skip rows"), 2: dict(inv=inner, name="skip list entries"),
                      3: dict(inv=inner, name="equal first column")}

    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        i, j = sv("i"), sv("j")
        sv.set_ghost("wi", Store(sv.ghost("wi"), R.n - 1, i))
        sv.set_ghost("wj", Store(sv.ghost("wj"), R.n - 1, j))
        sv.set_ghost("pos", Store(sv.ghost("pos"), i, R.n - 1))

    hooks = {"detail::IdTableTemplated::push_back": push}


ROW = z3.ArraySort(INT, INT)
EQK = z3.Function("EQK", ROW, ROW, z3.BoolSort())     # rows agree on the kept columns
DIFK = z3.Function("DIFK", ROW, ROW, INT)             # position of a kept column where they differ
RK = z3.Function("RK", ROW, INT)                      # rank of a row in the order on the kept columns


class DistinctContract(Contract):
    tu = '''#include "@REPO@/src/engine/Engine.h"
template void Engine::distinct<0>(const IdTable&, const std::vector<size_t>&, IdTable*);
'''
    function = "Engine::distinct<0>"
    param_names = ["dynInput", "keepIndices", "dynResult"]
    assumptions = ["the order on the kept columns is given by integer ranks (RK); such ranks exist for all finite inputs"]

    def ghosts(self, eng):
        return {"uq_from": z3.Const("uq_from", ARR), "uq_to": z3.Const("uq_to", ARR)}

    def unique_rel(self, s, x, y):
        return EQK(x, y)

    def requires(self, s):
        A, K, R = s("dynInput"), s("keepIndices"), s("dynResult")
        x, y = z3.Consts("x!d y!d", ROW)
        k, i, j = Ints("k!d i!d j!d")
        kc = Select(K.data, k)
        kd = Select(K.data, DIFK(x, y))
        return [("kept columns exist", ForAll([k], Implies(And(0 <= k, k < K.n), And(0 <= kc, kc < A.cols)), patterns=[kc])),
                ("no more kept columns than columns", K.n <= A.cols),
                ("result empty", And(R.n == 0, R.cols == A.cols)),
                ("agreement, one way", ForAll([x, y, k], Implies(And(EQK(x, y), 0 <= k, k < K.n), Select(x, kc) == Select(y, kc)), patterns=[mp(EQK(x, y), kc)])),
                ("agreement, other way", ForAll([x, y], Or(EQK(x, y), And(0 <= DIFK(x, y), DIFK(x, y) < K.n, Select(x, kd) != Select(y, kd))), patterns=[EQK(x, y)])),
                ("ranks", ForAll([x, y], EQK(x, y) == (RK(x) == RK(y)), patterns=[EQK(x, y), mp(RK(x), RK(y))])),
                ("input is sorted on the kept columns", ForAll([i, j], Implies(And(0 <= i, i < j, j < A.n), RK(Select(A.data, i)) <= RK(Select(A.data, j))),
                                                               patterns=[mp(Select(A.data, i), Select(A.data, j))]))]

    def ensures(self, s, ret):
        A, R = s.old("dynInput"), s("dynResult")
        u, p = s.ghost("uq_from"), s.ghost("uq_to")
        r, q, c = Ints("r!d q!d c!d")
        row = lambda T, i: Select(T.data, i)
        return [("width", R.cols == A.cols),
                ("rows stem from the input, in order", ForAll([r, q], Implies(And(0 <= r, r < q, q < R.n), And(0 <= u[r], u[r] < u[q], u[q] < A.n)), patterns=[mp(u[r], u[q])])),
                ("rows are copied completely", ForAll([r, c], Implies(And(0 <= r, r < R.n, 0 <= c, c < R.cols), And(0 <= u[r], u[r] < A.n, cell(R, r, c) == cell(A, u[r], c))), patterns=[cell(R, r, c)])),
                ("every row is represented", ForAll([q], Implies(And(0 <= q, q < A.n), And(0 <= p[q], p[q] < R.n, EQK(row(A, u[p[q]]), row(A, q)))), patterns=[p[q]])),
                ("no two rows agree", ForAll([r, q], Implies(And(0 <= r, r < q, q < R.n), Not(EQK(row(A, u[r]), row(A, u[q])))), patterns=[mp(u[r], u[q])]))]

    def __init__(self):
        def inv(s, e):
            K, i = s("keepIndices"), s("@idx")
            k = Int("k!d")
            a, b = s("a"), s("b")
            return [("position", And(0 <= i, i <= K.n)),
                    ("columns so far agree", ForAll([k], Implies(And(0 <= k, k < i), Select(a.data, Select(K.data, k)) == Select(b.data, Select(K.data, k))), patterns=[Select(K.data, k)]))]
        self.loops = {0: dict(inv=inv, name="columns")}


CONTRACTS = [FilterByPairs, DistinctContract]
