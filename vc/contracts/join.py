"""Join::join (merge join and both galloping variants, inlined)."""
from spec import *

DRIVER = '''#include "@REPO@/src/engine/Join.cpp"
template void Join::join<0,0,0>(const IdTable&, size_t, const IdTable&, size_t, IdTable*);
'''


class JoinPairs:
    """Ghost bookkeeping: every result row r stems from the pair
    (wi[r], wj[r]); pos maps a pair to the result row it produced."""

    @staticmethod
    def ghosts():
        return {"wi": z3.Const("wi", ARR), "wj": z3.Const("wj", ARR), "pos": z3.Const("pos", ROWS)}


def pairs(s, A, B, R, jc1, jc2):
    wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
    r, c = Ints("r!j c!j")
    n = R.n
    ac = A.cols
    d = c - ac
    out = [
        ("row pair in range and matching",
         ForAll([r], Implies(And(0 <= r, r < n),
                             And(0 <= wi[r], wi[r] < A.n, 0 <= wj[r], wj[r] < B.n,
                                 cell(A, wi[r], jc1) == cell(B, wj[r], jc2),
                                 pos[wi[r]][wj[r]] == r)), patterns=[wi[r], wj[r]])),
        ("row carries the left columns",
         ForAll([r, c], Implies(And(0 <= r, r < n, 0 <= c, c < ac), cell(R, r, c) == cell(A, wi[r], c)), patterns=[cell(R, r, c)])),
        ("row carries the right columns",
         ForAll([r, c], Implies(And(0 <= r, r < n, ac <= c, c < ac + B.cols - 1),
                                cell(R, r, c) == cell(B, wj[r], If(d < jc2, d, d + 1))), patterns=[cell(R, r, c)])),
        ("rows are in order of the left input",
         ForAll([r, c], Implies(And(0 <= r, r < c, c < n), wi[r] <= wi[c]), patterns=[z3.MultiPattern(wi[r], wi[c])])),
    ]
    return out


def emitted(s, R, i, j):
    wi, wj, pos = s.ghost("wi"), s.ghost("wj"), s.ghost("pos")
    p = pos[i][j]
    return And(0 <= p, p < R.n, wi[p] == i, wj[p] == j)


def complete(s, A, B, R, jc1, jc2, when):
    pos = s.ghost("pos")
    i, j = Ints("i!c j!c")
    return ForAll([i, j], Implies(And(0 <= i, i < A.n, 0 <= j, j < B.n,
                                      cell(A, i, jc1) == cell(B, j, jc2), when(i, j)), emitted(s, R, i, j)),
                  patterns=[pos[i][j]])


def bounded(s, R, cond):
    wi, wj = s.ghost("wi"), s.ghost("wj")
    r = Int("r!b")
    return ForAll([r], Implies(And(0 <= r, r < R.n), cond(wi[r], wj[r])), patterns=[wi[r]])


class JoinContract(Contract):
    tu = DRIVER
    function = "Join::join<0,0,0>"
    param_names = ["dynA", "jc1", "dynB", "jc2", "dynRes"]

    def ghosts(self, eng):
        return JoinPairs.ghosts()

    def requires(self, s):
        A, B, R = s("dynA"), s("dynB"), s("dynRes")
        jc1, jc2 = s("jc1"), s("jc2")
        return [("left sorted", sorted_by(A, jc1)), ("right sorted", sorted_by(B, jc2)),
                ("join columns exist", And(0 <= jc1, jc1 < A.cols, 0 <= jc2, jc2 < B.cols)),
                ("result empty and of the right width", And(R.n == 0, R.cols == A.cols + B.cols - 1)),
                ]

    def ensures(self, s, ret):
        A, B, R = s.old("dynA"), s.old("dynB"), s("dynRes")
        jc1, jc2 = s.old("jc1"), s.old("jc2")
        p, q = Ints("p!e q!e")
        out = pairs(s, A, B, R, jc1, jc2)[:3]
        out.append(("every matching pair has a row", complete(s, A, B, R, jc1, jc2, lambda i, j: BoolVal(True))))
        out.append(("result sorted by the join column",
                    ForAll([p, q], Implies(And(0 <= p, p < q, q < R.n), cell(R, p, jc1) <= cell(R, q, jc1)))))
        out.append(("result width", R.cols == A.cols + B.cols - 1))
        return out

    # -- names of the two sides depend on the function the loop is in
    @staticmethod
    def env(s):
        g = s.has("l1")
        A = s("l1") if g else s("a")
        B = s("l2") if g else s("b")
        R = s("result")
        return A, B, R, s("jc1"), s("jc2"), s("i"), s("j")

    @staticmethod
    def push(sv, eng, st, base, a, r):
        R = eng.read(st, eng.as_ptr(st, base))
        i, j = sv("i"), sv("j")
        k = R.n - 1
        sv.set_ghost("wi", Store(sv.ghost("wi"), k, i))
        sv.set_ghost("wj", Store(sv.ghost("wj"), k, j))
        pos = sv.ghost("pos")
        sv.set_ghost("pos", Store(pos, i, Store(pos[i], j, k)))

    def __init__(self):
        env = self.env
        self.hooks = {"detail::IdTableTemplated::push_back": self.push, "detail::IdTableTemplated::emplace_back": self.push}

        def base(s):
            A, B, R, jc1, jc2, i, j = env(s)
            return pairs(s, A, B, R, jc1, jc2)

        def done(s):
            A, B, R, jc1, jc2, i, j = env(s)
            return [("done before the front", complete(s, A, B, R, jc1, jc2, lambda x, y: Or(x < i, y < j))),
                    ("rows stem from before the front", bounded(s, R, lambda x, y: x < i))]

        def strict(s, cond=None):
            A, B, R, jc1, jc2, i, j = env(s)
            x = Int("x!f")
            f1 = Implies(j < B.n, ForAll([x], Implies(And(0 <= x, x < i), cell(A, x, jc1) < cell(B, j, jc2)), patterns=[Select(A.data, x)]))
            f2 = Implies(i < A.n, ForAll([x], Implies(And(0 <= x, x < j), cell(B, x, jc2) < cell(A, i, jc1)), patterns=[Select(B.data, x)]))
            if cond is not None:
                f1 = Or(cond, f1)
            return [("left keys before the front are smaller", f1), ("right keys before the front are smaller", f2)]

        def outer(s, e):
            A, B, R, jc1, jc2, i, j = env(s)
            return [("positions", And(0 <= i, i <= A.n, 0 <= j, j <= B.n))] + base(s) + done(s) + strict(s)

        def scan(s, e):
            A, B, R, jc1, jc2, i, j = env(s)
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n))] + done(s) + strict(s)

        def match(s, e):
            A, B, R, jc1, jc2, i, j = env(s)
            return [("positions", And(0 <= i, i < A.n, 0 <= j, j < B.n))] + base(s) + done(s) + \
                strict(s, cell(A, i, jc1) == cell(B, j, jc2))

        def inner(s, e):
            A, B, R, jc1, jc2, i, j = env(s)
            kj = s.entry("j")
            k = Int("k!m")
            return [("positions", And(0 <= i, i < A.n, 0 <= kj, kj <= j, j < B.n))] + base(s) + [
                ("done so far", complete(s, A, B, R, jc1, jc2, lambda x, y: Or(x < i, And(x == i, y < j), y < kj))),
                ("rows so far", bounded(s, R, lambda x, y: Or(x < i, And(x == i, y < j)))),
                ("block equals the left key", ForAll([k], Implies(And(kj <= k, k < j), cell(B, k, jc2) == cell(A, i, jc1)), patterns=[Select(B.data, k)])),
            ]

        def gallop(side):
            def inv(s, e):
                A, B, R, jc1, jc2, i, j = env(s)
                last, step = s("last"), s("step")
                if side == "left":
                    T, x, x0, kx, key = A, i, s.entry("i"), lambda r: cell(A, r, jc1), cell(B, j, jc2)
                else:
                    T, x, x0, kx, key = B, j, s.entry("j"), lambda r: cell(B, r, jc2), cell(A, i, jc1)
                return [("positions", And(x0 <= last, last <= x, x < T.n)),
                        ("last is smaller unless nothing was skipped", Or(And(last == x, x == x0), kx(last) < key)),
                        ("step does not overflow", And(step >= 1, step < 2 ** 62, Or(step <= x - x0 + 1, kx(x) >= key)))]
            return inv

        def stepback(side):
            def inv(s, e):
                A, B, R, jc1, jc2, i, j = env(s)
                x, n = (i, A.n) if side == "left" else (j, B.n)
                return [("positions", And(0 <= x, x < n)),
                        ("stays in the block", cell(A, i, jc1) == cell(B, j, jc2))]
            return inv
        self.loops = {
            0: dict(inv=outer, name="gallop(left) main loop"),
            1: dict(inv=gallop("left"), name="gallop(left) search"),
            2: dict(inv=stepback("left"), name="gallop(left) step back"),
            3: dict(inv=scan, name="gallop(left) skip right"),
            4: dict(inv=match, name="gallop(left) match"),
            5: dict(inv=inner, name="gallop(left) block"),
            6: dict(inv=outer, name="gallop(right) main loop"),
            7: dict(inv=scan, name="gallop(right) skip left"),
            8: dict(inv=gallop("right"), name="gallop(right) search"),
            9: dict(inv=stepback("right"), name="gallop(right) step back"),
            10: dict(inv=match, name="gallop(right) match"),
            11: dict(inv=inner, name="gallop(right) block"),
            12: dict(inv=outer, name="merge main loop"),
            13: dict(inv=scan, name="merge skip left"),
            14: dict(inv=scan, name="merge skip right"),
            15: dict(inv=match, name="merge match"),
            16: dict(inv=inner, name="merge block"),
        }


CONTRACTS = [JoinContract]
