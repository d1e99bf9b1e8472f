"""UNION: rows of the left table, then rows of the right table, columns put in place."""
from spec import *

NOC = 2 ** 64 - 1      # "no column"
NOV = 2 ** 64 - 3      # "no value"


def origin(O, c, side):
    return Select(Select(O.data.data, c), IntVal(side))


def source(O, T, r, c, side):
    return If(origin(O, c, side) == NOC, NOV, cell(T, r, origin(O, c, side)))


def value(s, r, c):
    """what belongs into row r, column c of the result"""
    L, T, O = s.old("dynLeft"), s.old("dynRight"), s.old("columnOrigins")
    return If(r < L.n, source(O, L, r, c, 0), source(O, T, r - L.n, c, 1))


def placed(s, R, lim):
    r, c = Ints("r!u c!u")
    return ("rows so far are in place", ForAll([r, c], Implies(And(0 <= r, r < lim, 0 <= c, c < R.cols), cell(R, r, c) == value(s, r, c)), patterns=[cell(R, r, c)]))


def match_inv(side):
    def inv(s, e):
        O, i = s("columnOrigins"), s("i")
        k = Int("k!u")
        return [("column index", And(0 <= i, i <= O.n)), ("widths agree", Implies(s("columnsMatch"), s("left" if side == 0 else "right").cols == O.n)),
                ("columns compared so far agree", Implies(s("columnsMatch"), ForAll([k], Implies(And(0 <= k, k < i), origin(O, k, side) == k), patterns=[Select(O.data.data, k)])))]
    return inv


def chunk_inv(s, e):
    R, R0, i, n, ch = s("res"), s.entry("res"), s("i"), s("numChunks"), s("chunkSize")
    T = s("inputTable")
    return [("chunk index", And(0 <= i, i <= n)), ("width", R.cols == R0.cols),
            ("rows copied", R.n == R0.n + i * ch), ("rows left", i * ch <= T.n), placed(s, R, R.n)]


def row_inv(s, e):
    R, R0, i = s("res"), s.entry("res"), s("@idx")
    return [("row index", 0 <= i), ("width", R.cols == R0.cols), ("rows copied", R.n == R0.n + i), placed(s, R, R.n)]


def cell_inv(s, e):
    R, R0, i, O = s("res"), s.entry("res"), s("i"), s("columnOrigins")
    b = s("backIdx")
    c = Int("c!u")
    return [("column index", And(0 <= i, i <= O.n)), ("width", And(R.cols == R0.cols, R.n == R0.n)), placed(s, R, b),
            ("columns so far are in place", ForAll([c], Implies(And(0 <= c, c < i), cell(R, b, c) == value(s, b, c)), patterns=[cell(R, b, c)]))]


class UnionContract(Contract):
    tu = '''#include "@REPO@/src/engine/Union.cpp"
template void Union::computeUnion<0,0,0>(IdTable*, const IdTable&, const IdTable&, const std::vector<std::array<size_t, 2>>&);
'''
    function = "Union::computeUnion<0,0,0>"
    param_names = ["dynRes", "dynLeft", "dynRight", "columnOrigins"]

    def requires(self, s):
        L, T, O, R = s("dynLeft"), s("dynRight"), s("columnOrigins"), s("dynRes")
        k = Int("k!u")
        ok = lambda side, X: Or(origin(O, k, side) == NOC, And(0 <= origin(O, k, side), origin(O, k, side) < X.cols))
        return [("result empty, as wide as the column list", And(R.n == 0, R.cols == O.n, R.cols > 0, R.cols <= 100000)),
                ("origins exist", ForAll([k], Implies(And(0 <= k, k < O.n), And(ok(0, L), ok(1, T))), patterns=[Select(O.data.data, k)]))]

    def ensures(self, s, ret):
        L, T, R = s.old("dynLeft"), s.old("dynRight"), s("dynRes")
        return [("number of rows", R.n == L.n + T.n), ("width", R.cols == s.old("dynRes").cols), placed(s, R, R.n)]

    loops = {0: dict(inv=chunk_inv, name="chunks"), 1: dict(inv=match_inv(0), name="left columns"),
             2: dict(inv=row_inv, name="left rows"), 3: dict(inv=cell_inv, name="left cells"),
             4: dict(inv=match_inv(1), name="right columns"), 5: dict(inv=row_inv, name="right rows"), 6: dict(inv=cell_inv, name="right cells")}


CONTRACTS = [UnionContract]
