"""VALUES: inline tables."""
from spec import *
from models import V, void

mp = z3.MultiPattern
HAS = z3.Function("HAS", INT, z3.BoolSort())
IDOF = z3.Function("IDOF", INT, INT)


def m_getid(eng, st, base, a, e):
    w = eng.rv(st, a[0])
    p = eng.rv(st, a[1])
    old = eng.read(st, p)
    eng.write(st, p, If(HAS(w), IDOF(w), old))
    return V(st, HAS(w))


def m_opaque(eng, st, base, a, e):
    return V(st, Int(eng.name("text")))


KEEP = z3.Function("KEEP", INT, z3.BoolSort())   # are all words of a row known?
BAD = z3.Function("BAD", INT, INT)               # column of an unknown word
CNT = z3.Function("CNT", INT, INT)               # known rows before a row


class WriteValues(Contract):
    """Rows of an inline table whose words are all in the vocabulary."""
    tu = '#include "@REPO@/src/engine/Values.cpp"\ntemplate void Values::writeValues<0>(IdTable*, const Index&, const SparqlValues&);\n'
    function = "Values::writeValues<0>"
    param_names = ["res", "index", "values"]
    type_kinds = {"std::basic_string": "int"}
    models = {"Vocabulary::getId": m_getid, "std::operator+": m_opaque, "std::to_string": m_opaque}
    assumptions = ["words enter as numbers; looking a word up is an assumed contract (C18)",
                   "KEEP, BAD and CNT name the rows whose words are all known, a column of an unknown word, and the number of such rows before a row"]

    def word(self, s, i, c):
        return Select(Select(s.old("values").get("_values").data.data, i), c)

    def rowlen(self, s, i):
        return Select(s.old("values").get("_values").data.n, i)

    def requires(self, s):
        T, W = s("res"), s("values").get("_values")
        i, c = Ints("i!t c!t")
        w = self.word(s, i, c)
        inr = And(0 <= i, i < W.n)
        return [("rows have a word for each column", ForAll([i], Implies(inr, self.rowlen(s, i) >= T.cols), patterns=[self.rowlen(s, i)])),
                ("known rows", ForAll([i, c], Implies(And(inr, KEEP(i), 0 <= c, c < T.cols), HAS(w)), patterns=[mp(KEEP(i), w)])),
                ("other rows", ForAll([i], Implies(And(inr, Not(KEEP(i))), And(0 <= BAD(i), BAD(i) < T.cols, Not(HAS(self.word(s, i, BAD(i)))))), patterns=[KEEP(i)])),
                ("counting starts at zero", CNT(0) == 0),
                ("counting", ForAll([i], Implies(0 <= i, CNT(i + 1) == CNT(i) + If(KEEP(i), 1, 0)), patterns=[CNT(i + 1)]))]

    def placed(self, s, R, lim, n):
        i, c = Ints("i!t c!t")
        return [("known rows are in place", ForAll([i], Implies(And(0 <= i, i < lim, KEEP(i)), And(0 <= CNT(i), CNT(i) < n)), patterns=[KEEP(i), CNT(i)])),
                ("words are translated", ForAll([i, c], Implies(And(0 <= i, i < lim, KEEP(i), 0 <= c, c < s.old("res").cols), cell(R, CNT(i), c) == IDOF(self.word(s, i, c))),
                                               patterns=[cell(R, CNT(i), c), mp(CNT(i), self.word(s, i, c))]))]

    def ensures(self, s, ret):
        R, n = s("res"), s.old("values").get("_values").n
        return [("number of rows", And(R.n == CNT(n), R.cols == s.old("res").cols))] + self.placed(s, R, n, R.n)

    def __init__(self):
        def outer(s, e):
            R, i, w = s("result"), s("@idx"), s("numActuallyWritten")
            N = s.old("values").get("_values").n
            return [("position", And(0 <= i, i <= N, w == CNT(i), s("numSkipped") == i - w, 0 <= w, w <= i)), ("room", And(R.n == N, R.cols == s.old("res").cols))] + self.placed(s, R, i, w)

        def inner(s, e):
            R, i, w, k = s("result"), s("@idx"), s("numActuallyWritten"), s("colIdx")
            c = Int("c!t")
            return outer(s, e) + [("column", And(i < s.old("values").get("_values").n, 0 <= k, k <= R.cols)),
                                  ("words so far", ForAll([c], Implies(And(0 <= c, c < k), And(HAS(self.word(s, i, c)), cell(R, w, c) == IDOF(self.word(s, i, c)))),
                                                          patterns=[self.word(s, i, c), cell(R, w, c)]))]
        self.loops = {0: dict(inv=outer, name="rows"), 1: dict(inv=inner, name="columns")}


CONTRACTS = [WriteValues]
