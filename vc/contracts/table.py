"""The table of results itself: rows of any width stored one after another."""
from spec import *
from models import V, void, R, M
from engine import NULL

OVER = '#include "@REPO@/src/engine/IdTable.h"\n'
TT = "detail::IdTableTemplated::"
BYTES = 8


def split(t):
    """A number of bytes as a number of elements."""
    t = simplify(t, som=False, flat=True)
    if z3.is_int_value(t):
        return IntVal(t.as_long() // BYTES) if t.as_long() % BYTES == 0 else None
    if z3.is_mul(t):
        for i in range(t.num_args()):
            x = split(t.arg(i)) if z3.is_int_value(t.arg(i)) else None
            if x is not None:
                r = x
                for j in range(t.num_args()):
                    if j != i:
                        r = r * t.arg(j)
                return r
    if z3.is_add(t):
        xs = [split(t.arg(i)) for i in range(t.num_args())]
        return None if any(x is None for x in xs) else z3.Sum(xs)
    return None


def copier(overlap):
    def f(eng, st, base, a, e):
        d, s, n = eng.rv(st, a[0]), eng.rv(st, a[1]), split(eng.rv(st, a[2]))
        if n is None or not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("copying of bytes")
        D, S = eng.read(st, d.base()), eng.read(st, s.base())
        di, si = d.idx(), s.idx()
        for v, i, nm in ((D, di, "target"), (S, si, "source")):
            eng.oblige(st, "copied elements within the " + nm, Or(n == 0, And(i >= 0, n >= 0, i + n <= v.n)), e.get("l"), "bounds")
        if not overlap and d.root == s.root and d.base().path == s.base().path:
            eng.oblige(st, "copied elements do not overlap", Or(di + n <= si, si + n <= di), e.get("l"), "bounds")
        new = z3.Const(eng.name("copied"), D.data.sort())
        k = Int("k!c")
        st.assume(ForAll([k], Select(new, k) == If(And(di <= k, k < di + n), Select(S.data, k - di + si), Select(D.data, k)), patterns=[Select(new, k)]))
        p = d.base()
        eng.note_write(p.root, p.path, "*")
        eng.write(st, p, Vec(D.n, new, D.et, D.const_len))
        return V(st, d)
    return f


def param(eng, st, name):
    k = eng.lookup(st, name)
    v = st.vars[k]
    return v if isinstance(v, Ptr) else Ptr(k)


class Table(Contract):
    tu = OVER + """using T = IdTable;
void use(T& t, const T& o, size_t i, const Id* p) {
  t.push_back({1, 2}); t.push_back(); t.push_back(o[i]); t.push_back(t, i); t.pop_back(); t.clear(); t.reserve(i); t.resize(i);
  t.insert(t.begin() + i, o.begin(), o.end()); t.erase(t.begin() + i, t.end()); t.erase(t.begin()); t(i, i) = o(i, i) + t.size() + t.cols();
  bool b = t == o; t(0, 0) = b;
}
"""
    type_kinds = {"detail::IdTableTemplated": "rec", "detail::IdTableImpl": "rec", "detail::IdTableDynamicIterator": "rec", "detail::Row": "rec", "detail::ConstRow": "rec"}
    inlined = ("detail::",)
    exact_products = True
    models = {"memcpy": copier(False), "memmove": copier(True), "std::memcpy": copier(False), "std::memmove": copier(True)}
    assumptions = ["tables are smaller than 2^60 bytes", "numbers of type float are treated as exact"]
    param_names = []

    def cells(self, s, v="this"):
        return s(v + "._data._data")

    def valid(self, s, v="this"):
        n, c, w, d = s(v + "._size"), s(v + "._capacity"), s(v + "._cols"), self.cells(s, v)
        return [("rows fit", And(0 <= n, n <= c, c < 2 ** 50)), ("width", And(0 <= w, w < 2 ** 9)), ("capacity is there", d.n >= c * w)]

    def requires(self, s):
        return self.valid(s)

    def kept(self, s, upto):
        k = Int("k!t")
        A, B = self.cells(s), s.old("this._data._data")
        return ("rows are kept", ForAll([k], Implies(And(0 <= k, k < upto), Select(A.data, k) == Select(B.data, k)), patterns=[Select(A.data, k)]))

    def ensures(self, s, ret):
        n, w = s.old("this._size"), s.old("this._cols")
        return [("width", s("this._cols") == w)] + self.valid(s)[2:] + [("rows fit", And(0 <= s("this._size"), s("this._size") <= s("this._capacity")))] + self.post(s, n, w)


def part(A, B, at, frm, n, name):
    """Cells [at, at + n) of the one are cells [frm, frm + n) of the other."""
    k = Int("k!p")
    return (name, ForAll([k], Implies(And(at <= k, k < at + n), Select(A.data, k) == Select(B.data, k - at + frm)), patterns=[Select(A.data, k)]))


class AppendEmpty(Table):
    """One more row without a value."""
    function = TT + "push_back"
    overload = []

    def post(self, s, n, w):
        return [("one more row", s("this._size") == n + 1), self.kept(s, n * w)]


class AppendList(Table):
    """One more row, from a list of values."""
    function = TT + "push_back"
    overload = ["std::initializer_list"]
    param_names = ["init"]

    def requires(self, s):
        return self.valid(s) + [("width of the row", s("init").n == s("this._cols"))]

    def post(self, s, n, w):
        return [("one more row", s("this._size") == n + 1), self.kept(s, n * w), part(self.cells(s), s.old("init"), n * w, 0, w, "the new row is the last one")]


class AppendRow(Table):
    """One more row, from a row of another table."""
    function = TT + "push_back"
    overload = ["detail::ConstRow"]
    param_names = ["init"]

    def prepare(self, eng, st):
        v = eng.read(st, Ptr("*this", (("f", "_data"), ("f", "_data"))))
        st.vars["*other"] = Vec(Int("other.n"), z3.Const("other.d", ARR), v.et, None)
        eng.write(st, param(eng, st, "init").ext("f", "_data"), Ptr("*other", (("i", Int("at")),)))

    def requires(self, s):
        w, o = s("this._cols"), s.st.vars["*other"]
        return self.valid(s) + [("width of the row", s("init._cols") == w), ("row exists", And(Int("at") >= 0, Int("at") + w <= o.n))]

    def post(self, s, n, w):
        return [("one more row", s("this._size") == n + 1), self.kept(s, n * w), part(self.cells(s), s.st.vars["*other"], n * w, Int("at"), w, "the new row is the last one")]


class AppendFrom(Table):
    """One more row, by its number in another table."""
    function = TT + "push_back"
    overload = ["detail::IdTableTemplated", "unsigned long"]
    param_names = ["init", "row"]

    def requires(self, s):
        return self.valid(s) + self.valid(s, "init") + [("same width", s("init._cols") == s("this._cols")), ("row exists", s("row") < s("init._size"))]

    def post(self, s, n, w):
        return [("one more row", s("this._size") == n + 1), self.kept(s, n * w), part(self.cells(s), s.old("init._data._data"), n * w, s.old("row") * w, w, "the new row is the last one")]


class PopBack(Table):
    """One row less."""
    function = TT + "pop_back"

    def post(self, s, n, w):
        return [("one row less", s("this._size") == If(n > 0, n - 1, 0)), self.kept(s, n * w)]


class Clear(Table):
    """No rows."""
    function = TT + "clear"

    def post(self, s, n, w):
        return [("no rows", s("this._size") == 0)]


class Reserve(Table):
    """Room for rows."""
    function = TT + "reserve"
    param_names = ["rows"]

    def requires(self, s):
        return self.valid(s) + [("not too long", s("rows") < 2 ** 50)]

    def post(self, s, n, w):
        return [("same rows", s("this._size") == n), ("room", s("this._capacity") >= s.old("rows")), self.kept(s, n * w)]


class Resize(Reserve):
    """Another number of rows."""
    function = TT + "resize"

    def post(self, s, n, w):
        return [("rows", s("this._size") == s.old("rows")), self.kept(s, z3.If(s.old("rows") < n, s.old("rows"), n) * w)]


class Cell(Table):
    """A value by row and column."""
    function = TT + "operator()"
    param_names = ["row", "col"]

    def requires(self, s):
        return self.valid(s) + [("exists", And(s("row") < s("this._size"), s("col") < s("this._cols")))]

    def post(self, s, n, w):
        return [("same rows", s("this._size") == n), self.kept(s, n * w)]

    def ensures(self, s, ret):
        return Table.ensures(self, s, ret) + [("value", ret == Select(s.old("this._data._data").data, s.old("row") * s.old("this._cols") + s.old("col")))]


def point(eng, st, name, root, path, row):
    """Makes a parameter an iterator into an array."""
    w = eng.read(st, Ptr("*this", (("f", "_cols"),)))
    p = param(eng, st, name)
    eng.write(st, p.ext("f", "_data"), Ptr(root, path + (("i", IntVal(0)),)))
    eng.write(st, p.ext("f", "_row"), row)
    eng.write(st, p.ext("f", "_cols"), w)
    eng.write(st, p.ext("f", "_rowView").ext("f", "_data"), Ptr(root, path + (("i", row * w),)))
    eng.write(st, p.ext("f", "_rowView").ext("f", "_cols"), w)


HERE = (("f", "_data"), ("f", "_data"))


class Insert(Table):
    """Rows of another table in front of a row."""
    function = TT + "insert"
    param_names = ["pos", "begin", "end"]

    def prepare(self, eng, st):
        v = eng.read(st, Ptr("*this", HERE))
        st.vars["*other"] = Vec(Int("other.n"), z3.Const("other.d", ARR), v.et, None)
        point(eng, st, "pos", "*this", HERE, Int("pos"))
        point(eng, st, "begin", "*other", (), Int("from"))
        point(eng, st, "end", "*other", (), Int("to"))

    def requires(self, s):
        w, o = s("this._cols"), s.st.vars["*other"]
        return self.valid(s) + [("rows exist", And(Int("from") >= 0, Int("to") >= 0, Int("to") * w <= o.n, Int("to") < 2 ** 50)), ("position", And(Int("pos") >= 0))]

    def post(self, s, n, w):
        f, t, pos = Int("from"), Int("to"), Int("pos")
        m = If(f < t, t - f, 0)
        at = If(pos < n, pos, n)
        A, B = self.cells(s), s.old("this._data._data")
        return [("number of rows", s("this._size") == n + m), self.kept(s, at * w),
                part(A, s.st.vars["*other"], at * w, f * w, m * w, "the new rows"),
                part(A, B, at * w + m * w, at * w, n * w - at * w, "the rows behind them")]


class Erase(Table):
    """Without the rows of a range."""
    function = TT + "erase"
    param_names = ["beginIt", "endIt"]

    def prepare(self, eng, st):
        point(eng, st, "beginIt", "*this", HERE, Int("from"))
        point(eng, st, "endIt", "*this", HERE, Int("to"))

    def requires(self, s):
        return self.valid(s) + [("positions", And(Int("from") >= 0, Int("to") >= 0, Int("from") <= s("this._size"), s("this._data._data").n > 0))]

    def post(self, s, n, w):
        f, t = Int("from"), If(Int("to") < n, Int("to"), n)
        m = If(f < t, t - f, 0)
        return [("number of rows", s("this._size") == n - m), self.kept(s, f * w),
                part(self.cells(s), s.old("this._data._data"), f * w, f * w + m * w, n * w - f * w - m * w, "the rows behind them")]


class EraseOne(Erase):
    """Without one row."""

    def prepare(self, eng, st):
        point(eng, st, "beginIt", "*this", HERE, Int("from"))
        p = param(eng, st, "endIt")
        eng.write(st, p.ext("f", "_data"), NULL)
        for f in ("_row", "_cols"):
            eng.write(st, p.ext("f", f), IntVal(0))
        eng.write(st, p.ext("f", "_rowView").ext("f", "_data"), NULL)
        eng.write(st, p.ext("f", "_rowView").ext("f", "_cols"), IntVal(0))

    def requires(self, s):
        return Erase.requires(self, s) + [("the row behind it", Int("to") == Int("from") + 1)]


class Equal(Table):
    """Equality of tables."""
    function = TT + "operator=="
    param_names = ["other"]

    def requires(self, s):
        return self.valid(s) + self.valid(s, "other") + [("same width", s("other._cols") == s("this._cols"))]

    def same(self, s, upto):
        k = Int("k!e")
        A, B = self.cells(s), self.cells(s, "other")
        return ForAll([k], Implies(And(0 <= k, k < upto), Select(A.data, k) == Select(B.data, k)), patterns=[Select(A.data, k)])

    def ensures(self, s, ret):
        n, w = s("this._size"), s("this._cols")
        return [("equal tables have equal sizes and values", Implies(ret, And(n == s("other._size"), self.same(s, n * w)))),
                ("others do not", Implies(Not(ret), Or(n != s("other._size"), Not(self.same(s, n * w)))))]

    def __init__(self):
        def outer(s, e):
            return [("row", And(0 <= s("row"), s("row") <= s("this._size"), s("this._size") == s("other._size"))), ("equal so far", self.same(s, s("row") * s("this._cols")))]

        def inner(s, e):
            return [("row", And(0 <= s("row"), s("row") < s("this._size"))), ("column", And(0 <= s("col"), s("col") <= s("this._cols"))),
                    ("equal so far", self.same(s, s("row") * s("this._cols") + s("col")))]
        self.loops = {0: dict(inv=outer, name="rows"), 1: dict(inv=inner, name="columns")}


IT = "detail::IdTableDynamicIterator::"


class Walk(Contract):
    """Iterators of tables keep their row and the view of it in step."""
    tu = OVER + """using I = IdTable::iterator;
Id use(I& a, const I& b, ssize_t i) { ++a; a++; --a; a--; a += i; a -= i; I c = b + i; I d = b - i; a = c; return (b - d) + (b == d) + (b != d) + (b < d) + (b > d) + (b <= d) + (b >= d) + (*a)[0]; }
"""
    type_kinds = Table.type_kinds
    inlined = ("detail::",)
    exact_products = True
    assumptions = ["tables are smaller than 2^60 bytes", "iterators are moved by numbers that are not negative"]
    param_names = []
    here = ["this"]

    def prepare(self, eng, st):
        t = next(i for i, ty in enumerate(eng.types) if ty["k"] == "int" and ty.get("w") == 64 and not ty.get("signed"))
        st.vars["*mem"] = Vec(Int("mem.n"), z3.Const("mem.d", ARR), t, None)
        for v in self.here:
            p = Ptr("*this") if v == "this" else param(eng, st, v)
            row, w = Int(v + ".row"), Int("w")
            for q, x in ((("_data",), Ptr("*mem", (("i", IntVal(0)),))), (("_row",), row), (("_cols",), w), (("_rowView", "_data"), Ptr("*mem", (("i", row * w),))), (("_rowView", "_cols"), w)):
                r = p
                for f in q:
                    r = r.ext("f", f)
                eng.write(st, r, x)

    def requires(self, s):
        return [("width", And(0 <= Int("w"), Int("w") < 2 ** 9))] + [("rows", And(0 <= Int(v + ".row"), Int(v + ".row") < 2 ** 50)) for v in self.here]

    def at(self, it, row, what):
        """The iterator is at this row."""
        d, v = it.get("_data"), it.get("_rowView").get("_data")
        ok = all(isinstance(p, Ptr) and p.root == "*mem" for p in (d, v))
        return [(what + " is in the same table", BoolVal(ok)), (what + " is at the right row", it.get("_row") == row), (what + " knows the width", And(it.get("_cols") == Int("w"), it.get("_rowView").get("_cols") == Int("w"))),
                (what + " shows this row", And(v.idx() == row * Int("w"), d.idx() == 0) if ok else BoolVal(False))]

    def this(self, s):
        return s.eng.read(s.st, Ptr("*this"))


def walk(name, op, sig, names, new, returns_old=False, by_value=False):
    class W(Walk):
        function = IT + op
        overload = sig
        param_names = names

        def requires(self, s):
            r = Walk.requires(self, s)
            if "i" in names:
                r = r + [("steps stay within the table", And(new(Int("this.row"), s("i")) >= 0, s("i") >= 0, s("i") < 2 ** 50))]
            else:
                r = r + [("steps stay within the table", new(Int("this.row"), None) >= 0)]
            return r

        def ensures(self, s, ret):
            old = Int("this.row")
            row = new(old, s.old("i") if "i" in names else None)
            if by_value:
                return self.at(ret, row, "the new iterator") + self.at(self.this(s), old, "the iterator")
            r = self.at(self.this(s), row, "the iterator")
            if returns_old:
                r = r + self.at(ret, old, "the returned iterator")
            return r
    W.__name__ = name
    W.__doc__ = "Iterators of tables: " + op[8:] + "."
    globals()[name] = W
    return W


WALKS = [walk("StepForward", "operator++", [], [], lambda r, i: r + 1), walk("StepForwardOld", "operator++", ["int"], ["unused"], lambda r, i: r + 1, returns_old=True),
         walk("StepBack", "operator--", [], [], lambda r, i: r - 1), walk("StepBackOld", "operator--", ["int"], ["unused"], lambda r, i: r - 1, returns_old=True),
         walk("Advance", "operator+=", ["long"], ["i"], lambda r, i: r + i), walk("Retreat", "operator-=", ["long"], ["i"], lambda r, i: r - i),
         walk("Ahead", "operator+", ["long"], ["i"], lambda r, i: r + i, by_value=True), walk("Behind", "operator-", ["long"], ["i"], lambda r, i: r - i, by_value=True)]


class Assigned(Walk):
    """Assignment of iterators."""
    function = IT + "operator="
    overload = ["IdTableDynamicIterator"]
    param_names = ["other"]
    here = ["this", "other"]

    def ensures(self, s, ret):
        return self.at(self.this(s), Int("other.row"), "the iterator")


class Distance(Walk):
    """Distance between iterators."""
    function = IT + "operator-"
    overload = ["IdTableDynamicIterator"]
    param_names = ["other"]
    here = ["this", "other"]

    def ensures(self, s, ret):
        return [("distance", ret == Int("this.row") - Int("other.row"))]


def compare(name, op, f):
    class W(Distance):
        function = IT + "operator" + op

        def ensures(self, s, ret):
            return [("order of the rows", ret == f(Int("this.row"), Int("other.row")))]
    W.__name__ = name
    W.__doc__ = "Comparison of iterators: " + op + "."
    globals()[name] = W
    return W


COMPARES = [compare("Same", "==", lambda a, b: a == b), compare("Different", "!=", lambda a, b: a != b), compare("Before", "<", lambda a, b: a < b), compare("After", ">", lambda a, b: a > b),
            compare("NotAfter", "<=", lambda a, b: a <= b), compare("NotBefore", ">=", lambda a, b: a >= b)]


class RowAssign(Contract):
    """A row gets the values of another one, in its own place if it is a view."""
    function = "detail::Row::operator="
    tu = OVER + "using R = detail::Row;\nvoid use(R& a, R& b) { a = b; a = std::move(b); }\n"
    overload = ["const detail::Row &"]
    param_names = ["other"]
    type_kinds = Table.type_kinds
    inlined = ("detail::",)
    exact_products = True
    models = Table.models

    def prepare(self, eng, st):
        t = next(i for i, ty in enumerate(eng.types) if ty["k"] == "int" and ty.get("w") == 64 and not ty.get("signed"))
        for v, r in (("this", Ptr("*this")), ("other", param(eng, st, "other"))):
            st.vars["*mem." + v] = Vec(Int(v + ".n"), z3.Const(v + ".d", ARR), t, None)
            eng.write(st, r.ext("f", "_data"), Ptr("*mem." + v, (("i", Int(v + ".at")),)))
            eng.write(st, r.ext("f", "_cols"), Int("w"))

    def requires(self, s):
        return [("width", And(0 <= Int("w"), Int("w") < 2 ** 9))] + [("row exists", And(0 <= Int(v + ".at"), Int(v + ".at") + Int("w") <= Int(v + ".n"))) for v in ("this", "other")]

    def ensures(self, s, ret):
        r = s.eng.read(s.st, Ptr("*this"))
        p, w = r.get("_data"), Int("w")
        ok = isinstance(p, Ptr) and p.root is not None
        k = Int("k!r")
        A, B = s.st.vars["*mem.this"], s.eng.old_state.vars["*mem.this"]
        C = s.eng.old_state.vars["*mem.other"]
        mine = s.eng.read(s.st, p.base()) if ok else A
        i = p.idx() if ok else IntVal(0)
        return [("has values", BoolVal(ok)), ("width", r.get("_cols") == w),
                ("a view stays where it is", Implies(Not(s.old("this._allocated")), And(BoolVal(ok and p.root == "*mem.this"), i == Int("this.at")))),
                ("the memory of a view is not taken", Or(s.old("other._allocated"), BoolVal(not ok or p.root != "*mem.other"))),
                ("values of the other row", ForAll([k], Implies(And(0 <= k, k < w), Select(mine.data, i + k) == Select(C.data, Int("other.at") + k)), patterns=[Select(C.data, Int("other.at") + k)])),
                ("other cells are kept", ForAll([k], Implies(And(0 <= k, k < A.n, Or(k < Int("this.at"), k >= Int("this.at") + w)), Select(A.data, k) == Select(B.data, k)), patterns=[Select(A.data, k)]))]


class RowMove(RowAssign):
    """The same for a row that is not needed any more."""
    overload = ["detail::Row &&"]


CONTRACTS = [AppendEmpty, AppendList, AppendRow, AppendFrom, PopBack, Clear, Reserve, Resize, Cell, Insert, Erase, EraseOne, Equal] + WALKS + [Assigned, Distance] + COMPARES + [RowAssign, RowMove]
