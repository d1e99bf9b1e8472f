"""Arrays that move from memory to a file, and arrays in files."""
from spec import *
from models import V, void, R, M

OVER = ('#include <cstddef>\n#include <cstdint>\n#include "@REPO@/src/util/BufferedVector.h"\n')
MV = "ad_utility::MmapVector::"


def el(v, i):
    return Select(v.data, i)


def m_resize(eng, st, base, a, e):
    """By its contract: elements below both sizes are kept."""
    p = eng.as_ptr(st, base)
    v, n = eng.read(st, p), eng.rv(st, a[0])
    d = z3.Const(eng.name("resized"), v.data.sort())
    k = Int("k!r")
    st.assume(ForAll([k], Implies(And(0 <= k, k < v.n, k < n), Select(d, k) == Select(v.data, k)), patterns=[Select(d, k)]))
    eng.note_write(p.root, p.path, "*")
    eng.write(st, p, Vec(n, d, v.et, v.const_len))
    return void(st)


class Buffered(Contract):
    tu = OVER + "size_t use(ad_utility::BufferedVector<size_t>& v) { v.push_back(v[0]); v.clear(); return v.size() + *v.begin() + *v.end() + std::as_const(v)[0]; }\n"
    type_kinds = {"ad_utility::MmapVectorTmp": "vec", "ad_utility::MmapVector": "vec"}
    models = {MV + "size": M["std::vector::size"], MV + "operator[]": M["std::vector::operator[]"], MV + "begin": M["std::vector::begin"], MV + "end": M["std::vector::end"],
              MV + "push_back": M["std::vector::push_back"], MV + "resize": m_resize}

    def now(self, s):
        return s("this._isInternal"), s("this._vec"), s("this._extVec")

    def then(self, s):
        return s.old("this._isInternal"), s.old("this._vec"), s.old("this._extVec")

    def size(self, x):
        return If(x[0], x[1].n, x[2].n)

    def at(self, x, i):
        return If(x[0], el(x[1], i), el(x[2], i))

    def kept(self, s):
        k = Int("k!t")
        A, B = self.now(s), self.then(s)
        return ("elements are kept", ForAll([k], Implies(And(0 <= k, k < self.size(B)), self.at(A, k) == self.at(B, k)), patterns=[el(A[1], k), el(A[2], k)]))


class Append(Buffered):
    """One more element, whether or not the array moves to its file."""
    function = "ad_utility::BufferedVector::push_back"
    param_names = ["el"]

    def ensures(self, s, ret):
        A, B = self.now(s), self.then(s)
        n = self.size(B)
        return [("one more element", self.size(A) == n + 1), self.kept(s), ("the new element is the last one", self.at(A, n) == s.old("el")),
                ("no move before the threshold", Implies(And(B[0], n < s.old("this._threshold")), A[0])),
                ("no move back", Implies(Not(B[0]), Not(A[0])))]

    def __init__(self):
        def inv(s, e):
            A, B = self.now(s), self.then(s)
            i, k = s("i"), Int("k!t")
            return [("position", And(0 <= i, i <= B[1].n, A[1].n == B[1].n, A[2].n == B[1].n + 1)),
                    ("copied", ForAll([k], Implies(And(0 <= k, k < i), el(A[2], k) == el(B[1], k)), patterns=[el(A[2], k)]))]
        self.loops = {0: dict(inv=inv, name="copy")}


class Length(Buffered):
    """The number of elements."""
    function = "ad_utility::BufferedVector::size"
    param_names = []

    def ensures(self, s, ret):
        return [("size", ret == self.size(self.then(s)))]


class Access(Buffered):
    """The elements."""
    function = "ad_utility::BufferedVector::operator[]"
    param_names = ["idx"]

    def requires(self, s):
        return [("element exists", s("idx") < self.size(self.now(s)))]

    def ensures(self, s, ret):
        return [("element", ret == self.at(self.then(s), s.old("idx"))), ("size", self.size(self.now(s)) == self.size(self.then(s))), self.kept(s)]


class Clear(Buffered):
    """No elements."""
    function = "ad_utility::BufferedVector::clear"
    param_names = []

    def ensures(self, s, ret):
        return [("size", self.size(self.now(s)) == 0)]


SIZE, PAGE = 8, 4096


def m_ignore(eng, st, base, a, e):
    return void(st)


def m_page(eng, st, base, a, e):
    return V(st, IntVal(PAGE))


def m_write_meta(eng, st, base, a, e):
    """The file gets as long as the array says."""
    sv = SpecView(eng, st)
    sv.set_ghost("file", sv("this._bytesize"))
    return void(st)


def m_mremap(eng, st, base, a, e):
    """The mapping changes its length, the contents are kept."""
    old, new = eng.rv(st, a[1]), eng.rv(st, a[2])
    sv = SpecView(eng, st)
    p = eng.rv(st, a[0])
    eng.oblige(st, "mremap: the mapping has this length", And(old == sv.ghost("mapped"), BoolVal(isinstance(p, Ptr) and p.root == "*mem")), e.get("l"), "pre")
    eng.oblige(st, "mremap: the file is long enough", And(new <= sv.ghost("file"), new > 0), e.get("l"), "pre")
    v = st.vars["*mem"]
    d = z3.Const(eng.name("mem"), v.data.sort())
    k = Int("k!r")
    st.assume(ForAll([k], Implies(And(0 <= k, k * SIZE < old, k * SIZE < new), Select(d, k) == Select(v.data, k)), patterns=[Select(d, k)]))
    eng.note_write("*mem", (), "*")
    st.vars["*mem"] = Vec(new / SIZE, d, v.et, None)
    sv.set_ghost("mapped", new)
    return V(st, p)


class Mapped(Contract):
    tu = OVER + "size_t use(ad_utility::MmapVector<size_t>& v, size_t x) { v.push_back(x); v.resize(x); v.reserve(x); v.clear(); return v.size() + v[0] + v.at(1) + v.back() + std::as_const(v)[0]; }\n"
    models = {MV + "advise": m_ignore, MV + "writeMetaDataToEnd": m_write_meta, "getpagesize": m_page, "mremap": m_mremap}
    assumptions = ["pages have 4096 bytes", "mremap and truncate succeed", "sizes stay below 2^55 bytes", "numbers of type float are treated as exact"]
    param_names = []

    def prepare(self, eng, st):
        t = next(i for i, ty in (enumerate(eng.types) if isinstance(eng.types, list) else eng.types.items()) if ty["k"] == "int" and ty.get("w") == 64 and not ty.get("signed"))
        st.vars["*mem"] = Vec(Int("mem.n"), z3.Const("mem.d", ARR), t, None)
        eng.write(st, Ptr("*this", (("f", "_ptr"),)), Ptr("*mem", (("i", IntVal(0)),)))

    def ghosts(self, eng):
        return {"mapped": Int("mapped"), "file": Int("file")}

    def mem(self, s):
        return s.st.vars["*mem"]

    def valid(self, s):
        n, c, b = s("this._size"), s("this._capacity"), s("this._bytesize")
        return [("elements fit", And(0 <= n, n <= c)), ("capacity fits", And(c == b / SIZE, b % PAGE == 0, b > 0)),
                ("mapping covers the array", And(self.mem(s).n == c, s.ghost("mapped") == b)), ("file covers the array", s.ghost("file") >= b)]

    def requires(self, s):
        return self.valid(s) + [("not too long", s("this._bytesize") < 2 ** 55)]

    def elems(self, s, lim):
        k = Int("k!t")
        A, B = self.mem(s), s.eng.old_state.vars["*mem"]
        return ("elements are kept", ForAll([k], Implies(And(0 <= k, k < lim, k < s.old("this._size")), el(A, k) == el(B, k)), patterns=[el(A, k)]))


class MappedAppend(Mapped):
    """One more element in the file."""
    function = "ad_utility::MmapVector::push_back"
    param_names = ["el"]

    def ensures(self, s, ret):
        n = s.old("this._size")
        return self.valid(s) + [("one more element", s("this._size") == n + 1), self.elems(s, n), ("the new element is the last one", el(self.mem(s), n) == s.old("el"))]


class MappedResize(Mapped):
    """Another size."""
    function = "ad_utility::MmapVector::resize"
    param_names = ["newSize"]

    def requires(self, s):
        return Mapped.requires(self, s) + [("new size not too long", s("newSize") < 2 ** 52)]

    def ensures(self, s, ret):
        return self.valid(s) + [("size", s("this._size") == s.old("newSize")), self.elems(s, s.old("newSize"))]


class MappedReserve(MappedResize):
    """Room for more elements."""
    function = "ad_utility::MmapVector::reserve"
    param_names = ["newSize"]

    def ensures(self, s, ret):
        return self.valid(s) + [("size", s("this._size") == s.old("this._size")), ("room", s("this._capacity") >= s.old("newSize")), self.elems(s, s.old("this._size"))]


class MappedAt(Mapped):
    """Elements, or an exception behind the last one."""
    function = "ad_utility::MmapVector::at"
    param_names = ["idx"]

    def ensures(self, s, ret):
        return self.valid(s) + [("element exists", s.old("idx") < s.old("this._size")), ("element", ret == el(self.mem(s), s.old("idx"))), self.elems(s, s.old("this._size"))]

    def on_throw(self, s):
        return [("no such element", s.old("idx") >= s.old("this._size"))]


class MappedAccess(MappedAt):
    """Elements."""
    function = "ad_utility::MmapVector::operator[]"

    def requires(self, s):
        return Mapped.requires(self, s) + [("element exists", s("idx") < s("this._size"))]

    def on_throw(self, s):
        return [("does not happen", False)]


CONTRACTS = [Append, Length, Access, Clear, MappedAppend, MappedResize, MappedReserve, MappedAt, MappedAccess]
