"""Assumed contracts of library functions and of the table class.

Everything in this file is trusted by the proofs that use it; the table
methods are themselves checked against the class's flat storage by the
contracts of property C10.
"""
import z3
from z3 import Int, Ints, And, Or, Not, Implies, If, Exists, Select, Store, IntVal, BoolVal
from engine import *
from engine import ForAll

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def V(st, v):
    return [(st, ("val", v))]


def R(st, p):
    return [(st, ("ref", p))]


def void(st):
    return [(st, None)]


# ------------------------------------------------------------ tables
TT = "detail::IdTableTemplated::"


def tab_of(eng, st, base):
    p = eng.as_ptr(st, base)
    return p, eng.read(st, p)


def need(eng, st, label, g, e):
    eng.oblige(st, label, g, e.get("l"), "bounds")
    st.assume(g)


@model(TT + "size", TT + "rows")
def t_size(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    return V(st, t.n)


@model(TT + "cols", "detail::IdTableImpl::cols")
def t_cols(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    return V(st, t.cols)


@model(TT + "operator()")
def t_call(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    r, c = eng.rv(st, a[0]), eng.rv(st, a[1])
    need(eng, st, "table row within bounds", And(r >= 0, r < t.n), e)
    need(eng, st, "table column within bounds", And(c >= 0, c < t.cols), e)
    return R(st, p.ext("i", r).ext("i", c))


@model(TT + "operator[]", TT + "getRow", TT + "getConstRow")
def t_row(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    r = eng.rv(st, a[0])
    need(eng, st, "table row within bounds", And(r >= 0, r < t.n), e)
    return R(st, p.ext("i", r))


@model(TT + "back")
def t_back(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    need(eng, st, "back of a nonempty table", t.n > 0, e)
    return R(st, p.ext("i", simplify_idx(t.n - 1)))


@model(TT + "begin", TT + "cbegin")
def t_begin(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    return V(st, p.ext("i", IntVal(0)))


@model(TT + "end", TT + "cend")
def t_end(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    return V(st, p.ext("i", t.n))


@model(TT + "push_back", TT + "emplace_back")
def t_push(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    if not a:
        row = z3.Const(eng.name("newrow"), z3.ArraySort(INT, INT))
    elif len(a) == 2:
        src = eng.rv(st, a[0])
        i = eng.rv(st, a[1])
        need(eng, st, "source row within bounds", And(i >= 0, i < src.n), e)
        need(eng, st, "row widths agree", src.cols == t.cols, e)
        row = Select(src.data, i)
    else:
        x = eng.rv(st, a[0])
        if isinstance(x, Row):
            need(eng, st, "row widths agree", x.cols == t.cols, e)
            row = x.data
        elif isinstance(x, Vec):
            need(eng, st, "row widths agree", x.n == t.cols, e)
            row = x.data
        elif isinstance(x, Ptr):
            if z3.is_int_value(x.idx()) and x.idx().as_long() == 0:
                row = eng.read(st, x.base()).data
            else:
                raise Unsupported("push_back from inner pointer")
        else:
            raise Unsupported("push_back argument")
    eng.note_write(p.root, p.path, "rows")
    nt = Tab(t.n + 1, t.cols, Store(t.data, t.n, row))
    raw_write(eng, st, p, nt)
    st.assume(t.n + 1 < MAXLEN)
    return void(st)


def raw_write(eng, st, p, v):
    st.vars[p.root] = eng.upd(st, eng.root(st, p.root), p.path, v)


@model(TT + "pop_back")
def t_pop(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(If(t.n > 0, t.n - 1, t.n), t.cols, t.data))
    return void(st)


@model(TT + "clear")
def t_clear(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(IntVal(0), t.cols, t.data))
    return void(st)


@model(TT + "reserve")
def t_reserve(eng, st, base, a, e):
    return void(st)


@model(TT + "resize")
def t_resize(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    n = eng.rv(st, a[0])
    eng.note_write(p.root, p.path, "rows")
    d2 = z3.Const(eng.name("resized"), t.data.sort())
    k = Int("k!r")
    st.assume(ForAll([k], Implies(And(k >= 0, k < t.n), Select(d2, k) == Select(t.data, k)), patterns=[Select(d2, k)]))
    raw_write(eng, st, p, Tab(n, t.cols, d2))
    st.assume(n < MAXLEN)
    return void(st)


@model(TT + "setCols", "detail::IdTableImpl::setCols")
def t_setcols(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    eng.note_write(p.root, p.path, "*")
    raw_write(eng, st, p, Tab(t.n, eng.rv(st, a[0]), t.data))
    return void(st)


@model(TT + "asStaticView", TT + "clone")
def t_view(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    return V(st, t)


@model(TT + "moveToStatic", TT + "moveToDynamic")
def t_move(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    # the moved-from table keeps its announced size, its rows are unspecified
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(t.n, t.cols, z3.Const(eng.name("moved.d"), t.data.sort())))
    return V(st, t)


@model(TT + "operator=")
def t_assign(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    v = eng.rv(st, a[0])
    eng.write(st, p, v)
    return R(st, p)


@model(TT + "insert")
def t_insert(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    pos, b, en = (eng.rv(st, x) for x in a)
    if not (b.root == en.root and same_value(b.base(), en.base())):
        raise Unsupported("insert from two tables")
    if b.root == p.root and same_value(b.base(), p):
        raise Unsupported("insert from the table itself")
    src = eng.read(st, b.base())
    bi, ei = b.idx(), en.idx()
    need(eng, st, "inserted range within bounds", Implies(bi < ei, And(bi >= 0, ei <= src.n)), e)
    need(eng, st, "row widths agree", Implies(bi < ei, src.cols == t.cols), e)
    pi = pos.idx()
    tgt = If(pi < t.n, pi, t.n)
    cnt = If(bi < ei, ei - bi, 0)
    if eng.implied(st, tgt == t.n):
        tgt = t.n
    d2 = z3.Const(eng.name("inserted"), t.data.sort())
    k = Int("k!i")
    st.assume(ForAll([k], Implies(And(k >= 0, k < t.n + cnt),
                                  Select(d2, k) == If(k < tgt, Select(t.data, k),
                                                      If(k < tgt + cnt, Select(src.data, bi + k - tgt),
                                                         Select(t.data, k - cnt)))), patterns=[Select(d2, k)]))
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(t.n + cnt, t.cols, d2))
    st.assume(t.n + cnt < MAXLEN)
    return void(st)


@model(TT + "erase")
def t_erase(eng, st, base, a, e):
    p, t = tab_of(eng, st, base)
    b = eng.rv(st, a[0])
    bi = b.idx()
    en = eng.rv(st, a[1]) if len(a) > 1 else None
    if en is None or en.root is None or not (en.path and en.path[-1][0] == "i"):
        ei = bi + 1
    else:
        ei = en.idx()
    ei = If(ei > t.n, t.n, ei)
    cnt = If(ei <= bi, 0, ei - bi)
    d2 = z3.Const(eng.name("erased"), t.data.sort())
    k = Int("k!e")
    st.assume(ForAll([k], Select(d2, k) == If(k < bi, Select(t.data, k), Select(t.data, k + cnt)), patterns=[Select(d2, k)]))
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(t.n - cnt, t.cols, d2))
    return void(st)


@model(TT + "<ctor>")
def t_ctor(eng, st, base, a, e):
    cols = IntVal(0)
    for x in a:
        v = eng.rv(st, x)
        if isinstance(v, Tab):
            return V(st, v)
        if is_z(v):
            cols = v
    return V(st, Tab(IntVal(0), cols, z3.Const(eng.name("tab"), z3.ArraySort(INT, z3.ArraySort(INT, INT)))))


@model(TT + "getAllocator")
def t_alloc(eng, st, base, a, e):
    return V(st, Opaque("alloc"))


@model(TT + "data")
def t_data(eng, st, base, a, e):
    raise Unsupported("raw table storage")


for cls in ("detail::Row::", "detail::ConstRow::"):
    @model(cls + "operator[]")
    def r_idx(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        r = eng.read(st, p)
        if isinstance(r, Ptr):      # a row that is a view of an array
            p, r = r, eng.read(st, r)
        c = eng.rv(st, a[0])
        need(eng, st, "row column within bounds", And(c >= 0, c < (r.n if isinstance(r, Vec) else r.cols)), e)
        return R(st, p.ext("i", c))

    @model(cls + "size", cls + "cols")
    def r_size(eng, st, base, a, e):
        return V(st, eng.rv(st, base).cols)

    @model(cls + "data")
    def r_data(eng, st, base, a, e):
        return V(st, eng.as_ptr(st, base).ext("i", IntVal(0)))

    @model(cls + "operator=")
    def r_assign(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.rv(st, a[0])
        eng.write(st, p, v)
        return R(st, p)

    @model(cls + "<ctor>")
    def r_ctor(eng, st, base, a, e):
        v = eng.rv(st, a[0])
        if isinstance(v, Row):
            return V(st, v)
        if len(a) == 1:
            return V(st, Row(v, z3.Const(eng.name("row"), z3.ArraySort(INT, INT))))
        if len(a) == 2 and isinstance(v, Ptr) and v.path and v.path[-1][0] == "i" and eng.implied(st, v.idx() == 0):
            arr = eng.read(st, v.base())
            if isinstance(arr, Vec):
                need(eng, st, "row view within the array", eng.rv(st, a[1]) <= arr.n, e)
                return V(st, v.base())
        raise Unsupported("row constructor")


# iterators --------------------------------------------------------
for it in ("detail::IdTableDynamicIterator::", "__gnu_cxx::__normal_iterator::"):
    @model(it + "operator*")
    def it_deref(eng, st, base, a, e):
        p = eng.rv(st, base)
        if isinstance(p, Opaque):
            return V(st, Opaque("elem"))
        eng.bounds(st, p, e)
        return R(st, p)

    @model(it + "operator->")
    def it_arrow(eng, st, base, a, e):
        p = eng.rv(st, base)
        eng.bounds(st, p, e)
        return V(st, p)

    @model(it + "operator[]")
    def it_sub(eng, st, base, a, e):
        p = eng.rv(st, base)
        q = p.with_idx(simplify_idx(p.idx() + eng.rv(st, a[0])))
        eng.bounds(st, q, e)
        return R(st, q)

    def _step(d):
        def f(eng, st, base, a, e):
            lp = eng.as_ptr(st, base)
            v = eng.read(st, lp)
            new = v.with_idx(simplify_idx(v.idx() + d))
            eng.write(st, lp, new)
            if a:
                return V(st, v)
            return R(st, lp)
        return f
    M[it + "operator++"] = _step(1)
    M[it + "operator--"] = _step(-1)

    @model(it + "operator+=")
    def it_pe(eng, st, base, a, e):
        lp = eng.as_ptr(st, base)
        v = eng.read(st, lp)
        eng.write(st, lp, v.with_idx(simplify_idx(v.idx() + eng.rv(st, a[0]))))
        return R(st, lp)

    @model(it + "operator-=")
    def it_me(eng, st, base, a, e):
        lp = eng.as_ptr(st, base)
        v = eng.read(st, lp)
        eng.write(st, lp, v.with_idx(simplify_idx(v.idx() - eng.rv(st, a[0]))))
        return R(st, lp)

    @model(it + "operator+")
    def it_plus(eng, st, base, a, e):
        v = eng.rv(st, base)
        return V(st, v.with_idx(simplify_idx(v.idx() + eng.rv(st, a[0]))))

    @model(it + "operator-")
    def it_minus(eng, st, base, a, e):
        v = eng.rv(st, base)
        w = eng.rv(st, a[0])
        if isinstance(w, Ptr):
            return V(st, eng.ptr_diff(st, v, w))
        return V(st, v.with_idx(simplify_idx(v.idx() - w)))

    @model(it + "<ctor>", it + "<conv>")
    def it_ctor(eng, st, base, a, e):
        if a:
            if len(a) == 1:
                return V(st, eng.rv(st, a[0]))
            raise Unsupported("raw iterator constructor")
        if base is not None:
            return V(st, eng.rv(st, base))
        return V(st, NULL)

    @model(it + "operator=")
    def it_assign(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        eng.write(st, p, eng.rv(st, a[0]))
        return R(st, p)

    @model(it + "row")
    def it_row(eng, st, base, a, e):
        return V(st, eng.rv(st, base).idx())

    @model(it + "cols", it + "size")
    def it_cols(eng, st, base, a, e):
        v = eng.rv(st, base)
        return V(st, eng.read(st, v.base()).cols)

    for op in ("==", "!=", "<", ">", "<=", ">="):
        def _cmp(op):
            def f(eng, st, base, a, e):
                if base is None:
                    x, y = eng.rv(st, a[0]), eng.rv(st, a[1])
                else:
                    x, y = eng.rv(st, base), eng.rv(st, a[0])
                return V(st, eng.compare(st, op, x, y))
            return f
        M[it + "operator" + op] = _cmp(op)

for op in ("==", "!=", "<", ">", "<=", ">="):
    def _fcmp(op):
        def f(eng, st, base, a, e):
            x, y = eng.rv(st, a[0]), eng.rv(st, a[1])
            if isinstance(x, Ptr):
                return V(st, eng.compare(st, op, x, y))
            if isinstance(x, Opaque) or isinstance(y, Opaque):
                return V(st, Bool(eng.name("opq")))
            if isinstance(x, Vec) and isinstance(y, Vec) and op in ("==", "!="):
                g = vec_eq(x, y)
                return V(st, g if op == "==" else Not(g))
            raise Unsupported(f"operator{op} on {type(x)}")
        return f
    M["__gnu_cxx::operator" + op] = _fcmp(op)
    M["std::operator" + op] = _fcmp(op)


@model("__gnu_cxx::operator-")
def gi_minus(eng, st, base, a, e):
    x, y = eng.rv(st, a[0]), eng.rv(st, a[1])
    return V(st, eng.ptr_diff(st, x, y))


def vec_eq(x, y):
    k = Int("k!q")
    return And(x.n == y.n, ForAll([k], Implies(And(k >= 0, k < x.n), Select(x.data, k) == Select(y.data, k)),
                                  patterns=[z3.MultiPattern(Select(x.data, k), Select(y.data, k))] if not x.data.eq(y.data) else []))


# ------------------------------------------------------------ vectors
for cls in ("std::vector::", "std::array::", "std::basic_string::", "std::basic_string_view::", "std::initializer_list::"):
    @model(cls + "size", cls + "length")
    def v_size(eng, st, base, a, e):
        v = eng.rv(st, base)
        if isinstance(v.n, z3.ExprRef):
            st.assume(And(v.n >= 0, v.n < MAXLEN))
        return V(st, v.n)

    @model(cls + "empty")
    def v_empty(eng, st, base, a, e):
        return V(st, eng.rv(st, base).n == 0)

    @model(cls + "operator[]", cls + "at")
    def v_idx(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        i = eng.rv(st, a[0])
        if isinstance(v, Row):   # a row of a table of fixed width
            need(eng, st, "index within bounds", And(i >= 0, i < v.cols), e)
            return R(st, p.ext("i", i))
        if e.get("c", {}).get("q", "").endswith("::at"):
            st.assume(And(i >= 0, i < v.n))   # throws otherwise
        elif e.get("c", {}).get("q", "").startswith("std::basic_string::"):
            need(eng, st, "index within bounds", And(i >= 0, i <= v.n), e)
        else:
            need(eng, st, "index within bounds", And(i >= 0, i < v.n), e)
        if eng.types[e["t"]].get("name") == "std::_Bit_reference":
            return V(st, p.ext("i", i))
        return R(st, p.ext("i", i))

    @model(cls + "front")
    def v_front(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        need(eng, st, "front of nonempty", v.n > 0, e)
        return R(st, p.ext("i", IntVal(0)))

    @model(cls + "back")
    def v_back(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        need(eng, st, "back of nonempty", v.n > 0, e)
        return R(st, p.ext("i", simplify_idx(v.n - 1)))

    @model(cls + "begin", cls + "cbegin", cls + "data", cls + "c_str")
    def v_begin(eng, st, base, a, e):
        return V(st, eng.as_ptr(st, base).ext("i", IntVal(0)))

    @model(cls + "end", cls + "cend")
    def v_end(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        return V(st, p.ext("i", eng.read(st, p).n))

    @model(cls + "push_back", cls + "emplace_back")
    def v_push(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        if len(a) == 1:
            x = eng.rv(st, a[0])
            if is_z(x):
                if a[0][0] == "ref" and e["c"]["q"].endswith("push_back"):  # an object of the element type
                    for f in eng.type_facts(v.et, x):
                        st.assume(f)
                x = eng.convert(st, x, v.et)
        elif len(a) == 2 and eng.types[v.et].get("name") == "std::pair":
            x = Rec(v.et, {"first": eng.rv(st, a[0]), "second": eng.rv(st, a[1])}, None, eng)
        elif len(a) == 0:
            x = eng.zero(v.et)
        else:
            raise Unsupported("emplace_back")
        eng.note_write(p.root, p.path, "*")
        raw_write(eng, st, p, Vec(v.n + 1, store(v.data, v.n, x), v.et, v.const_len))
        st.assume(v.n + 1 < MAXLEN)
        if e.get("lv"):
            return R(st, p.ext("i", v.n))
        return void(st)

    @model(cls + "insert")
    def v_insert(eng, st, base, a, e):
        """Append a range of another container."""
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        if len(a) != 3 or any(not isinstance(eng.rv(st, x), Ptr) for x in a) or not is_z(v.data):
            raise Unsupported("insert")
        at, first, last = (eng.rv(st, x) for x in a)
        if first.root == p.root or not same_value(first.base(), last.base()):
            raise Unsupported("insert")
        src = eng.read(st, first.base())
        if not isinstance(src, Vec) or not is_z(src.data) or src.data.sort() != v.data.sort():
            raise Unsupported("insert")
        lo, hi = first.idx(), last.idx()
        need(eng, st, "insert: at the end", at.idx() == v.n, e)
        need(eng, st, "insert: range is valid", And(0 <= lo, lo <= hi, hi <= src.n), e)
        d = z3.Const(eng.name("ins"), v.data.sort())
        k = Int("k!i")
        st.assume(ForAll([k], Select(d, k) == If(And(v.n <= k, k < v.n + hi - lo), Select(src.data, k - v.n + lo), Select(v.data, k)), patterns=[Select(d, k)]))
        eng.note_write(p.root, p.path, "*")
        raw_write(eng, st, p, Vec(v.n + hi - lo, d, v.et, v.const_len))
        st.assume(v.n + hi - lo < MAXLEN)
        return V(st, p.ext("i", v.n))

    @model(cls + "pop_back")
    def v_pop(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        need(eng, st, "pop_back of nonempty", v.n > 0, e)
        eng.note_write(p.root, p.path, "*")
        raw_write(eng, st, p, Vec(v.n - 1, v.data, v.et, v.const_len))
        return void(st)

    @model(cls + "clear")
    def v_clear(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        eng.note_write(p.root, p.path, "*")
        raw_write(eng, st, p, Vec(IntVal(0), v.data, v.et, v.const_len))
        return void(st)

    @model(cls + "reserve", cls + "shrink_to_fit")
    def v_reserve(eng, st, base, a, e):
        return void(st)

    @model(cls + "resize")
    def v_resize(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        n = eng.rv(st, a[0])
        eng.note_write(p.root, p.path, "*")
        if not is_z(v.data):
            nv = eng.havoc_value(v, "data", "resized")
            raw_write(eng, st, p, Vec(n, nv.data, v.et, v.const_len))
            return void(st)
        fill = eng.rv(st, a[1]) if len(a) > 1 else eng.zero(v.et)
        d2 = z3.Const(eng.name("resized"), v.data.sort())
        k = Int("k!r")
        st.assume(ForAll([k], Implies(And(k >= 0, k < n), Select(d2, k) == If(k < v.n, Select(v.data, k), fill)), patterns=[Select(d2, k)]))
        raw_write(eng, st, p, Vec(n, d2, v.et, v.const_len))
        return void(st)

    @model(cls + "operator=")
    def v_assign(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        eng.write(st, p, eng.rv(st, a[0]))
        return R(st, p)

    @model(cls + "<ctor>")
    def v_ctor(eng, st, base, a, e):
        t = e["t"]
        vals = [eng.rv(st, x) for x in a]
        vals = [x for x in vals if not isinstance(x, Opaque)]
        v = eng.zero(t)
        if not vals:
            return V(st, v)
        x = vals[0]
        if isinstance(x, Vec):
            n = x.n
            et = v.et
            data = x.data
            if e["a"] and e["a"][0].get("k") == "cast" and e["a"][0].get("ck") == "ArrayToPointerDecay":
                n = x.n - 1
            return V(st, Vec(n, data, et, None))
        if isinstance(x, Ptr):
            src = eng.read(st, x.base())
            if len(vals) >= 2 and isinstance(vals[1], Ptr):
                n = vals[1].idx() - x.idx()
            elif len(vals) >= 2:
                n = vals[1]
            else:
                if z3.is_int_value(src.n):
                    n = IntVal(src.n.as_long() - 1)   # string literal
                else:
                    raise Unsupported("string from char pointer")
            if z3.is_int_value(x.idx()) and x.idx().as_long() == 0:
                return V(st, Vec(n, src.data, v.et, None))
            d2 = z3.Const(eng.name("sub"), src.data.sort())
            k = Int("k!c")
            st.assume(ForAll([k], Select(d2, k) == Select(src.data, x.idx() + k), patterns=[Select(d2, k)]))
            return V(st, Vec(n, d2, v.et, None))
        if is_z(x) and len(vals) == 1:
            # n value-initialised elements
            z = eng.zero(v.et)
            if is_z(z):
                return V(st, Vec(x, z3.K(INT, z), v.et, None))
            return V(st, Vec(x, eng.fresh(v.et, "vecn", 1), v.et, None))
        if is_z(x) and len(vals) == 2:
            if is_z(vals[1]):
                y = eng.convert(st, vals[1], v.et)
                return V(st, Vec(x, z3.K(INT, y), v.et, None))
        raise Unsupported("vector constructor line %s" % e.get("l"))

    @model(cls + "assign")
    def v_assignn(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        v = eng.read(st, p)
        x = eng.rv(st, a[0])
        if is_z(x) and len(a) == 2:
            eng.write(st, p, Vec(x, z3.K(INT, eng.rv(st, a[1])), v.et, v.const_len))
            return void(st)
        raise Unsupported("assign")

    @model(cls + "swap")
    def v_swap(eng, st, base, a, e):
        p, q = eng.as_ptr(st, base), eng.as_ptr(st, a[0])
        x, y = eng.read(st, p), eng.read(st, q)
        eng.write(st, p, y)
        eng.write(st, q, x)
        return void(st)

    @model(cls + "get_allocator")
    def v_alloc(eng, st, base, a, e):
        return V(st, Opaque("alloc"))


@model("std::swap")
def std_swap(eng, st, base, a, e):
    p, q = eng.as_ptr(st, a[0]), eng.as_ptr(st, a[1])
    x, y = eng.read(st, p), eng.read(st, q)
    eng.write(st, p, y)
    eng.write(st, q, x)
    return void(st)


# ------------------------------------------------------------ utilities
@model("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")
def std_move(eng, st, base, a, e):
    return [(st, a[0])]


@model("std::min", "std::max")
def std_minmax(eng, st, base, a, e):
    x, y = eng.rv(st, a[0]), eng.rv(st, a[1])
    if e["c"]["q"] == "std::min":
        return V(st, If(y < x, y, x))
    return V(st, If(x < y, y, x))


@model("std::next", "std::prev")
def std_next(eng, st, base, a, e):
    v = eng.rv(st, a[0])
    if not isinstance(v, Ptr):
        raise Unsupported(e["c"]["q"])
    d = eng.rv(st, a[1]) if len(a) > 1 else IntVal(1)
    return V(st, v.with_idx(simplify_idx(v.idx() + d if e["c"]["q"] == "std::next" else v.idx() - d)))


@model("std::make_pair")
def mk_pair(eng, st, base, a, e):
    return V(st, Rec(eng.strip_ref(e["t"]), {"first": eng.rv(st, a[0]), "second": eng.rv(st, a[1])}, None, eng))


@model("std::pair::<ctor>")
def pair_ctor(eng, st, base, a, e):
    if len(a) == 0:
        return V(st, eng.zero(e["t"]))
    if len(a) == 1:
        return V(st, eng.rv(st, a[0]))
    ty = eng.types[e["t"]]
    x, y = eng.rv(st, a[0]), eng.rv(st, a[1])
    for v, src in zip((x, y), e.get("a", [])):
        if is_z(v) and "t" in src:
            for f in eng.type_facts(src["t"], v):
                st.assume(f)
    if is_z(x):
        x = eng.convert(st, x, ty["args"][0]["t"])
    if is_z(y):
        y = eng.convert(st, y, ty["args"][1]["t"])
    return V(st, Rec(e["t"], {"first": x, "second": y}, None, eng))


@model("std::pair::operator=")
def pair_assign(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    eng.write(st, p, eng.rv(st, a[0]))
    return R(st, p)


@model("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
def numlim(eng, st, base, a, e):
    ty = eng.types[eng.strip_ref(e["t"])]
    if ty["k"] == "float":
        return V(st, z3.Real("float_" + e["c"]["q"][-3:]))
    w, sg = ty["w"], ty.get("signed")
    if e["c"]["q"].endswith("max"):
        return V(st, IntVal((1 << (w - 1)) - 1 if sg else (1 << w) - 1))
    return V(st, IntVal(-(1 << (w - 1)) if sg else 0))


def call_pure(eng, st, f, args):
    """Evaluate a callable on symbolic arguments in a scratch state; it must be
    deterministic and free of side effects."""
    s = st.copy()
    n = len(s.pc)
    eng.dry += 1
    try:
        fid = None
        if isinstance(f, Lam):
            fid = pick_lambda(eng, f, args)
            rs = eng.inline(s, fid, ("val", f), args, {"k": "call", "a": []})
        else:
            rs = eng.apply(s, f, args, {"k": "call", "a": []})
    finally:
        eng.dry -= 1
    if not rs:
        raise Unsupported("comparator without result")
    # several paths: combine by their conditions
    out = None
    for s2, r in rs:
        v = r[1] if r[0] == "val" else eng.read(s2, r[1])
        if out is None:
            out = v
        else:
            extra = [x for x in s2.pc[n:]]
            out = ite(And(*extra) if extra else BoolVal(True), v, out)
    return out


def pick_lambda(eng, f, args):
    if f.fn is not None:
        return f.fn
    raise Unsupported("generic lambda without instantiation")


def pred_at(eng, st, f, mk):
    """z3 predicate of an index k: f applied to mk(k)."""
    k = Int(eng.name("k"))
    v = call_pure(eng, st, f, mk(k))
    return lambda x: z3.substitute(v, (k, x if is_z(x) else IntVal(x)))


@model("std::lower_bound", "std::upper_bound", "std::partition_point")
def std_bound(eng, st, base, a, e):
    which = e["c"]["q"]
    first, last = eng.rv(st, a[0]), eng.rv(st, a[1])
    if not same_value(first.base(), last.base()):
        raise Unsupported("lower_bound on unrelated iterators")
    lo, hi = first.idx(), last.idx()
    cont = eng.read(st, first.base())
    n = cont.n
    val = eng.rv(st, a[2]) if len(a) > 2 else None
    comp = eng.rv(st, a[3]) if len(a) > 3 else None

    def elem(k):
        return ("ref", first.with_idx(k))

    if comp is not None:
        if which == "std::lower_bound":
            P = pred_at(eng, st, comp, lambda k: [elem(k), a[2]])
        else:
            Q = pred_at(eng, st, comp, lambda k: [a[2], elem(k)])
            P = lambda k: Not(Q(k))
    else:
        if which == "std::lower_bound":
            P = lambda k: eng.read(st, first.with_idx(k)) < val
        else:
            P = lambda k: eng.read(st, first.with_idx(k)) <= val
    need(eng, st, f"{which}: range is valid", Or(lo == hi, And(0 <= lo, lo <= hi, hi <= n)), e)
    i, j = Int(eng.name("i")), Int(eng.name("j"))
    eng.oblige(st, f"{which}: range is partitioned",
               ForAll([i, j], Implies(And(lo <= i, i < j, j < hi, P(j)), P(i))), e.get("l"), "pre")
    r = Int(eng.name("bound"))
    st.assume(And(lo <= r, r <= hi))
    pat = lambda k: elem_term(eng, st, first.with_idx(k))
    t = pat(i)
    st.assume(ForAll([i], Implies(And(lo <= i, i < r), P(i)), patterns=[t]))
    st.assume(ForAll([i], Implies(And(r <= i, i < hi), Not(P(i))), patterns=[t]))
    # instantiated at the boundary for the solvers' benefit
    st.assume(Implies(r > lo, P(r - 1)))
    st.assume(Implies(r < hi, Not(P(r))))
    return V(st, first.with_idx(r))


def elem_term(eng, st, p):
    """A z3 term mentioning the element index, usable as a pattern."""
    v = eng.read(st, p)
    while not is_z(v):
        if isinstance(v, Row):
            v = v.data
        elif isinstance(v, Rec):
            v = list(v.fields.values())[0]
        elif isinstance(v, Vec):
            v = v.n
        else:
            raise Unsupported("pattern")
    return v


# ------------------------------------------------------------ smart pointers
for cls in ("std::__shared_ptr_access::", "std::shared_ptr::", "std::unique_ptr::", "std::__shared_ptr::"):
    @model(cls + "operator->", cls + "get")
    def sp_arrow(eng, st, base, a, e):
        v = eng.rv(st, base)
        return V(st, v)

    @model(cls + "operator*")
    def sp_deref(eng, st, base, a, e):
        v = eng.rv(st, base)
        return R(st, v)

    @model(cls + "operator bool", cls + "<conv>")
    def sp_bool(eng, st, base, a, e):
        v = eng.rv(st, base)
        return V(st, BoolVal(v.root is not None))

    @model(cls + "<ctor>")
    def sp_ctor(eng, st, base, a, e):
        if a:
            v = eng.rv(st, a[0])
            if isinstance(v, Ptr):
                return V(st, v)
        return V(st, NULL)

    @model(cls + "operator=")
    def sp_assign(eng, st, base, a, e):
        p = eng.as_ptr(st, base)
        eng.write(st, p, eng.rv(st, a[0]))
        return R(st, p)


# ------------------------------------------------------------ ignored parts
def opaque_ret(eng, st, base, a, e):
    t = e["t"]
    k = eng.kind(eng.strip_ref(t)) if eng.types[t]["k"] != "void" else "void"
    if k in ("int", "bool", "enum", "float"):
        v = eng.fresh(t, "opq")
        for f in eng.type_facts(t, v):
            st.assume(f)
        return V(st, v)
    return V(st, Opaque("ignored"))


for n in ("Operation::checkTimeoutAfterNCallsFactory", "Operation::checkTimeout", "ad_utility::Log::getLog",
          "ad_utility::LogstreamChoice::get", "std::endl", "std::operator<<"):
    M[n] = opaque_ret
M["@prefix"] = [("std::basic_ostream::", opaque_ret), ("ad_utility::Timer::", opaque_ret),
                ("ad_utility::TimeoutTimer::", opaque_ret), ("ad_utility::Log", opaque_ret),
                ("std::basic_stringstream::", opaque_ret), ("std::basic_ostringstream::", opaque_ret),
                ("RuntimeInformation::", opaque_ret), ("std::function::", opaque_ret),
                ("std::allocator::", opaque_ret), ("ad_utility::AllocatorWithLimit::", opaque_ret),
                ("std::chrono::", opaque_ret), ("ad_semsearch::", opaque_ret)]


@model("std::_Bit_reference::operator=")
def bitref_assign(eng, st, base, a, e):
    p = eng.rv(st, base)
    v = eng.rv(st, a[0])
    eng.write(st, p, eng.read(st, v) if isinstance(v, Ptr) else v)
    return V(st, p)


@model("std::_Bit_reference::<conv>")
def bitref_bool(eng, st, base, a, e):
    return V(st, eng.read(st, eng.rv(st, base)))


@model("std::unique")
def std_unique(eng, st, base, a, e):
    """Keeps the first of each run of elements equivalent to it.  The relation
    is named by the contract; the predicate is proved to compute it."""
    rel = getattr(eng.contract, "unique_rel", None)
    first, last, f = eng.rv(st, a[0]), eng.rv(st, a[1]), eng.rv(st, a[2])
    if rel is None or not isinstance(f, Lam) or not same_value(first.base(), last.base()):
        raise Unsupported("std::unique")
    p = first.base()
    t = eng.read(st, p)
    need(eng, st, "std::unique: range is the whole container", And(first.idx() == 0, last.idx() == t.n), e)
    sv = SpecView(eng, st)
    i, j = Int(eng.name("i")), Int(eng.name("j"))
    s2 = st.copy()
    s2.assume(And(0 <= i, i < t.n, 0 <= j, j < t.n))
    rowv = lambda k: Select(t.data, k)
    for s3, r in eng.inline(s2, pick_lambda(eng, f, []), ("val", f), [("ref", first.with_idx(i)), ("ref", first.with_idx(j))], e):
        eng.oblige(s3, "std::unique: predicate means the stated relation", eng.rv(s3, r) == rel(SpecView(eng, s3), rowv(i), rowv(j)), e.get("l"), "pre")
    x, y, z = (z3.Const(eng.name(n), t.data.sort().range()) for n in "xyz")
    R3 = lambda u, v: rel(sv, u, v)
    eng.oblige(st, "std::unique: relation is an equivalence",
               And(R3(x, x), Implies(R3(x, y), R3(y, x)), Implies(And(R3(x, y), R3(y, z)), R3(x, z))), e.get("l"), "pre")
    m = Int(eng.name("uniq"))
    arr = z3.ArraySort(INT, INT)
    u, to = z3.Const(eng.name("uq_from"), arr), z3.Const(eng.name("uq_to"), arr)
    d2 = z3.Const(eng.name("uniqd"), t.data.sort())
    k, l = Ints("k!q l!q")
    st.assume(And(0 <= m, m <= t.n, Implies(t.n > 0, And(m > 0, u[0] == 0)), u[m] == t.n))
    st.assume(ForAll([k], Implies(And(0 <= k, k < m), And(0 <= u[k], u[k] < u[k + 1], u[k] < t.n, Select(d2, k) == rowv(u[k]))), patterns=[u[k], Select(d2, k)]))
    st.assume(ForAll([k, l], Implies(And(0 <= k, k < l, l <= m), u[k] < u[l]), patterns=[z3.MultiPattern(u[k], u[l])]))
    st.assume(ForAll([k], Implies(And(1 <= k, k < m), Not(R3(rowv(u[k - 1]), rowv(u[k])))), patterns=[u[k]]))
    st.assume(ForAll([k], Implies(And(0 <= k, k < t.n), And(0 <= to[k], to[k] < m, u[to[k]] <= k, k < u[to[k] + 1], R3(rowv(u[to[k]]), rowv(k)))), patterns=[to[k]]))
    sv.set_ghost("uq_from", u)
    sv.set_ghost("uq_to", to)
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(t.n, t.cols, d2))
    return V(st, first.with_idx(m))


@model("std::sort", "std::stable_sort", "ad_utility::parallel_sort", "__gnu_parallel::sort", "std::__parallel::sort")
def std_sort(eng, st, base, a, e):
    """Permutes the elements into ascending order.  The order is named by the
    contract; the comparator is proved to compute it."""
    rels = getattr(eng.contract, "sort_rels", None)
    first, last = eng.rv(st, a[0]), eng.rv(st, a[1])
    f = eng.rv(st, a[2]) if len(a) > 2 else None
    if rels is None or not isinstance(f, Lam) or not same_value(first.base(), last.base()):
        raise Unsupported("std::sort")
    p = first.base()
    t = eng.read(st, p)
    if not isinstance(t, Tab):
        raise Unsupported("std::sort of other containers")
    need(eng, st, "std::sort: range is the whole container", And(first.idx() == 0, last.idx() == t.n), e)
    i, j = Int(eng.name("i")), Int(eng.name("j"))
    s2 = st.copy()
    s2.assume(And(0 <= i, i < t.n, 0 <= j, j < t.n))
    rowv = lambda k: Select(t.data, k)
    SpecView(eng, s2).set_ghost("srt_a", rowv(i))
    SpecView(eng, s2).set_ghost("srt_b", rowv(j))
    answers = eng.inline(s2, pick_lambda(eng, f, []), ("val", f), [("ref", first.with_idx(i)), ("ref", first.with_idx(j))], e)

    def means(rel):
        for s3, r in answers:
            z = z3.Solver()
            z.set("timeout", 3000)
            z.add(*s3.pc)
            z.add(eng.rv(s3, r) != rel(SpecView(eng, s3), rowv(i), rowv(j)))
            if z.check() != z3.unsat:
                return False
        return True
    # several orders may be allowed; the one that fits is taken, else the first
    rel = rels[0] if eng.dry else next((x for x in rels if means(x)), rels[0])
    for s3, r in answers:
        eng.oblige(s3, "std::sort: comparator means the stated order", eng.rv(s3, r) == rel(SpecView(eng, s3), rowv(i), rowv(j)), e.get("l"), "pre")
    sv = SpecView(eng, st)
    x, y, z = (z3.Const(eng.name(n), t.data.sort().range()) for n in "xyz")
    L = lambda u, v: rel(sv, u, v)
    eng.oblige(st, "std::sort: order is irreflexive", Not(L(x, x)), e.get("l"), "pre")
    eng.oblige(st, "std::sort: order is transitive", Implies(And(L(x, y), L(y, z)), L(x, z)), e.get("l"), "pre")
    eng.oblige(st, "std::sort: order is negatively transitive", Implies(L(x, z), Or(L(x, y), L(y, z))), e.get("l"), "pre")
    arr = z3.ArraySort(INT, INT)
    u, to = z3.Const(eng.name("srt_from"), arr), z3.Const(eng.name("srt_to"), arr)
    d2 = z3.Const(eng.name("sorted"), t.data.sort())
    k, l = Ints("k!q l!q")
    st.assume(ForAll([k], Implies(And(0 <= k, k < t.n), And(0 <= u[k], u[k] < t.n, to[u[k]] == k, Select(d2, k) == rowv(u[k]))), patterns=[u[k], Select(d2, k)]))
    st.assume(ForAll([k], Implies(And(0 <= k, k < t.n), And(0 <= to[k], to[k] < t.n, u[to[k]] == k)), patterns=[to[k]]))
    st.assume(ForAll([k, l], Implies(And(0 <= k, k < l, l < t.n), Not(L(Select(d2, l), Select(d2, k)))), patterns=[z3.MultiPattern(Select(d2, k), Select(d2, l))]))
    sv.set_ghost("srt_from", u)
    sv.set_ghost("srt_to", to)
    eng.note_write(p.root, p.path, "rows")
    raw_write(eng, st, p, Tab(t.n, t.cols, d2))
    return void(st)
