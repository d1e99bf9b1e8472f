"""Reading the compressed lists of the text index."""
from spec import *
from models import V, void

TU = '#include "@REPO@/src/index/Index.Text.cpp"\n'
DEC = z3.Function("DEC", INT, INT, INT)    # element number i of the list encoded at a file position
BOOK = z3.Function("BOOK", INT, INT, INT)  # element number i of the codebook at a file position
LEN = z3.Function("LEN", INT, INT)         # number stored at a file position
SUM = z3.Function("SUM", INT, INT)         # sum of the gaps before an element
EXTRA = 239                                # elements decoding may write behind the last one


def el(v, i):
    return Select(v.data, i)


def size_of(eng, t):
    w = eng.types[t].get("w")
    if not w:
        raise Unsupported("size of an element")
    return w // 8


def m_read(eng, st, base, a, e):
    """Fills a buffer from a position of the file and notes the position."""
    p, n, at = eng.rv(st, a[0]), eng.rv(st, a[1]), eng.rv(st, a[2])
    if not isinstance(p, Ptr):
        raise Unsupported("reading into another buffer")
    sv = SpecView(eng, st)
    if p.path and p.path[-1][0] == "i":
        q = Ptr(p.root, p.path[:-1])
        v = eng.read(st, q)
        eng.oblige(st, "read: the buffer is long enough", And(p.path[-1][1] == 0, n >= 0, n <= v.n * size_of(eng, v.et)), e.get("l"), "pre")
        d = z3.Const(eng.name("bytes"), v.data.sort())
        k = Int("k!r")
        st.assume(ForAll([k], Implies(And(0 <= k, k < v.n), Select(d, k) == BOOK(at, k)), patterns=[Select(d, k)]))
        eng.note_write(q.root, q.path, "*")
        eng.write(st, q, Vec(v.n, d, v.et, v.const_len))
        sv.set_ghost("at", at)
        sv.set_ghost("bytes", n)
        st.vars["*buffer"] = q.root
    else:
        eng.oblige(st, "read: one number", n == 8, e.get("l"), "pre")
        eng.note_write(p.root, p.path, "*")
        eng.write(st, p, LEN(at))
    return V(st, n)


def m_decode(eng, st, base, a, e):
    """Decodes the list that was read last."""
    src, n, out = eng.rv(st, a[0]), eng.rv(st, a[1]), eng.rv(st, a[2])
    if not (isinstance(src, Ptr) and isinstance(out, Ptr) and src.path and src.path[-1][0] == "i" and out.path and out.path[-1][0] == "i"):
        raise Unsupported("decoding of another buffer")
    sv = SpecView(eng, st)
    eng.oblige(st, "decode: the list was read into this buffer", And(BoolVal(st.vars.get("*buffer") == src.root), src.path[-1][1] == 0), e.get("l"), "pre")
    q = Ptr(out.root, out.path[:-1])
    v = eng.read(st, q)
    eng.oblige(st, "decode: the result has room", And(out.path[-1][1] == 0, v.n >= n + EXTRA), e.get("l"), "pre")
    eng.oblige(st, "decode: all bytes of the list were read", sv.ghost("bytes") == eng.contract.encoded(SpecView(eng, st)), e.get("l"), "pre")
    d = z3.Const(eng.name("decoded"), v.data.sort())
    k = Int("k!r")
    st.assume(ForAll([k], Implies(And(0 <= k, k < n), Select(d, k) == DEC(sv.ghost("at"), k)), patterns=[Select(d, k)]))
    st.assume(ForAll([k], Implies(And(0 <= k, k < v.n), And(0 <= Select(d, k), Select(d, k) < 2 ** (8 * size_of(eng, v.et)))), patterns=[Select(d, k)]))
    eng.note_write(q.root, q.path, "*")
    eng.write(st, q, Vec(v.n, d, v.et, v.const_len))
    return V(st, src)


class Reading(Contract):
    tu = TU
    std = "gnu++17"
    infer_copies = False
    param_names = ["nofElements", "from", "nofBytes", "result"]
    models = {"ad_utility::File::read": m_read, "ad_utility::Simple8bCode::decode": m_decode}
    assumptions = ["File::read fills the buffer from the given position", "decoding yields the encoded numbers and writes at most 239 more (bounded runs of C11)",
                   "lists have fewer than 2^40 elements"]

    def ghosts(self, eng):
        return {"at": IntVal(-1), "bytes": IntVal(-1)}

    def room(self, s):
        return ("sizes", And(0 <= s("nofElements"), s("nofElements") < 2 ** 40, 0 <= s("from"), s("from") < 2 ** 60, 0 <= s("nofBytes"), s("nofBytes") < 2 ** 60))


class Gaps(Reading):
    """The sums of the gaps that are stored."""
    function = "Index::readGapComprList"

    def encoded(self, s):
        return s.old("nofBytes")

    def requires(self, s):
        i = Int("i!t")
        n, at = s("nofElements"), s("from")
        return [self.room(s), ("bytes form words", s("nofBytes") % 8 == 0),
                ("gaps are numbers", ForAll([i], And(0 <= DEC(at, i), DEC(at, i) < 2 ** 64), patterns=[DEC(at, i)])),
                ("sums start at zero", SUM(0) == 0),
                ("sums", ForAll([i], Implies(0 <= i, SUM(i + 1) == (SUM(i) + DEC(at, i)) % 2 ** 64), patterns=[SUM(i + 1), DEC(at, i)]))]

    def ensures(self, s, ret):
        k = Int("k!t")
        v, n = s("result"), s.old("nofElements")
        return [("number of elements", v.n == n), ("elements are sums of gaps", ForAll([k], Implies(And(0 <= k, k < n), el(v, k) == SUM(k + 1)), patterns=[el(v, k)]))]

    def __init__(self):
        def inv(s, e):
            v, n, i, at = s("result"), s.old("nofElements"), s("i"), s.old("from")
            k = Int("k!t")
            return [("position", And(0 <= i, i <= v.n, n <= v.n)), ("sum", Implies(i <= n, s("id") == SUM(i))), ("sum is a number", And(0 <= s("id"), s("id") < 2 ** 64)),
                    ("elements are numbers", ForAll([k], Implies(And(0 <= k, k < v.n), And(0 <= el(v, k), el(v, k) < 2 ** 64)), patterns=[el(v, k)])),
                    ("sums so far", ForAll([k], Implies(And(0 <= k, k < i, k < n), el(v, k) == SUM(k + 1)), patterns=[el(v, k)])),
                    ("gaps", ForAll([k], Implies(And(i <= k, k < n), el(v, k) == DEC(at, k)), patterns=[el(v, k)]))]
        self.loops = {0: dict(inv=inv, name="sums")}


class Codes(Reading):
    """The elements of the codebook that the stored codes name."""
    function = "Index::readFreqComprList"
    width = 8

    def book(self, s):
        return s.old("from") + 8

    def list(self, s):
        return s.old("from") + 8 + LEN(s.old("from"))

    def encoded(self, s):
        return s.old("nofBytes") - 8 - LEN(s.old("from"))

    def requires(self, s):
        i = Int("i!t")
        n, at, L = s("nofElements"), s("from"), LEN(s("from"))
        return [self.room(s), ("codebook", And(0 <= L, L < 2 ** 60, L + 8 <= s("nofBytes"), L % self.width == 0)), ("words for codes", Implies(n > 0, s("nofBytes") - 8 - L <= 8 * n)),
                ("codes are in the codebook", ForAll([i], Implies(And(0 <= i, i < n), And(0 <= DEC(at + 8 + L, i), DEC(at + 8 + L, i) < L / self.width)), patterns=[DEC(at + 8 + L, i)]))]

    def value(self, s, k):
        return BOOK(self.book(s), DEC(self.list(s), k))

    def ensures(self, s, ret):
        k = Int("k!t")
        v, n = s("result"), s.old("nofElements")
        return [("number of elements", v.n == n), ("elements are those of the codebook", ForAll([k], Implies(And(0 <= k, k < n), el(v, k) == self.value(s, k)), patterns=[el(v, k)]))]

    def __init__(self):
        def inv(s, e):
            v, n, i = s("result"), s.old("nofElements"), s("i")
            k = Int("k!t")
            return [("position", And(0 <= i, i <= n, v.n == n)),
                    ("elements so far", ForAll([k], Implies(And(0 <= k, k < i), el(v, k) == self.value(s, k)), patterns=[el(v, k)])),
                    ("codes", ForAll([k], Implies(And(i <= k, k < n), el(v, k) == DEC(self.list(s), k)), patterns=[el(v, k)]))]
        self.loops = {0: dict(inv=inv, name="elements")}


CONTRACTS = [Gaps, Codes]
