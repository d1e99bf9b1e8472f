"""Numbering of the words of partial vocabularies."""
from spec import *
from models import V, void, R, M
from engine import Unsupported, Opaque

HS = "absl::container_internal::raw_hash_set::"
HM = "absl::container_internal::raw_hash_map::"
OVER = '#include "@REPO@/src/index/VocabularyGenerator.h"\n'
RANK = z3.Function("rank_of_word", INT, INT)


def m_cmp(neg):
    def f(eng, st, base, a, e):
        xs = ([base] if base is not None else []) + list(a)
        x, y = (eng.rv(st, z) for z in xs)
        return V(st, x != y if neg else x == y)
    return f


def m_set(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    eng.write(st, p, eng.rv(st, a[0]))
    return R(st, p)


def m_count(boolean):
    def f(eng, st, base, a, e):
        h = Select(SpecView(eng, st).ghost("has"), eng.rv(st, a[0]))
        return V(st, h if boolean else If(h, IntVal(1), IntVal(0)))
    return f


def m_sub(eng, st, base, a, e):
    s = SpecView(eng, st)
    k = eng.rv(st, a[0])
    s.set_ghost("has", Store(s.ghost("has"), k, BoolVal(True)))
    return R(st, eng.as_ptr(st, base).ext("i", k))


def m_new_map(eng, st, base, a, e):
    return V(st, Vec(IntVal(0), z3.Const(eng.name("map"), ARR), eng.elem_type(e["t"]), None))


def m_new_word(eng, st, base, a, e):
    return V(st, eng.rv(st, a[0]) if a else Int("the_empty_word"))


class Mapping(Contract):
    """Equal words get equal numbers, in the order of the words, without gaps."""
    tu = OVER
    function = "createInternalMapping"
    param_names = ["elsPtr"]
    type_kinds = {"std::basic_string": "int", "absl::flat_hash_map": "vec"}
    models = {"absl::flat_hash_map::<ctor>": m_new_map, "std::basic_string::<ctor>": m_new_word, "std::operator!=": m_cmp(True), "std::operator==": m_cmp(False), "std::basic_string::operator=": m_set,
              HS + "count": m_count(False), HS + "contains": m_count(True), HM + "operator[]": m_sub}
    assumptions = ["contracts of the hash map and of comparing strings"]

    def ghosts(self, eng):
        return {"has": z3.K(INT, BoolVal(False))}

    def els(self, s, st=None):
        v = s("elsPtr") if st is None else s.old("elsPtr")
        return v

    def word(self, v, i):
        return Select(v.data.get("first"), i)

    def id(self, v, i):
        return Select(v.data.get("second").get("m_id"), i)

    def requires(self, s):
        v = s("elsPtr")
        i, j = Int("i!m"), Int("j!m")
        return [("numbers differ", ForAll([i, j], Implies(And(0 <= i, i < j, j < v.n), self.id(v, i) != self.id(v, j)), patterns=[z3.MultiPattern(self.id(v, i), self.id(v, j))])),
                ("ranks", And(RANK(0) == 0, ForAll([i], Implies(And(0 <= i, i < v.n - 1), RANK(i + 1) == RANK(i) + If(self.word(v, i) == self.word(v, i + 1), 0, 1)), patterns=[RANK(i + 1)])))]

    def so_far(self, s, n, m):
        """The first n words are done, m is the map."""
        v, o = s("elsPtr"), s.old("elsPtr")
        i = Int("i!s")
        has = s.ghost("has")
        return [("same words", And(v.n == o.n, ForAll([i], Implies(And(0 <= i, i < v.n), self.word(v, i) == self.word(o, i)), patterns=[self.word(v, i)]))),
                ("words get their rank", ForAll([i], Implies(And(0 <= i, i < n), self.id(v, i) == RANK(i)), patterns=[self.id(v, i)])),
                ("the map knows the ranks", ForAll([i], Implies(And(0 <= i, i < n), And(Select(has, self.id(o, i)), Select(m.data, self.id(o, i)) == RANK(i))), patterns=[self.id(o, i)])),
                ("the map knows nothing else", ForAll([i], Implies(And(n <= i, i < v.n), Not(Select(has, self.id(o, i)))), patterns=[self.id(o, i)]))]

    def ensures(self, s, ret):
        return self.so_far(s, s.old("elsPtr").n, ret)

    def __init__(self):
        def inv(s, e):
            n = s("@idx")
            o, v = s.old("elsPtr"), s("elsPtr")
            i = Int("i!s")
            return [("position", And(0 <= n, n <= o.n)), ("rest is untouched", ForAll([i], Implies(And(n <= i, i < v.n), self.id(v, i) == self.id(o, i)), patterns=[self.id(v, i)]))] + self.so_far(s, n, s("res")) + [
                ("last word", And(s("first") == (n == 0), Implies(n > 0, And(s("lastWord") == self.word(o, n - 1), s("nextWordId") == RANK(n - 1))), Implies(n == 0, s("nextWordId") == 0), s("nextWordId") >= 0, s("nextWordId") <= n))]
        self.loops = {0: dict(inv=inv, name="words")}


FIRST = z3.Function("first_char", INT, INT)
LEN = z3.Function("length_of_word", INT, INT)
W0 = ("w.file", "w.part", "w.glob")   # what was written: file, number there, number everywhere


def written(eng, st, file, part, glob):
    s = SpecView(eng, st)
    n = s.ghost("w.n")
    for g, x in zip(W0, (file, part, glob)):
        s.set_ghost(g, Store(s.ghost(g), n, x))
    s.set_ghost("w.n", n + 1)


def m_push_pair(eng, st, base, a, e):
    """One more pair in the array of a file."""
    p, x = eng.as_ptr(st, base), eng.rv(st, a[0])
    if not (p.path and p.path[-1][0] == "i" and p.path[-2] == ("f", "_idVecs")):
        raise Unsupported("array of pairs")
    written(eng, st, p.path[-1][1], x.get("first"), x.get("second"))
    return void(st)


def pairs(v):
    d = v.data
    return d.get("first"), d.get("second").get("first"), d.get("second").get("second")


def m_write(eng, st, base, a, e):
    """doActualWrite by its contract."""
    s = SpecView(eng, st)
    v = eng.rv(st, a[0])
    eng.oblige(st, "nothing is written at the same time", Not(s.ghost("running")), e.get("l"), "pre")
    n, k = s.ghost("w.n"), Int("k!w")
    for g, x in zip(W0, pairs(v)):
        new = z3.Const(eng.name(g), ARR)
        st.assume(ForAll([k], Select(new, k) == If(And(n <= k, k < n + v.n), Select(x, k - n), Select(s.ghost(g), k)), patterns=[Select(new, k)]))
        s.set_ghost(g, new)
    st.assume(v.n >= 0)
    s.set_ghost("w.n", n + v.n)
    return void(st)


def m_async(eng, st, base, a, e):
    """The task runs at once; no other task may be running."""
    s = SpecView(eng, st)
    eng.oblige(st, "one task at a time", Not(s.ghost("running")), e.get("l"), "pre")
    out = []
    for s2, _ in eng.apply(st, eng.rv(st, a[-1]), [], e):
        SpecView(eng, s2).set_ghost("running", BoolVal(True))
        out.append((s2, ("val", BoolVal(True))))
    return out


def m_valid(eng, st, base, a, e):
    return V(st, eng.rv(st, base))


def m_get(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    eng.oblige(st, "there is a task to wait for", eng.read(st, p), e.get("l"), "pre")
    eng.write(st, p, BoolVal(False))
    SpecView(eng, st).set_ghost("running", BoolVal(False))
    return void(st)


def m_char(eng, st, base, a, e):
    i = eng.rv(st, a[0])
    c = Int(eng.name("char"))
    st.assume(Implies(i == 0, c == FIRST(eng.rv(st, base))))
    return R(st, eng.new_tmp(st, c, "char"))


def m_len(eng, st, base, a, e):
    x = LEN(eng.rv(st, base))
    st.assume(x >= 0)
    return V(st, x)


def m_less(eng, st, base, a, e):
    return V(st, Bool(eng.name("less")))


def m_opaque(eng, st, base, a, e):
    return V(st, Opaque("text"))


def m_future(eng, st, base, a, e):
    return V(st, eng.rv(st, a[0]) if a else BoolVal(False))


class Writing(Contract):
    tu = OVER + '#include "@REPO@/src/index/VocabularyGeneratorImpl.h"\n'
    type_kinds = {"std::basic_string": "int", "ad_utility::MmapVector": "opaque", "std::future": "bool"}
    models = {"std::operator!=": m_cmp(True), "std::operator==": m_cmp(False), "std::operator<": m_less, "std::operator<=>": m_opaque, "std::basic_string::operator=": m_set, "std::basic_string::operator[]": m_char,
              "std::basic_string::size": m_len, "std::basic_string::<ctor>": m_new_word, "std::basic_string::<conv>": m_opaque, "std::__basic_future::valid": m_valid, "std::future::get": m_get, "std::future::<ctor>": m_future, "std::future::operator=": m_set,
              "std::async": m_async, "RdfEscaping::escapeNewlinesAndBackslashes": m_opaque, "ad_utility::MmapVector::push_back": m_push_pair, "VocabularyMerger::doActualWrite": m_write,
              "std::basic_string::empty": lambda eng, st, base, a, e: V(st, LEN(eng.rv(st, base)) == 0)}
    assumptions = ["contract of comparing strings", "a task that was started has the effect of running at once if no other task runs before it is waited for"]
    param_names = ["buffer"]

    def ghosts(self, eng):
        return {"w.n": Int("w.n"), "w.file": z3.Const("w.file", ARR), "w.part": z3.Const("w.part", ARR), "w.glob": z3.Const("w.glob", ARR), "running": BoolVal(False)}

    def was(self, s, g):
        return s.eng.old_state.vars["g:" + g]

    def kept(self, s):
        k = Int("k!o")
        return ("what was written stays", And(s.ghost("w.n") >= self.was(s, "w.n"), *[ForAll([k], Implies(And(0 <= k, k < self.was(s, "w.n")), Select(s.ghost(g), k) == Select(self.was(s, g), k)), patterns=[Select(s.ghost(g), k)]) for g in W0]))


class Writes(Writing):
    """All pairs are appended to the arrays of their files, in their order."""
    function = "VocabularyMerger::doActualWrite"
    models = {k: v for k, v in Writing.models.items() if k != "VocabularyMerger::doActualWrite"}

    def requires(self, s):
        k, b = Int("k!o"), s("buffer")
        return [("written before", s.ghost("w.n") >= 0), ("files exist", ForAll([k], Implies(And(0 <= k, k < b.n), Select(pairs(b)[0], k) < s("this._idVecs").n), patterns=[Select(pairs(b)[0], k)]))]

    def done(self, s, n):
        k, o = Int("k!o"), self.was(s, "w.n")
        return [("number of pairs", s.ghost("w.n") == o + n), self.kept(s),
                ("pairs in their order", And(*[ForAll([k], Implies(And(o <= k, k < o + n), Select(s.ghost(g), k) == Select(x, k - o)), patterns=[Select(s.ghost(g), k)]) for g, x in zip(W0, pairs(s("buffer")))]))]

    def ensures(self, s, ret):
        return self.done(s, s.old("buffer").n)

    def __init__(self):
        self.loops = {0: dict(inv=lambda s, e: [("position", And(0 <= s("@idx"), s("@idx") <= s.old("buffer").n))] + self.done(s, s("@idx")), name="pairs")}


NUM = z3.Function("number_of_word", INT, INT)
STEP = z3.Function("step", INT, BOOL)   # where the definitions below are used
SEEN = z3.Function("language_seen", INT, BOOL)
LOWER = z3.Function("language_lower", INT, INT)
UPPER = z3.Function("language_upper", INT, INT)


class Batch(Writing):
    """Words get consecutive numbers, equal words the same one; each number is written for each file."""
    function = "VocabularyMerger::writeQueueWordsToIdVec"

    def word(self, b, i):
        return Select(b.data.get("_value"), i)

    def requires(self, s):
        b, i = s("buffer"), Int("i!b")
        t = s("this._totalWritten")
        prev = lambda i: If(i == 0, s("this._lastWritten"), self.word(b, i - 1))
        new = lambda i: self.word(b, i) != prev(i)
        lang = lambda i: And(new(i), LEN(self.word(b, i)) > 0, FIRST(self.word(b, i)) == ord("@"))
        return [("written before", s.ghost("w.n") >= 0), ("buffer", And(s("this._bufferSize") > 0, t < 2 ** 60)), ("the first word is new", Implies(And(t == 0, b.n > 0), new(IntVal(0)))),
                ("numbers", And(NUM(-1) == t - 1, ForAll([i], Implies(And(0 <= i, i < b.n), And(NUM(i) == NUM(i - 1) + If(new(i), 1, 0))), patterns=[STEP(i)]), ForAll([i], STEP(i), patterns=[STEP(i)]))),
                ("language tags", And(SEEN(-1) == s("this._firstLangPredSeen"), LOWER(-1) == s("this._langPredLowerBound"), UPPER(-1) == s("this._langPredUpperBound"),
                 ForAll([i], Implies(And(0 <= i, i < b.n), And(SEEN(i) == Or(SEEN(i - 1), lang(i)), LOWER(i) == If(And(lang(i), Not(SEEN(i - 1))), NUM(i), LOWER(i - 1)), UPPER(i) == If(lang(i), NUM(i) + 1, UPPER(i - 1)))), patterns=[STEP(i)])))]

    def entry(self, s, k, f, p, g):
        b = s.old("buffer")
        return And(f == Select(b.data.get("_partialFileId"), k), p == Select(b.data.get("_partialWordId"), k), g == NUM(k))

    def state(self, s, n):
        b, o, k = s.old("buffer"), self.was(s, "w.n"), Int("k!o")
        w = s.ghost("w.n")
        return [self.kept(s), ("written words have their numbers", ForAll([k], Implies(And(o <= k, k < w), self.entry(s, k - o, *[Select(s.ghost(g), k) for g in W0])), patterns=[Select(s.ghost("w.glob"), k)])),
                ("number of words", And(s("this._totalWritten") == NUM(n - 1) + 1)), ("last word", s("this._lastWritten") == If(n == 0, s.old("this._lastWritten"), self.word(b, n - 1))),
                ("language tags", And(s("this._firstLangPredSeen") == SEEN(n - 1), s("this._langPredLowerBound") == LOWER(n - 1), s("this._langPredUpperBound") == UPPER(n - 1)))]

    def ensures(self, s, ret):
        n = s.old("buffer").n
        return self.state(s, n) + [("everything is written", s.ghost("w.n") == self.was(s, "w.n") + n)]

    def on_throw(self, s):
        return []

    def __init__(self):
        def inv(s, e):
            n, v = s("@idx"), s("writeBuf")
            o, w, k = self.was(s, "w.n"), s.ghost("w.n"), Int("k!b")
            return [("step", STEP(n)), ("position", And(0 <= n, n <= s.old("buffer").n, w + v.n == o + n, w >= o, v.n >= 0)), ("tasks", s("writeFut") == s.ghost("running")),
                    ("count", And(NUM(n - 1) <= s.old("this._totalWritten") + n, NUM(n - 1) >= s.old("this._totalWritten") - 1, Implies(n > 0, NUM(n - 1) >= 0))),
                    ("collected words have their numbers", ForAll([k], Implies(And(0 <= k, k < v.n), self.entry(s, k + w - o, *[Select(x, k) for x in pairs(v)])), patterns=[Select(pairs(v)[2], k)]))] + self.state(s, n)
        self.loops = {0: dict(inv=inv, name="words")}


CONTRACTS = [Mapping, Writes, Batch]
