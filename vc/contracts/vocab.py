"""Looking up words in vocabularies."""
from spec import *
from models import V, void, R, M
from engine import Unsupported, Opaque, Rec, Vec

KEY = z3.Function("key_of_word", INT, INT, INT)          # (level, word): words are ordered by it
WORD = z3.Function("expanded", INT, INT)                 # the word behind a stored one
STARTS = z3.Function("starts_with", INT, INT, BOOL)      # (prefix, word) on the primary level
BEYOND = z3.Function("first_beyond", INT, INT)           # the first possible value behind all words with a prefix
EXTERNAL = z3.Function("should_be_external", INT, BOOL)
LEN = z3.Function("length_of_word", INT, INT)
PRIMARY, TOTAL = 0, 5
OVER = '#include "@REPO@/src/index/Vocabulary.cpp"\n'


def axioms():
    a, b, p = Int("a!x"), Int("b!x"), Int("p!x")
    return [("one word per key on the last level", ForAll([a, b], Implies(KEY(TOTAL, a) == KEY(TOTAL, b), a == b), patterns=[z3.MultiPattern(KEY(TOTAL, a), KEY(TOTAL, b))])),
            ("words with a prefix", ForAll([p, a], STARTS(p, a) == And(KEY(PRIMARY, p) <= KEY(PRIMARY, a), KEY(PRIMARY, a) < KEY(PRIMARY, BEYOND(p))), patterns=[STARTS(p, a)])),
            ("levels refine each other", ForAll([a, b, p], Implies(And(0 <= p, p <= TOTAL, KEY(TOTAL, a) <= KEY(TOTAL, b)), KEY(p, a) <= KEY(p, b)), patterns=[z3.MultiPattern(KEY(p, a), KEY(p, b))])),
            ("a word starts with itself", ForAll([p], KEY(PRIMARY, p) < KEY(PRIMARY, BEYOND(p)), patterns=[BEYOND(p)])),
            ("lengths", ForAll([a], LEN(a) >= 0, patterns=[LEN(a)]))]


def m_less(eng, st, base, a, e):
    x, y = (eng.rv(st, z) for z in a[:2])
    # the transformed values of the text vocabulary are always compared on the primary level
    l = IntVal(PRIMARY) if any("SortKey" in t for t in map(str, e["c"].get("pt", []))) else eng.rv(st, a[2]) if len(a) > 2 else IntVal(3)
    return V(st, KEY(l, x) < KEY(l, y))


def m_compare(eng, st, base, a, e):
    x, y = (eng.rv(st, z) for z in a[:2])
    l = eng.rv(st, a[2]) if len(a) > 2 else IntVal(3)
    r = Int(eng.name("cmp"))
    st.assume(And((r < 0) == (KEY(l, x) < KEY(l, y)), (r > 0) == (KEY(l, x) > KEY(l, y)), r > -2 ** 31, r < 2 ** 31))
    return V(st, r)


def m_beyond(eng, st, base, a, e):
    return V(st, BEYOND(eng.rv(st, a[0])))


def m_expand(eng, st, base, a, e):
    return V(st, WORD(eng.rv(st, a[0])))


def m_same(neg):
    def f(eng, st, base, a, e):
        xs = ([base] if base is not None else []) + list(a)
        x, y = (eng.rv(st, z) for z in xs)
        return V(st, x != y if neg else x == y)
    return f


def m_view(eng, st, base, a, e):
    return V(st, eng.rv(st, base))


def m_copy(eng, st, base, a, e):
    pt = [eng.types[t]["s"] for t in e["c"]["pt"]]
    if len(a) == 1 or len(a) == 2 and "alloc" in pt[1].lower():
        return V(st, eng.rv(st, a[0]))
    raise Unsupported("a new word")


def m_should(eng, st, base, a, e):
    return V(st, EXTERNAL(eng.rv(st, a[0])))


def m_length(eng, st, base, a, e):
    return V(st, LEN(eng.rv(st, base)))


def m_empty(eng, st, base, a, e):
    return V(st, LEN(eng.rv(st, base)) == 0)


def models_of(cls, comp):
    ms = {"std::basic_string::<conv>": m_view, "std::basic_string::<ctor>": m_copy, "std::operator==": m_same(False), "std::operator!=": m_same(True),
          "std::basic_string::size": m_length, "std::basic_string::empty": m_empty, "std::basic_string_view::<ctor>": m_copy,
          comp + "::operator()": m_less, comp + "::compare": m_compare, comp + "::transformToFirstPossibleBiggerValue": m_beyond,
          cls + "::expandPrefix": m_expand, cls + "::shouldBeExternalized": m_should}
    return ms


KINDS = {"std::basic_string": "int", "std::basic_string_view": "int", "CompressedString": "int", "LocaleManager::SortKey": "int", "TripleComponentComparator::SplitVal": "int"}


class Lookup(Contract):
    """Common to all: the words of the vocabulary are sorted and different."""
    tu = OVER
    type_kinds = KINDS
    compressed = True
    arg = "word"
    assumptions = ["the order of words at each collation level is a total preorder, refined by the next level, under which different words differ on the last level (C17, C18: bounded runs)",
                   "expanding a compressed word gives the word that was stored (bounded runs)"]

    def word(self, s, i):
        w = Select(s("this._words").data, i)
        return WORD(w) if self.compressed else w

    def requires(self, s):
        i, j = Int("i!w"), Int("j!w")
        n = s("this._words").n
        return axioms() + [("size", And(n >= 0, n < 2 ** 40)),
                           ("the words are sorted", ForAll([i, j], Implies(And(0 <= i, i < j, j < n), KEY(TOTAL, self.word(s, i)) < KEY(TOTAL, self.word(s, j))),
                                                           patterns=[z3.MultiPattern(Select(s("this._words").data, i), Select(s("this._words").data, j))]))]

    def pat(self, s, i):
        return [Select(s("this._words").data, i)]

    def all_words(self, s, f, what, lo=0, hi=None):
        i = Int("i!e")
        hi = s("this._words").n if hi is None else hi
        return (what, ForAll([i], Implies(And(lo <= i, i < hi), f(self.word(s, i))), patterns=self.pat(s, i)))


class Lower(Lookup):
    """The first word that is not smaller, at the given level."""
    function = "Vocabulary::lower_bound"
    param_names = ["word", "level"]

    def requires(self, s):
        return super().requires(s) + [("level", And(0 <= s("level"), s("level") <= TOTAL))]

    def ensures(self, s, ret):
        w, l = s.old("word"), s.old("level")
        return [("range", And(0 <= ret, ret <= s("this._words").n)),
                self.all_words(s, lambda x: KEY(l, x) < KEY(l, w), "words before are smaller", hi=ret),
                self.all_words(s, lambda x: KEY(l, x) >= KEY(l, w), "the others are not", lo=ret)]


class Upper(Lower):
    """The first word that is greater, at the given level."""
    function = "Vocabulary::upper_bound"

    def ensures(self, s, ret):
        w, l = s.old("word"), s.old("level")
        return [("range", And(0 <= ret, ret <= s("this._words").n)),
                self.all_words(s, lambda x: KEY(l, x) <= KEY(l, w), "words before are not greater", hi=ret),
                self.all_words(s, lambda x: KEY(l, x) > KEY(l, w), "the others are greater", lo=ret)]


class ForLT(Lower):
    function = "Vocabulary::getValueIdForLT"
    param_names = ["indexWord", "level"]

    def ensures(self, s, ret):
        w, l = s.old("indexWord"), s.old("level")
        return [self.all_words(s, lambda x: KEY(l, x) < KEY(l, w), "identifiers below belong to smaller words", hi=ret),
                self.all_words(s, lambda x: KEY(l, x) >= KEY(l, w), "the others do not", lo=ret)]


class ForGE(ForLT):
    function = "Vocabulary::getValueIdForGE"


class ForLE(ForLT):
    """Identifiers up to the result belong to words that are not greater (if there are any)."""
    function = "Vocabulary::getValueIdForLE"

    def ensures(self, s, ret):
        w, l = s.old("indexWord"), s.old("level")
        small = lambda x: KEY(l, x) <= KEY(l, w)
        n = s("this._words").n
        return [("range", And(0 <= ret, Or(ret < n, n == 0))),
                self.all_words(s, lambda x: Not(small(x)), "identifiers above belong to greater words", lo=ret + 1),
                ("identifiers up to it belong to words that are not greater, if there are any",
                 Implies(And(n > 0, small(self.word(s, IntVal(0)))), self.all_words(s, small, "", hi=ret + 1)[1]))]


class ForGT(ForLE):
    function = "Vocabulary::getValueIdForGT"


class GetId(Lookup):
    """A word is found iff it is stored, under its number."""
    function = "Vocabulary::getId"
    param_names = ["word", "id"]

    def ext(self, eng, st, base, a, e):
        s = SpecView(eng, st)
        p = eng.as_ptr(st, a[1]) if not hasattr(eng.rv(st, a[1]), "ext") else eng.rv(st, a[1])
        r = Int(eng.name("external"))
        found = z3.Bool(eng.name("found"))
        w = eng.rv(st, a[0])
        n = s.ghost("ext.n")
        k = Int("k!x")
        st.assume(Implies(found, And(0 <= r, r < n, Select(s.ghost("ext.word"), r) == w)))
        st.assume(Implies(Not(found), ForAll([k], Implies(And(0 <= k, k < n), Select(s.ghost("ext.word"), k) != w), patterns=[Select(s.ghost("ext.word"), k)])))
        st.assume(And(0 <= r, r <= n))
        eng.write(st, p, r)
        return V(st, found)

    def ghosts(self, eng):
        return {"ext.n": Int("external_size"), "ext.word": z3.Const("external_words", ARR)}

    def requires(self, s):
        return super().requires(s) + [("external words", And(0 <= s.ghost("ext.n"), s.ghost("ext.n") < 2 ** 40))]

    def ensures(self, s, ret):
        w, id, n, m = s.old("word"), s("id"), s("this._words").n, s.ghost("ext.n")
        k = Int("k!e")
        external = And(EXTERNAL(w), n <= id, id < n + m, Select(s.ghost("ext.word"), id - n) == w)
        internal = And(0 <= id, id < n, self.word(s, id) == w)
        return [("a found word has this number", Implies(ret, Or(external, internal))),
                ("a word is not found if it is not stored", Implies(Not(ret), And(self.all_words(s, lambda x: x != w, "")[1],
                 Implies(EXTERNAL(w), ForAll([k], Implies(And(0 <= k, k < m), Select(s.ghost("ext.word"), k) != w), patterns=[Select(s.ghost("ext.word"), k)])))))]

    def __init__(self):
        self.models = dict(self.models)
        self.models["ExternalVocabulary::getId"] = self.ext


class PrefixRange(Lookup):
    """Exactly the words with a prefix are in its range."""
    function = "Vocabulary::prefix_range"
    param_names = ["prefix"]

    def ensures(self, s, ret):
        w = s.old("prefix")
        lo, hi = ret.get("first"), ret.get("second")
        inside = lambda f, what, a, b: self.all_words(s, lambda x: Implies(LEN(w) > 0, f(x)), what, a, b)
        n = s("this._words").n
        return [("range", And(0 <= lo, lo <= hi, hi <= n)), ("all words start with nothing", Implies(LEN(w) == 0, And(lo == 0, hi == n))),
                inside(lambda x: STARTS(w, x), "words in the range start with it", lo, hi), inside(lambda x: Not(STARTS(w, x)), "words before do not", 0, lo),
                inside(lambda x: Not(STARTS(w, x)), "words behind do not", hi, n)]


class TextRange(Lookup):
    """The range of the words with a prefix, both ends included."""
    function = "Vocabulary::getIdRangeForFullTextPrefix"
    param_names = ["word", "range"]

    def m_start(self, eng, st, base, a, e):
        k, n = (eng.rv(st, x) for x in a[:2])
        w = eng.rv(st, base)
        eng.oblige(st, "all but the last character", And(k == 0, n == LEN(w) - 1), e.get("l"), "pre")
        return V(st, START(w))

    def last(self, eng, st, base, a, e):
        w = eng.rv(st, base)
        eng.oblige(st, "the last character", eng.rv(st, a[0]) == LEN(w) - 1, e.get("l"), "pre")
        return V(st, LASTC(w))

    def requires(self, s):
        w = s("word")
        return super().requires(s) + [("a prefix", And(LEN(w) > 1, LEN(w) < 2 ** 60, LASTC(w) == ord("*"), LEN(START(w)) == LEN(w) - 1))]

    def ensures(self, s, ret):
        w = START(s.old("word"))
        lo, hi = s("range").get("_first"), s("range").get("_last")
        n = s("this._words").n
        here = lambda i: And(ret, lo <= i, i <= hi)
        i = Int("i!r")
        return [("range", Implies(ret, And(0 <= lo, lo <= hi, hi < n))),
                ("exactly the words that start with it", ForAll([i], Implies(And(0 <= i, i < n), here(i) == STARTS(w, self.word(s, i))), patterns=self.pat(s, i)))]

    def __init__(self):
        self.models = dict(self.models)
        self.models["std::basic_string::substr"] = self.m_start
        self.models["std::basic_string::operator[]"] = self.last


START = z3.Function("all_but_last", INT, INT)
LASTC = z3.Function("last_character", INT, INT)


def both(cls):
    out = []
    for name, comp, comp_name in (("Text", False, "SimpleStringComparator"), ("Rdf", True, "TripleComponentComparator")):
        ns = dict(compressed=comp, models=dict(models_of("Vocabulary", comp_name)), instance=comp_name, __doc__=cls.__doc__)
        out.append(type(name + cls.__name__, (cls,), ns))
    return out


CONTRACTS = []
for _c in (Lower, Upper, ForLT, ForGE, ForLE, ForGT, GetId, PrefixRange, TextRange):
    for _k in both(_c):
        globals()[_k.__name__] = _k
        CONTRACTS.append(_k)


# ---------------------------------------------------------------- words on disk
class ExtSearch(Contract):
    """The position of a word, or the one where it would be."""
    tu = '#include "@REPO@/src/index/ExternalVocabulary.cpp"\n'
    function = "ExternalVocabulary::binarySearchInVocab"
    param_names = ["word"]
    type_kinds = KINDS
    instance = "TripleComponentComparator"
    assumptions = ["reading the k-th word from the file gives the k-th word written (bounded runs)"]

    def at(self, eng, st, base, a, e):
        s = SpecView(eng, st)
        k = eng.rv(st, a[0])
        eng.oblige(st, "words are read from inside the vocabulary", And(0 <= k, k < s("this._size")), e.get("l"), "pre")
        return V(st, Select(s.ghost("ext.word"), k))

    def ghosts(self, eng):
        return {"ext.word": z3.Const("external_words", ARR)}

    def requires(self, s):
        i, j = Int("i!w"), Int("j!w")
        n, x = s("this._size"), s.ghost("ext.word")
        return axioms() + [("size", And(n >= 0, n < 2 ** 40)),
                           ("the words are sorted", ForAll([i, j], Implies(And(0 <= i, i < j, j < n), KEY(TOTAL, Select(x, i)) < KEY(TOTAL, Select(x, j))), patterns=[z3.MultiPattern(Select(x, i), Select(x, j))]))]

    def side(self, s, less, lo, hi):
        i, x, w = Int("i!s"), s.ghost("ext.word"), s.old("word")
        k = KEY(TOTAL, Select(x, i))
        return ForAll([i], Implies(And(lo <= i, i < hi), k < KEY(TOTAL, w) if less else k > KEY(TOTAL, w)), patterns=[Select(x, i)])

    def ensures(self, s, ret):
        n, x = s("this._size"), s.ghost("ext.word")
        hit = And(ret < n, Select(x, ret) == s.old("word"))
        return [("range", And(0 <= ret, ret <= n)), ("the word is here or nowhere", Or(hit, And(self.side(s, True, 0, ret), self.side(s, False, ret, n))))]

    def __init__(self):
        self.models = dict(models_of("Vocabulary", "TripleComponentComparator"))
        self.models["ExternalVocabulary::operator[]"] = self.at
        inv = lambda s, e: [("bounds", And(0 <= s("lower"), s("lower") <= s("upper"), s("upper") <= s("this._size"))),
                            ("words before are smaller", self.side(s, True, 0, s("lower"))), ("words behind are greater", self.side(s, False, s("upper"), s("this._size")))]
        self.loops = {0: dict(inv=inv, name="search")}


class ExtGetId(ExtSearch):
    """A word is found iff it is stored, under its number."""
    function = "ExternalVocabulary::getId"
    param_names = ["word", "id"]

    def ensures(self, s, ret):
        n, x, w, k = s("this._size"), s.ghost("ext.word"), s.old("word"), Int("k!e")
        id = s("id")
        return [("a found word has this number", Implies(ret, And(0 <= id, id < n, Select(x, id) == w))),
                ("a word is not found if it is not stored", Implies(Not(ret), ForAll([k], Implies(And(0 <= k, k < n), Select(x, k) != w), patterns=[Select(x, k)])))]


# ---------------------------------------------------------------- prefix compression
JOIN = z3.Function("joined", INT, INT, INT)              # two words one after the other
CHAR = z3.Function("of_character", INT, INT)             # the word of one character
TAIL = z3.Function("without_first", INT, INT, INT)       # a word without its first characters
FIRST = z3.Function("first_character", INT, INT)
BEGINS = z3.Function("begins_with", INT, INT, BOOL)      # (word, prefix), byte by byte
MIN, NUM = 129, 126


def is_char(eng, t):
    return eng.types[t]["s"].replace("const", "").strip(" &") == "char"


def m_join(eng, st, base, a, e):
    x, y = (CHAR(eng.rv(st, z)) if is_char(eng, t) else eng.rv(st, z) for z, t in zip(a, e["c"]["pt"]))
    return V(st, JOIN(x, y))


def m_tail(eng, st, base, a, e):
    w, k = eng.rv(st, base), eng.rv(st, a[0])
    eng.oblige(st, "the rest of a word begins inside it", And(0 <= k, k <= LEN(w)), e.get("l"), "pre")
    return V(st, TAIL(w, k))


def m_same_word(eng, st, base, a, e):
    return V(st, eng.rv(st, a[0] if a else base))


def m_first(eng, st, base, a, e):
    eng.oblige(st, "the first character", eng.rv(st, a[0]) == 0, e.get("l"), "pre")
    return V(st, FIRST(eng.rv(st, base)))


def m_begins(eng, st, base, a, e):
    return V(st, BEGINS(eng.rv(st, a[0]), eng.rv(st, a[1])))


def unpack(s, w):
    """The word behind a compressed one."""
    c = FIRST(w)
    c = If(c < 0, c + 256, c) - MIN
    return If(And(0 <= c, c < NUM), JOIN(Select(s("this._prefixMap").data, c), TAIL(w, 1)), TAIL(w, 1))


class Packing(Contract):
    tu = OVER
    type_kinds = KINDS
    instance = "TripleComponentComparator"
    assumptions = ["contracts of joining strings, of their parts and of finding a prefix in a string"]
    models = {"std::operator+": m_join, "ad_utility::operator+": m_join, "operator+": m_join, "std::basic_string::substr": m_tail, "std::basic_string_view::substr": m_tail,
              "std::basic_string::<conv>": m_view, "std::basic_string::<ctor>": m_copy, "std::basic_string_view::<ctor>": m_copy, "std::basic_string::size": m_length, "std::basic_string_view::size": m_length,
              "CompressedString::toStringView": m_same_word, "CompressedString::fromString": m_same_word, "CompressedString::empty": m_empty, "CompressedString::operator[]": m_first,
              "CompressedString::<ctor>": m_copy, "ad_utility::startsWith": m_begins}

    def laws(self):
        c, w, p = Int("c!l"), Int("w!l"), Int("p!l")
        return [("laws of words", And(ForAll([c, w], And(FIRST(JOIN(CHAR(c), w)) == c, TAIL(JOIN(CHAR(c), w), 1) == w), patterns=[JOIN(CHAR(c), w)]),
                                      ForAll([w, p], Implies(BEGINS(w, p), And(JOIN(p, TAIL(w, LEN(p))) == w, LEN(p) <= LEN(w))), patterns=[BEGINS(w, p)]),
                                      ForAll([w], LEN(w) >= 0, patterns=[LEN(w)])))]


class Expand(Packing):
    """The first character of a compressed word stands for its prefix."""
    function = "Vocabulary::expandPrefix"
    param_names = ["word"]

    def requires(self, s):
        c = FIRST(s("word"))
        return self.laws() + [("a compressed word is not empty", And(LEN(s("word")) >= 1, -128 <= c, c < 128)), ("table", s("this._prefixMap").n == NUM)]

    def ensures(self, s, ret):
        return [("the word behind it", ret == unpack(s, s.old("word")))]


def m_compress_inv(s):
    v, i = s("this._prefixVec"), Int("i!c")
    c = Select(v.data.get("_prefix"), i)
    u = If(c < 0, c + 256, c) - MIN
    return ForAll([i], Implies(And(0 <= i, i < v.n), And(-128 <= c, c < 128, 0 <= u, u < NUM, Select(s("this._prefixMap").data, u) == Select(v.data.get("_fulltext"), i))), patterns=[c])


class Compress(Packing):
    """What is compressed expands to the word again."""
    function = "Vocabulary::compressPrefix"
    param_names = ["word"]

    def requires(self, s):
        return self.laws() + [("table", And(s("this._prefixMap").n == NUM, s("this._prefixVec").n >= 0)), ("each code stands for its prefix", m_compress_inv(s))]

    def ensures(self, s, ret):
        return [("it expands to the word again", unpack(s, ret) == s.old("word"))]

    def __init__(self):
        self.loops = {0: dict(inv=lambda s, e: [("position", And(0 <= s("@idx"), s("@idx") <= s("this._prefixVec").n))], name="prefixes")}


def m_permute(eng, st, base, a, e):
    """Sorting permutes the elements (the order does not matter here)."""
    first, last = eng.rv(st, a[0]), eng.rv(st, a[1])
    p = first.base()
    v = eng.read(st, p)
    eng.oblige(st, "the whole container is sorted", And(first.idx() == 0, last.idx() == v.n), e.get("l"), "pre")
    u = z3.Const(eng.name("from"), ARR)
    k = Int("k!p")
    new = {}
    for f in ("_prefix", "_fulltext"):
        new[f] = z3.Const(eng.name("sorted"), v.data.get(f).sort())
    st.assume(ForAll([k], Implies(And(0 <= k, k < v.n), And(0 <= u[k], u[k] < v.n, *[Select(new[f], k) == Select(v.data.get(f), u[k]) for f in new])), patterns=[Select(new["_prefix"], k)]))
    d = v.data
    for f in new:
        d = d.set(f, new[f])
    eng.write(st, p, Vec(v.n, d, v.et, v.const_len))
    return void(st)


def m_assign(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    x = eng.rv(st, a[0])
    eng.write(st, p, x if is_z(x) else EMPTY)
    return R(st, p)


EMPTY = Int("the_empty_word")


def m_emplace(eng, st, base, a, e):
    if len(a) == 2:
        p = eng.as_ptr(st, base)
        et = eng.read(st, p).et
        c = eng.rv(st, a[0])
        c = c % 256
        rec = Rec(et, {"_prefix": If(c < 128, c, c - 256), "_fulltext": eng.rv(st, a[1])}, None, eng)
        a = [("val", rec)]
    return M["std::vector::push_back"](eng, st, base, a, e)


class Prefixes(Packing):
    """Each code stands for its prefix, however many prefixes there are."""
    function = "Vocabulary::initializePrefixes"
    param_names = ["prefixes"]
    overload = ["vector<"]
    models = dict(Packing.models, **{"std::sort": m_permute, "std::basic_string::operator=": m_assign, "std::vector::emplace_back": m_emplace})
    assumptions = Packing.assumptions + ["a codebook entry built in place has the given code and text"]

    def requires(self, s):
        return self.laws() + [("table", And(s("this._prefixMap").n == NUM, s("this._prefixVec").n >= 0)), ("prefixes", s("prefixes").n >= 0)]

    def ensures(self, s, ret):
        n = s.old("prefixes").n
        return [("number of codes", s("this._prefixVec").n == If(n < NUM, n, NUM)), ("each code stands for its prefix", m_compress_inv(s))]

    def __init__(self):
        def fill(s, e):
            n, v, i = s("prefixIdx"), s("this._prefixVec"), Int("i!f")
            return [("position", And(n == s("@idx"), 0 <= n, n <= NUM, n <= s("prefixes").n, v.n == n, s("this._prefixMap").n == NUM)),
                    ("codes count up", ForAll([i], Implies(And(0 <= i, i < n), And(Select(v.data.get("_prefix"), i) == If(i + MIN < 128, i + MIN, i + MIN - 256),
                     Select(v.data.get("_fulltext"), i) == Select(s("this._prefixMap").data, i))), patterns=[Select(v.data.get("_prefix"), i)]))]
        self.loops = {0: dict(inv=lambda s, e: [("table", And(s("this._prefixMap").n == NUM, 0 <= s("@idx"), s("@idx") <= NUM))], name="clear"), 1: dict(inv=fill, name="prefixes")}


class ShouldEntity(Packing):
    """A word is kept externally iff it begins with one of the prefixes."""
    function = "Vocabulary::shouldEntityBeExternalized"
    param_names = ["word"]

    def requires(self, s):
        return [("prefixes", s("this._externalizedPrefixes").n >= 0)]

    def hits(self, s, n):
        i, v = Int("i!h"), s("this._externalizedPrefixes")
        return z3.Exists([i], And(0 <= i, i < n, BEGINS(s.old("word"), Select(v.data, i))))

    def ensures(self, s, ret):
        return [("some prefix fits", ret == self.hits(s, s("this._externalizedPrefixes").n))]

    def __init__(self):
        self.loops = {0: dict(inv=lambda s, e: [("position", And(0 <= s("@idx"), s("@idx") <= s("this._externalizedPrefixes").n)), ("no prefix fits", Not(self.hits(s, s("@idx"))))], name="prefixes")}


class StartsWith(Contract):
    """A string begins with another iff all its characters agree."""
    tu = '#include "@REPO@/src/util/StringUtils.h"\n'
    function = "ad_utility::startsWith"
    param_names = ["text", "prefix"]
    overload = ["string_view", "string_view"]

    def requires(self, s):
        return [("lengths", And(s("text").n >= 0, s("prefix").n >= 0, s("text").n < 2 ** 60, s("prefix").n < 2 ** 60))]

    def agree(self, s, n):
        i = Int("i!a")
        return ForAll([i], Implies(And(0 <= i, i < n), Select(s.old("text").data, i) == Select(s.old("prefix").data, i)), patterns=[Select(s.old("text").data, i)])

    def ensures(self, s, ret):
        n = s.old("prefix").n
        return [("all characters agree", ret == And(n <= s.old("text").n, self.agree(s, n)))]

    def __init__(self):
        self.loops = {0: dict(inv=lambda s, e: [("position", And(0 <= s("i"), s("i") <= s.old("prefix").n)), ("so far", self.agree(s, s("i")))], name="characters")}


CONTRACTS += [ExtSearch, ExtGetId, Expand, Compress, Prefixes, ShouldEntity, StartsWith]
