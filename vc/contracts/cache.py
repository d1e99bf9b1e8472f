"""The cache of results: what it holds, what it counts and what it throws out.

Values are numbers with a size; 0 is no value.  Hash maps and the queue of
entries have assumed contracts over sets, numbers of elements and sums."""
from spec import *
from models import V, void, R, M
from engine import Unsupported, Rec

FC = "ad_utility::FlexibleCache::"
HS = "absl::container_internal::raw_hash_set::"
PQ = "ad_utility::HeapBasedPQ::"
SZ = z3.Function("size_of_value", INT, INT)
HK = z3.Function("key_of_handle", INT, INT)
BOOLS = z3.ArraySort(INT, BOOL)


def which(eng, st, base):
    """pin or acc"""
    p = eng.as_ptr(st, base)
    f = p.path[-1][1] if p.path else None
    if f not in ("_pinnedMap", "_accessMap"):
        raise Unsupported("another map")
    return "pin" if f == "_pinnedMap" else "acc"


def k_of(eng, st, x):
    return eng.rv(st, x)


def m_count(boolean):
    def f(eng, st, base, a, e):
        h = Select(SpecView(eng, st).ghost(which(eng, st, base) + ".has"), k_of(eng, st, a[0]))
        return V(st, h if boolean else If(h, IntVal(1), IntVal(0)))
    return f


def m_find(eng, st, base, a, e):
    k = k_of(eng, st, a[0])
    w = which(eng, st, base)
    h = Select(SpecView(eng, st).ghost(w + ".has"), k)
    v = st.vars["*" + w]
    return V(st, Ptr("*" + w, (("i", If(h, k, v.n)),)))


def m_end(eng, st, base, a, e):
    w = which(eng, st, base)
    return V(st, Ptr("*" + w, (("i", st.vars["*" + w].n),)))


def m_same(neg):
    def f(eng, st, base, a, e):
        xs = ([base] if base is not None else []) + list(a)
        x, y = (eng.rv(st, z) for z in xs)
        g = x.idx() == y.idx()
        return V(st, Not(g) if neg else g)
    return f


def m_arrow(eng, st, base, a, e):
    p = eng.rv(st, base)
    s = SpecView(eng, st)
    eng.oblige(st, "entry of the map exists", Select(s.ghost(p.root[1:] + ".has"), p.idx()), e.get("l"), "pre")
    return V(st, p)


def m_copy(eng, st, base, a, e):
    x = eng.rv(st, a[0]) if a else IntVal(0)
    return V(st, IntVal(0) if isinstance(x, Ptr) and x.root is None else x)


def m_sub(eng, st, base, a, e):
    """Access creates entries."""
    w, k, s = which(eng, st, base), k_of(eng, st, a[0]), SpecView(eng, st)
    has = s.ghost(w + ".has")
    h = Select(has, k)
    v = st.vars["*" + w]
    sec = v.data.get("second")
    eng.note_write("*" + w, (), "*")
    st.vars["*" + w] = Vec(v.n, v.data.set("second", Store(sec, k, If(h, Select(sec, k), IntVal(0)))), v.et, v.const_len)
    s.set_ghost(w + ".num", s.ghost(w + ".num") + If(h, IntVal(0), IntVal(1)))
    s.set_ghost(w + ".has", Store(has, k, BoolVal(True)))
    return R(st, Ptr("*" + w, (("i", k), ("f", "second"))))


def m_assign(eng, st, base, a, e):
    """Values in the map count for its size."""
    p, x = eng.as_ptr(st, base), eng.rv(st, a[0])
    s = SpecView(eng, st)
    if p.root == "*pin":
        s.set_ghost("pin.sum", s.ghost("pin.sum") - SZ(eng.read(st, p)) + SZ(x))
    eng.write(st, p, x)
    return R(st, p)


def m_erase(eng, st, base, a, e):
    w, s = which(eng, st, base), SpecView(eng, st)
    x = eng.rv(st, a[0])
    has = s.ghost(w + ".has")
    if isinstance(x, Ptr):
        eng.oblige(st, "entry to erase exists", And(BoolVal(x.root == "*" + w), Select(has, x.idx())), e.get("l"), "pre")
        x = x.idx()
    h = Select(has, x)
    st.assume(Implies(h, s.ghost(w + ".num") > 0))   # numbers and sums over finite sets
    if w == "pin":
        st.assume(Implies(h, s.ghost("pin.sum") >= SZ(Select(st.vars["*pin"].data.get("second"), x))))
        s.set_ghost("pin.sum", s.ghost("pin.sum") - If(h, SZ(Select(st.vars["*pin"].data.get("second"), x)), IntVal(0)))
    s.set_ghost(w + ".num", s.ghost(w + ".num") - If(h, IntVal(1), IntVal(0)))
    s.set_ghost(w + ".has", Store(has, x, BoolVal(False)))
    return V(st, If(h, IntVal(1), IntVal(0)))


def m_clear(eng, st, base, a, e):
    w, s = which(eng, st, base), SpecView(eng, st)
    s.set_ghost(w + ".has", z3.K(INT, BoolVal(False)))
    s.set_ghost(w + ".num", IntVal(0))
    if w == "pin":
        s.set_ghost("pin.sum", IntVal(0))
    return void(st)


def m_num(eng, st, base, a, e):
    return V(st, SpecView(eng, st).ghost(which(eng, st, base) + ".num"))


def m_deref(eng, st, base, a, e):
    x = eng.rv(st, base)
    eng.oblige(st, "there is a value", x != 0, e.get("l"), "pre")
    return V(st, x)


def m_size_getter(eng, st, base, a, e):
    return V(st, SZ(eng.rv(st, a[0])))


# the queue: handles with keys and values, the set of handles in it
def q_empty(eng, st, base, a, e):
    return V(st, SpecView(eng, st).ghost("q.num") == 0)


def q_size(eng, st, base, a, e):
    return V(st, SpecView(eng, st).ghost("q.num"))


def q_clear(eng, st, base, a, e):
    s = SpecView(eng, st)
    s.set_ghost("q.has", z3.K(INT, BoolVal(False)))
    s.set_ghost("q.num", IntVal(0))
    s.set_ghost("q.sum", IntVal(0))
    return void(st)


def q_insert(eng, st, base, a, e):
    s = SpecView(eng, st)
    x = eng.rv(st, a[1])
    h = Int(eng.name("handle"))
    v = x.get("mValue")
    st.assume(And(h > 0, Not(Select(s.ghost("q.has"), h)), HK(h) == x.get("mKey")))
    s.set_ghost("q.val", Store(s.ghost("q.val"), h, v))
    s.set_ghost("q.has", Store(s.ghost("q.has"), h, BoolVal(True)))
    s.set_ghost("q.num", s.ghost("q.num") + 1)
    s.set_ghost("q.sum", s.ghost("q.sum") + SZ(v))
    return V(st, h)


def out_of_queue(s, h):
    s.st.assume(And(s.ghost("q.num") > 0, s.ghost("q.sum") >= SZ(Select(s.ghost("q.val"), h))))   # numbers and sums over finite sets
    s.set_ghost("q.sum", s.ghost("q.sum") - SZ(Select(s.ghost("q.val"), h)))
    s.set_ghost("q.has", Store(s.ghost("q.has"), h, BoolVal(False)))
    s.set_ghost("q.num", s.ghost("q.num") - 1)


def q_erase(eng, st, base, a, e):
    s = SpecView(eng, st)
    h = eng.rv(st, a[0])
    eng.oblige(st, "handle is in the queue", Select(s.ghost("q.has"), h), e.get("l"), "pre")
    out_of_queue(s, h)
    s.set_ghost("q.val", Store(s.ghost("q.val"), h, IntVal(0)))
    return void(st)


def q_pop(eng, st, base, a, e):
    s = SpecView(eng, st)
    eng.oblige(st, "queue is not empty", s.ghost("q.num") > 0, e.get("l"), "pre")
    h = Int(eng.name("popped"))
    st.assume(And(h > 0, Select(s.ghost("q.has"), h)))
    out_of_queue(s, h)
    return V(st, h)


def q_update(eng, st, base, a, e):
    s = SpecView(eng, st)
    p = eng.rv(st, a[1])
    eng.oblige(st, "handle is in the queue", Select(s.ghost("q.has"), eng.read(st, p)), e.get("l"), "pre")
    return void(st)


def h_value(eng, st, base, a, e):
    s = SpecView(eng, st)
    h = eng.rv(st, base)
    t = next(i for i, ty in enumerate(eng.types) if ty["k"] == "rec" and ty["name"] == FC + "Entry")
    return R(st, eng.new_tmp(st, Rec(t, {"mKey": HK(h), "mValue": Select(s.ghost("q.val"), h)}, None, eng), "entry"))


def m_any(eng, st, base, a, e):
    return V(st, Int(eng.name("score")))


class Cache(Contract):
    tu = '''#include "@REPO@/src/util/Cache.h"
struct Val { size_t n; size_t size() const { return n; } };
using C = ad_utility::HeapBasedLRUCache<int, Val>;
size_t use(C& c, int k, std::shared_ptr<Val> v) { c.insert(k, v); c.insertPinned(k, v); c.erase(k); c.clearUnpinnedOnly(); c.clearAll(); c.setMaxNumEntries(k); return c.contains(k) + c.containsAndMakePinnedIfExists(k) + c.numNonPinnedEntries() + c.numPinnedEntries() + c[k]->size(); }
'''
    type_kinds = {"std::shared_ptr": "int", "ad_utility::HeapBasedPQ::Handle": "int", "ad_utility::HeapBasedPQ": "opaque", "absl::flat_hash_map": "opaque",
                  "std::chrono::time_point": "int", "Val": "int", HS + "iterator": "iter"}
    models = {HS + "count": m_count(False), HS + "contains": m_count(True), HS + "find": m_find, HS + "end": m_end, HS + "iterator::operator->": m_arrow, HS + "iterator::<ctor>": m_copy,
              HS + "clear": m_clear, HS + "size": m_num, HS + "erase": m_erase, "absl::container_internal::raw_hash_map::operator[]": m_sub,
              "absl::container_internal::operator!=": m_same(True), "absl::container_internal::operator==": m_same(False),
              "std::shared_ptr::operator=": m_assign, PQ + "Handle::operator=": m_assign, "std::shared_ptr::<ctor>": m_copy, PQ + "Handle::<ctor>": m_copy,
              "std::__shared_ptr_access::operator*": m_deref, "ad_utility::DefaultSizeGetter::operator()": m_size_getter,
              PQ + "empty": q_empty, PQ + "size": q_size, PQ + "clear": q_clear, PQ + "insert": q_insert, PQ + "erase": q_erase, PQ + "pop": q_pop, PQ + "updateKey": q_update,
              PQ + "Handle::value": h_value, PQ + "Handle::score": m_any, "ad_utility::detail::timeAsScore::operator()": m_any, "ad_utility::detail::timeUpdater::operator()": m_any,
              "std::chrono::time_point::<ctor>": m_any}
    assumptions = ["contracts of the hash maps and of the priority queue", "sizes of values add up to less than 2^60"]
    param_names = []
    maps = ("pin", "acc")

    def prepare(self, eng, st):
        for w in ("pin", "acc"):
            st.vars["*" + w] = Vec(Int(w + ".end"), Rec(0, {"first": z3.Const(w + ".first", ARR), "second": z3.Const(w + ".second", ARR)}, None, eng), 0, None)

    def ghosts(self, eng):
        g = {"pin.has": z3.Const("pin.has", BOOLS), "acc.has": z3.Const("acc.has", BOOLS), "pin.num": Int("pin.num"), "acc.num": Int("acc.num"), "pin.sum": Int("pin.sum"),
             "q.has": z3.Const("q.has", BOOLS), "q.num": Int("q.num"), "q.sum": Int("q.sum"), "q.val": z3.Const("q.val", ARR)}
        return g

    def get(self, s, w, k):
        return Select(s.st.vars["*" + w].data.get("second"), k)

    def inv(self, s):
        k, h = Int("k!m"), Int("h!m")
        g = s.ghost
        ph, ah, qh, qv = g("pin.has"), g("acc.has"), g("q.has"), g("q.val")
        return [("sizes", And(s("this._totalSizePinned") == g("pin.sum"), s("this._totalSizeNonPinned") == g("q.sum"))),
                ("numbers", And(g("acc.num") == g("q.num"), g("pin.num") >= 0, g("q.num") >= 0, g("pin.sum") >= 0, g("q.sum") >= 0)),
                ("no key is pinned and not", ForAll([k], Not(And(Select(ph, k), Select(ah, k))), patterns=[z3.MultiPattern(Select(ph, k), Select(ah, k))])),
                ("pinned keys have values", ForAll([k], Implies(Select(ph, k), self.get(s, "pin", k) != 0), patterns=[Select(ph, k)])),
                ("known keys are in the queue", ForAll([k], Implies(Select(ah, k), And(Select(qh, self.get(s, "acc", k)), HK(self.get(s, "acc", k)) == k)), patterns=[Select(ah, k)])),
                ("keys in the queue are known", ForAll([h], Implies(Select(qh, h), And(Select(ah, HK(h)), self.get(s, "acc", HK(h)) == h, Select(qv, h) != 0, h > 0)), patterns=[Select(qh, h)]))]

    def limits(self, s):
        n, m = s.ghost("q.num"), s.ghost("pin.num")
        return [("not too many entries", Or(n == 0, n + m <= s("this._maxNumEntries"))),
                ("not too large", Or(n == 0, s.ghost("q.sum") + s.ghost("pin.sum") <= s("this._maxSize")))]

    def bounds(self, s):
        k = Int("k!m")
        return [("sizes of values", And(SZ(0) == 0, ForAll([k], And(SZ(k) >= 0, SZ(k) < 2 ** 58), patterns=[SZ(k)]))),
                ("not too much", And(s.ghost("pin.sum") < 2 ** 59, s.ghost("q.sum") < 2 ** 59, s.ghost("pin.num") < 2 ** 50, s.ghost("q.num") < 2 ** 50)),
                ("ends of the maps", And(Int("pin.end") < -2 ** 40, Int("acc.end") < -2 ** 40))]

    def requires(self, s):
        return self.bounds(s) + self.inv(s) + self.limits(s)

    def was(self, s, w, k):
        return Select(s.eng.old_state.vars["g:" + w + ".has"], k)

    def now(self, s, w, k):
        return Select(s.ghost(w + ".has"), k)

    def value(self, s, k, old=False):
        """The value for a key: pinned or not."""
        st = s.eng.old_state if old else s.st
        pin, acc = (st.vars["*" + w].data.get("second") for w in ("pin", "acc"))
        return If(Select(st.vars["g:pin.has"], k), Select(pin, k), If(Select(st.vars["g:acc.has"], k), Select(st.vars["g:q.val"], Select(acc, k)), IntVal(0)))

    def pinned_kept(self, s, but=None):
        k = Int("k!k")
        c = self.was(s, "pin", k)
        if but is not None:
            c = And(c, k != but)
        return ("pinned values are kept", ForAll([k], Implies(c, And(self.now(s, "pin", k), self.value(s, k) == self.value(s, k, True))), patterns=[self.was(s, "pin", k), self.now(s, "pin", k)]))

    def others_same(self, s, but):
        k = Int("k!k")
        return ("other keys keep their values", ForAll([k], Implies(k != but, And(self.now(s, "pin", k) == self.was(s, "pin", k), self.now(s, "acc", k) == self.was(s, "acc", k), self.value(s, k) == self.value(s, k, True))),
                patterns=[self.now(s, "pin", k), self.now(s, "acc", k)]))

    def nothing_new(self, s, but=None):
        """No key appears from nowhere, no value changes."""
        k = Int("k!k")
        any_now = Or(self.now(s, "pin", k), self.now(s, "acc", k))
        any_was = Or(self.was(s, "pin", k), self.was(s, "acc", k))
        c = any_now if but is None else And(any_now, k != but)
        return ("no other key and no other value", ForAll([k], Implies(c, And(any_was, self.value(s, k) == self.value(s, k, True), Implies(self.now(s, "pin", k), self.was(s, "pin", k)))),
                patterns=[self.now(s, "pin", k), self.now(s, "acc", k)]))

    def fits(self, s, st):
        g = lambda n: st.vars["g:" + n]
        return And(g("q.num") + g("pin.num") <= s("this._maxNumEntries"), g("q.sum") + g("pin.sum") <= s("this._maxSize"))

    def shrunk(self, s, b):
        """Only entries that are not pinned were thrown out since state b, and only if there was a reason."""
        k, h = Int("k!s"), Int("h!s")
        st = s.st
        g, o = (lambda n: st.vars["g:" + n]), (lambda n: b.vars["g:" + n])
        acc, oacc = st.vars["*acc"].data.get("second"), b.vars["*acc"].data.get("second")
        r = [("entries are only thrown out", ForAll([k], Implies(Select(g("acc.has"), k), And(Select(o("acc.has"), k), Select(acc, k) == Select(oacc, k))), patterns=[Select(g("acc.has"), k)])),
             ("fewer entries", And(g("q.num") <= o("q.num"), g("q.sum") <= o("q.sum"), g("pin.num") == o("pin.num"), g("pin.sum") == o("pin.sum"))),
             ("nothing is thrown out without a reason", Implies(self.fits(s, b), And(g("acc.has") == o("acc.has"), g("q.has") == o("q.has")))),
             ("pinned entries stay", And(g("pin.has") == o("pin.has"), st.vars["*pin"].data.get("second") == b.vars["*pin"].data.get("second"), g("q.val") == o("q.val")))]
        return r

    def __init__(self):
        self.loops = {0: dict(inv=lambda s, e: self.inv(s) + self.shrunk(s, s.entry_st), name="throw out")} if getattr(self, "shrinks", False) else {}


class Shrink(Cache):
    """Entries are thrown out until the limits hold."""
    function = FC + "shrinkToFit"
    shrinks = True

    def requires(self, s):
        return self.bounds(s) + self.inv(s)

    def ensures(self, s, ret):
        return self.inv(s) + self.limits(s) + self.shrunk(s, s.eng.old_state)


class SetLimit(Shrink):
    """Another limit for the number of entries."""
    function = FC + "setMaxNumEntries"
    param_names = ["maxNumEntries"]

    def ensures(self, s, ret):
        return [("limit", s("this._maxNumEntries") == s.old("maxNumEntries"))] + self.inv(s) + self.limits(s) + self.shrunk(s, s.eng.old_state)


class Insert(Cache):
    """A value for a new key."""
    function = FC + "insert"
    overload = ["int", "std::shared_ptr"]
    param_names = ["key", "valPtr"]
    shrinks = True

    def requires(self, s):
        return Cache.requires(self, s) + [("there is a value", s("valPtr") > 0), ("key", And(s("key") > -2 ** 31))]

    def was_known(self, s):
        k = s.old("key")
        return Or(self.was(s, "pin", k), self.was(s, "acc", k))

    def too_large(self, s):
        return SZ(s.old("valPtr")) > s.old("this._maxSizeSingleEntry")

    def unchanged(self, s):
        o = s.eng.old_state
        return And(*[s.ghost(g) == o.vars["g:" + g] for g in ("pin.has", "acc.has", "q.has", "pin.num", "q.num", "pin.sum", "q.sum")])

    def ensures(self, s, ret):
        k, v, o = s.old("key"), s.old("valPtr"), s.eng.old_state
        g = lambda n: o.vars["g:" + n]
        room = And(g("q.num") + g("pin.num") + 1 <= s.old("this._maxNumEntries"), g("q.sum") + g("pin.sum") + SZ(v) <= s.old("this._maxSize"))
        j = Int("k!k")
        return self.inv(s) + self.limits(s) + [
            ("the key was not known", Not(self.was_known(s))),
            ("values that are too large are not kept", Implies(self.too_large(s), And(ret == 0, self.unchanged(s)))),
            ("the value is returned", Implies(Not(self.too_large(s)), ret == v)),
            ("the key has this value or none", Or(self.value(s, k) == v, And(self.value(s, k) == 0, Not(self.now(s, "acc", k)), Not(self.now(s, "pin", k))))),
            ("with enough room the value is kept", Implies(And(room, Not(self.too_large(s))), self.value(s, k) == v)),
            ("with enough room all others are kept", Implies(room, ForAll([j], Implies(And(j != k, self.was(s, "acc", j)), self.now(s, "acc", j)), patterns=[self.was(s, "acc", j), self.now(s, "acc", j)]))),
            self.pinned_kept(s), self.nothing_new(s, k)]

    def on_throw(self, s):
        return [("the key was known", self.was_known(s)), ("nothing changes", self.unchanged(s))] + self.inv(s)


class InsertPinned(Insert):
    """A value for a new key that stays."""
    function = FC + "insertPinned"

    def ensures(self, s, ret):
        k, v = s.old("key"), s.old("valPtr")
        j = Int("k!k")
        return self.inv(s) + self.limits(s) + [
            ("the key was not known", Not(self.was_known(s))), ("the value is not too large", Not(self.too_large(s))), ("the value is returned", ret == v),
            ("the key has this value", And(self.now(s, "pin", k), self.value(s, k) == v)), self.pinned_kept(s),
            ("no other key and no other value", ForAll([j], Implies(And(j != k, Or(self.now(s, "pin", j), self.now(s, "acc", j))), And(Or(self.was(s, "pin", j), self.was(s, "acc", j)), self.value(s, j) == self.value(s, j, True))),
             patterns=[self.now(s, "pin", j), self.now(s, "acc", j)]))]

    def on_throw(self, s):
        return [("the key was known or the value is too large", Or(self.was_known(s), self.too_large(s))), ("nothing changes", self.unchanged(s))] + self.inv(s)


class Numbers(Cache):
    """Number of entries that are not pinned."""
    function = FC + "numNonPinnedEntries"

    def ensures(self, s, ret):
        return [("number", ret == s.eng.old_state.vars["g:q.num"])]


class NumbersPinned(Cache):
    """Number of pinned entries."""
    function = FC + "numPinnedEntries"

    def ensures(self, s, ret):
        return [("number", ret == s.eng.old_state.vars["g:pin.num"])]


class Contains(Cache):
    """Whether there is a value for a key."""
    function = FC + "contains"
    param_names = ["key"]

    def ensures(self, s, ret):
        return [("known", ret == Or(self.was(s, "pin", s.old("key")), self.was(s, "acc", s.old("key"))))]


class Lookup(Cache):
    """The value for a key."""
    function = FC + "operator[]"
    param_names = ["key"]

    def ensures(self, s, ret):
        return [("value", ret == self.value(s, s.old("key"), True))] + self.inv(s) + self.limits(s) + [self.others_same(s, IntVal(-1)), ("same value", self.value(s, s.old("key")) == self.value(s, s.old("key"), True))]


class Erase(Cache):
    """One key is forgotten."""
    function = FC + "erase"
    param_names = ["key"]

    def ensures(self, s, ret):
        k = s.old("key")
        return [("gone", Not(Or(self.now(s, "pin", k), self.now(s, "acc", k))))] + self.inv(s) + self.limits(s) + [self.others_same(s, k)]


class Pin(Cache):
    """A known key is pinned."""
    function = FC + "containsAndMakePinnedIfExists"
    param_names = ["key"]

    def ensures(self, s, ret):
        k = s.old("key")
        return [("known", ret == Or(self.was(s, "pin", k), self.was(s, "acc", k))), ("pinned", Implies(ret, And(self.now(s, "pin", k), Not(self.now(s, "acc", k)), self.value(s, k) == self.value(s, k, True)))),
                ("unknown keys stay unknown", Implies(Not(ret), Not(Or(self.now(s, "pin", k), self.now(s, "acc", k)))))] + self.inv(s) + self.limits(s) + [self.others_same(s, k)]


class ClearAll(Cache):
    """Nothing is known."""
    function = FC + "clearAll"

    def ensures(self, s, ret):
        k = Int("k!k")
        return [("nothing is known", ForAll([k], Not(Or(self.now(s, "pin", k), self.now(s, "acc", k)))))] + self.inv(s) + self.limits(s)


class ClearUnpinned(Cache):
    """Only pinned keys are known."""
    function = FC + "clearUnpinnedOnly"

    def ensures(self, s, ret):
        k = Int("k!k")
        return [("only pinned keys", ForAll([k], And(Not(self.now(s, "acc", k)), self.now(s, "pin", k) == self.was(s, "pin", k)), patterns=[self.now(s, "pin", k)])), self.pinned_kept(s)] + self.inv(s) + self.limits(s)


CONTRACTS = [Shrink, SetLimit, Insert, InsertPinned, Numbers, NumbersPinned, Contains, Lookup, Erase, Pin, ClearAll, ClearUnpinned]
