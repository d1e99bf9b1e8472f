"""The cache shared by threads, with the lock as the point where other threads interfere.

What the lock protects is unknown whenever it is taken, except for what other
threads guarantee: they leave alone what this thread has registered.  Whatever
this thread does between taking the lock and letting it go has to keep the same
guarantees."""
from spec import *
from models import V, void, R, M
from engine import Opaque, Unsupported, Rec, Ptr, Vec

CC = "ad_utility::ConcurrentCache::"
RP = "ad_utility::ConcurrentCacheDetail::ResultInProgress::"
FC = "ad_utility::FlexibleCache::"
HS = "absl::container_internal::raw_hash_set::"
BOOLS = z3.ArraySort(INT, BOOL)
HVAL = z3.Function("value_of_handle", INT, INT)
SHARED = ("cached", "pinned", "prog")


def key_of(eng, st):
    return SpecView(eng, st).old("key")


def prog(st, f):
    return st.vars["*prog"].data.get(f)


def invariant(s, key):
    g = s.ghost
    k, j = Int("k!i"), Int("j!i")
    h = prog(s.st, "second")
    return And(ForAll([k], Not(And(Select(g("cached"), k), Select(g("prog"), k))), patterns=[Select(g("prog"), k)]),
               ForAll([k, j], Implies(And(k != j, Select(g("prog"), k), Select(g("prog"), j)), Select(h, k) != Select(h, j)), patterns=[z3.MultiPattern(Select(h, k), Select(h, j))]))


def acquire(eng, st, base, a, e):
    """The lock is taken: others may have changed everything but what is registered by this thread."""
    release(eng, st, e)
    s = SpecView(eng, st)
    key = key_of(eng, st)
    own, old = s.ghost("own"), Select(prog(st, "first"), key)
    for g in SHARED:
        s.set_ghost(g, z3.Const(eng.name(g), BOOLS))
    s.set_ghost("value", z3.Const(eng.name("value"), ARR))
    v = st.vars["*prog"]
    eng.note_write("*prog", (), "*")
    st.vars["*prog"] = Vec(v.n, Rec(0, {"first": z3.Const(eng.name("first"), BOOLS), "second": z3.Const(eng.name("second"), ARR)}, None, eng), v.et, v.const_len)
    st.assume(invariant(s, key))
    st.assume(Implies(own, And(Select(s.ghost("prog"), key), Select(prog(st, "second"), key) == s.ghost("mine"), Implies(old, Select(prog(st, "first"), key)))))
    for g in SHARED + ("value",):
        s.set_ghost("at." + g, s.ghost(g))
    s.set_ghost("at.first", prog(st, "first"))
    s.set_ghost("at.second", prog(st, "second"))
    s.set_ghost("held", BoolVal(True))
    return V(st, Ptr("*shared"))


def release(eng, st, e):
    """What was done since the lock was taken is in order."""
    s = SpecView(eng, st)
    g, key = s.ghost, key_of(eng, st)
    held = g("held")
    if z3.is_false(z3.simplify(held)):
        return
    k = Int("k!r")
    first, second = prog(st, "first"), prog(st, "second")
    was, now, own = Select(g("at.prog"), key), Select(g("prog"), key), g("own")
    line = e.get("l") if e else None

    def must(what, f):
        eng.oblige(st, what, Implies(held, f), line, "guarantee")
    must("no result is cached and in progress", invariant(s, key))
    must("computations of other keys stay registered", ForAll([k], Implies(And(k != key, Select(g("at.prog"), k)),
         And(Select(g("prog"), k), Select(first, k) == Select(g("at.first"), k), Select(second, k) == Select(g("at.second"), k))), patterns=[Select(second, k)]))
    must("other keys are not registered", ForAll([k], Implies(And(k != key, Select(g("prog"), k)), Select(g("at.prog"), k)), patterns=[Select(second, k)]))
    must("the computation of another thread stays registered", Implies(And(was, Not(own)), And(now, Select(second, key) == Select(g("at.second"), key), Implies(Select(g("at.first"), key), Select(first, key)))))
    must("only own results are cached", Implies(And(Select(g("cached"), key), Not(Select(g("at.cached"), key))), And(own, g("computed"), Select(g("value"), key) == g("result"))))
    must("a computed result is offered to the cache", Implies(And(own, g("computed"), was, Not(now)), g("offered")))
    must("a result is pinned if that was asked for meanwhile", Implies(And(own, g("computed"), was, Not(now), Select(g("at.first"), key)), g("offered.pinned")))
    must("a new computation has a handle of its own", Implies(And(Not(was), now), And(Not(own), Select(second, key) == g("made"))))
    s.set_ghost("mine", If(And(Not(was), now), Select(second, key), g("mine")))
    s.set_ghost("own", And(now, Or(own, Not(was))))
    s.set_ghost("held", BoolVal(False))


def m_with(eng, st, base, a, e):
    acquire(eng, st, base, [], e)
    return eng.apply(st, eng.rv(st, a[0]), [("ref", Ptr("*shared"))], e)


def m_arrow(eng, st, base, a, e):
    return V(st, eng.rv(st, base))


def m_contains(eng, st, base, a, e):
    return V(st, Select(SpecView(eng, st).ghost("cached"), eng.rv(st, a[0])))


def m_contains_pin(eng, st, base, a, e):
    s, k = SpecView(eng, st), eng.rv(st, a[0])
    c = Select(s.ghost("cached"), k)
    s.set_ghost("pinned", Store(s.ghost("pinned"), k, Or(c, Select(s.ghost("pinned"), k))))
    return V(st, c)


def m_at(eng, st, base, a, e):
    s, k = SpecView(eng, st), eng.rv(st, a[0])
    return V(st, If(Select(s.ghost("cached"), k), Select(s.ghost("value"), k), IntVal(0)))


def m_insert(pin):
    def f(eng, st, base, a, e):
        s, k, v = SpecView(eng, st), eng.rv(st, a[0]), eng.rv(st, a[1])
        eng.oblige(st, "nothing is cached under the key yet", Not(Select(s.ghost("cached"), k)), e.get("l"), "pre")
        eng.oblige(st, "the lock is held", s.ghost("held"), e.get("l"), "pre")
        mine = And(k == key_of(eng, st), v == s.ghost("result"))
        s.set_ghost("offered", Or(s.ghost("offered"), mine))
        if pin:
            s.set_ghost("offered.pinned", Or(s.ghost("offered.pinned"), mine))
        stays = z3.Bool(eng.name("fits"))
        old = s.ghost("cached")
        c = z3.Const(eng.name("cached"), BOOLS)
        j = Int("j!n")
        # other results may be thrown out
        st.assume(ForAll([j], Implies(Select(c, j), Or(And(j == k, stays), Select(old, j))), patterns=[Select(c, j)]))
        s.set_ghost("cached", c)
        s.set_ghost("value", Store(s.ghost("value"), k, v))
        s.set_ghost("pinned", Store(s.ghost("pinned"), k, BoolVal(pin)))
        return V(st, Select(s.ghost("value"), k))
    return f


def m_has(boolean):
    def f(eng, st, base, a, e):
        h = Select(SpecView(eng, st).ghost("prog"), eng.rv(st, a[0]))
        return V(st, h if boolean else If(h, IntVal(1), IntVal(0)))
    return f


def m_sub(eng, st, base, a, e):
    """Access creates entries."""
    s, k = SpecView(eng, st), eng.rv(st, a[0])
    eng.oblige(st, "the lock is held", s.ghost("held"), e.get("l"), "pre")
    h = Select(s.ghost("prog"), k)
    v = st.vars["*prog"]
    d = v.data
    d = d.set("first", Store(d.get("first"), k, And(h, Select(d.get("first"), k)))).set("second", Store(d.get("second"), k, If(h, Select(d.get("second"), k), IntVal(0))))
    eng.note_write("*prog", (), "*")
    st.vars["*prog"] = Vec(v.n, d, v.et, v.const_len)
    s.set_ghost("prog", Store(s.ghost("prog"), k, BoolVal(True)))
    return R(st, Ptr("*prog", (("i", k),)))


def m_erase(eng, st, base, a, e):
    s, x = SpecView(eng, st), eng.rv(st, a[0])
    if isinstance(x, Ptr):
        x = x.idx()
    h = Select(s.ghost("prog"), x)
    eng.oblige(st, "the lock is held", s.ghost("held"), e.get("l"), "pre")
    s.set_ghost("prog", Store(s.ghost("prog"), x, BoolVal(False)))
    return V(st, If(h, IntVal(1), IntVal(0)))


def m_make(eng, st, base, a, e):
    s = SpecView(eng, st)
    if a:      # a value
        return V(st, eng.rv(st, a[0]))
    h = Int(eng.name("handle"))
    k = Int("k!h")
    # a new object differs from all others
    st.assume(And(h > 0, ForAll([k], Implies(Select(s.ghost("prog"), k), Select(prog(st, "second"), k) != h), patterns=[Select(prog(st, "second"), k)])))
    s.set_ghost("made", h)
    return V(st, h)


def m_compute(eng, st, base, a, e):
    """The computation: gives a result or throws."""
    release(eng, st, e)
    s = SpecView(eng, st)
    eng.oblige(st, "only a registered computation is done", s.ghost("own"), e.get("l"), "pre")
    eng.oblige(st, "it is done once", Not(s.ghost("called")), e.get("l"), "pre")
    s.set_ghost("called", BoolVal(True))
    bad = st.copy()
    eng.thrown.append(bad)
    r = Int(eng.name("result"))
    st.assume(r > 0)
    s.set_ghost("computed", BoolVal(True))
    s.set_ghost("result", r)
    return V(st, r)


def m_finish(eng, st, base, a, e):
    release(eng, st, e)
    s = SpecView(eng, st)
    h = eng.rv(st, base)
    eng.oblige(st, "those who wait get the computed result, once", And(h == s.ghost("mine"), s.ghost("computed"), eng.rv(st, a[0]) == s.ghost("result"), s.ghost("state") == 0), e.get("l"), "pre")
    s.set_ghost("state", IntVal(1))
    return void(st)


def m_abort(eng, st, base, a, e):
    release(eng, st, e)
    s = SpecView(eng, st)
    h = eng.rv(st, base)
    eng.oblige(st, "those who wait hear of the failure, once", And(h == s.ghost("mine"), Not(s.ghost("computed")), s.ghost("state") == 0), e.get("l"), "pre")
    s.set_ghost("state", IntVal(2))
    return void(st)


def m_wait(eng, st, base, a, e):
    release(eng, st, e)
    s = SpecView(eng, st)
    h = eng.rv(st, base)
    key = key_of(eng, st)
    eng.oblige(st, "waits for the computation of the key by another thread",
               And(Not(s.ghost("own")), Not(s.ghost("called")), Select(s.ghost("at.prog"), key), h == Select(s.ghost("at.second"), key)), e.get("l"), "pre")
    s.set_ghost("waited", BoolVal(True))
    eng.thrown.append(st.copy())
    return V(st, HVAL(h))


def m_copy(eng, st, base, a, e):
    x = eng.rv(st, a[0]) if a else IntVal(0)
    return V(st, IntVal(0) if isinstance(x, Ptr) and x.root is None else x)


def m_assign(eng, st, base, a, e):
    p = eng.as_ptr(st, base)
    eng.write(st, p, eng.rv(st, a[0]))
    return R(st, p)


def m_assign_pair(eng, st, base, a, e):
    p, x = eng.as_ptr(st, base), eng.rv(st, a[0])
    for f in ("first", "second"):
        eng.write(st, p.ext("f", f), x.get(f))
    return R(st, p)


class Once(Contract):
    """A result is computed by at most one thread at a time and not while it is cached; it reaches the cache, those who
    wait and the caller; failures reach those who wait and the caller."""
    tu = '''#include "@REPO@/src/util/Cache.h"
#include "@REPO@/src/util/ConcurrentCache.h"
struct Val { size_t n; size_t size() const { return n; } };
struct Fn { Val operator()() const; };
using C = ad_utility::ConcurrentCache<ad_utility::HeapBasedLRUCache<int, Val>>;
void use(C& c, int k, Fn f) { c.computeOnce(k, f); c.computeOncePinned(k, f); }
'''
    function = CC + "computeOnceImpl"
    param_names = ["pinned", "key", "computeFunction"]
    type_kinds = {"std::shared_ptr": "int", "Val": "int", "Fn": "int", "absl::flat_hash_map": "opaque", "ad_utility::FlexibleCache": "opaque", "ad_utility::LockPtr": "opaque"}
    models = {"ad_utility::Synchronized::wlock": acquire, "ad_utility::Synchronized::withWriteLock": m_with, "ad_utility::LockPtr::operator->": m_arrow, "ad_utility::LockPtr::operator*": m_arrow, FC + "contains": m_contains, FC + "containsAndMakePinnedIfExists": m_contains_pin,
              FC + "operator[]": m_at, FC + "insert": m_insert(False), FC + "insertPinned": m_insert(True), HS + "contains": m_has(True), HS + "count": m_has(False), "absl::container_internal::raw_hash_map::operator[]": m_sub,
              HS + "erase": m_erase, "std::make_shared": m_make, "Fn::operator()": m_compute, RP + "finish": m_finish, RP + "abort": m_abort, RP + "getResult": m_wait,
              "std::__shared_ptr_access::operator->": m_arrow, "std::shared_ptr::operator->": m_arrow, "std::shared_ptr::<ctor>": m_copy, "std::shared_ptr::operator=": m_assign, "std::pair::operator=": m_assign_pair}
    assumptions = ["taking the lock makes what happens until it is let go atomic; other threads keep the guarantees proved here", "contracts of the underlying cache (C13) and of the hash map",
                   "handing a result to those who wait has its own contract"]

    def prepare(self, eng, st):
        st.vars["*shared"] = Opaque("shared")
        st.vars["*prog"] = Vec(IntVal(0), Rec(0, {"first": z3.Const("first", BOOLS), "second": z3.Const("second", ARR)}, None, eng), 0, None)

    def ghosts(self, eng):
        g = {x: z3.Const(x, BOOLS) for x in SHARED}
        g["value"] = z3.Const("value", ARR)
        g.update({"at." + x: z3.Const("at." + x, BOOLS) for x in SHARED + ("first",)})
        g.update({"at.value": z3.Const("at.value", ARR), "at.second": z3.Const("at.second", ARR)})
        g.update({x: BoolVal(False) for x in ("held", "own", "computed", "called", "offered", "offered.pinned", "waited")})
        g.update({"mine": Int("mine"), "made": Int("made"), "result": Int("result"), "state": IntVal(0)})
        return g

    def exit(self, s):
        release(s.eng, s.st, None)
        g = s.ghost
        return [("nothing stays registered", Not(g("own"))), ("those who wait hear of it", Implies(g("called"), g("state") == If(g("computed"), 1, 2)))]

    def ensures(self, s, ret):
        out = self.exit(s)
        g, key = s.ghost, s.old("key")
        r, was = ret.get("_resultPointer"), ret.get("_wasCached")
        cached = And(Not(g("called")), Not(g("waited")), Select(g("at.cached"), key), r == Select(g("at.value"), key), was, Implies(s.old("pinned"), Select(g("pinned"), key)))
        own = And(g("computed"), Not(g("waited")), r == g("result"), Not(was))
        other = And(Not(g("called")), g("waited"), r == HVAL(Select(g("at.second"), key)), Not(was), Implies(s.old("pinned"), Select(prog(s.st, "first"), key)))
        return out + [("the result is the cached one, the computed one or that of another thread", Or(cached, own, other))]

    def on_throw(self, s):
        g = s.ghost
        return self.exit(s) + [("a computation failed", Or(And(g("called"), Not(g("computed"))), g("waited")))]


RTU = '''#include "@REPO@/src/util/Cache.h"
#include "@REPO@/src/util/ConcurrentCache.h"
struct Val { size_t n; };
using P = ad_utility::ConcurrentCacheDetail::ResultInProgress<Val>;
void use(P& p, std::shared_ptr<Val> v) { p.finish(v); p.abort(); p.getResult(); }
'''
BUSY, DONE, FAILED = 0, 1, 2


def m_lock(eng, st, base, a, e):
    s = SpecView(eng, st)
    s.set_ghost("locked", BoolVal(True))
    return V(st, Opaque("lock"))


def m_notify(eng, st, base, a, e):
    s = SpecView(eng, st)
    s.set_ghost("told", Or(s.ghost("locked"), s("this._status") != BUSY))   # those who wait look again once the lock is free
    return void(st)


def m_await(eng, st, base, a, e):
    """Others may change everything until the condition holds; waits without one may end at any time."""
    s = SpecView(eng, st)
    eng.oblige(st, "waits with the lock", s.ghost("locked"), e.get("l"), "pre")
    state, res = Int(eng.name("status")), Int(eng.name("result"))
    for f, v in (("_status", state), ("_result", res)):
        eng.write(st, Ptr("*this", (("f", f),)), v)
    st.assume(And(state >= BUSY, state <= FAILED, Implies(state == DONE, res == s.ghost("final"))))
    if len(a) < 2:
        return void(st)
    out = []
    for x, r in eng.apply(st, eng.rv(st, a[1]), [], e):
        eng.oblige(x, "no wait goes on after the end of the computation", Implies(state != BUSY, eng.rv(x, r)), e.get("l"), "pre")
        x.assume(eng.rv(x, r))
        out.append((x, ("val", None)))
    return out


class Handle(Contract):
    tu = RTU
    type_kinds = {"std::shared_ptr": "int", "std::lock_guard": "opaque", "std::unique_lock": "opaque", "std::scoped_lock": "opaque"}
    models = {"std::lock_guard::<ctor>": m_lock, "std::unique_lock::<ctor>": m_lock, "std::scoped_lock::<ctor>": m_lock, "std::condition_variable::notify_all": m_notify, "std::condition_variable::notify_one": lambda eng, st, base, a, e: void(st), "std::condition_variable::wait": m_await,
              "std::shared_ptr::<ctor>": m_copy, "std::shared_ptr::operator=": m_assign, "std::__shared_ptr::operator=": m_assign}
    assumptions = ["a wait for a condition ends when the condition holds and all are notified (no lost wake-ups)"]

    def ghosts(self, eng):
        return {"locked": BoolVal(False), "told": BoolVal(False), "final": Int("final")}


class Finish(Handle):
    """The result is there and all who wait are told."""
    function = RP + "finish"
    param_names = ["result"]

    def requires(self, s):
        return [("under way", s("this._status") == BUSY), ("the result", s("result") == s.ghost("final"))]

    def ensures(self, s, ret):
        return [("finished with the result", And(s("this._status") == DONE, s("this._result") == s.ghost("final"))), ("all are told", s.ghost("told")), ("done with the lock", s.ghost("locked"))]


class Abort(Handle):
    """The failure is known and all who wait are told."""
    function = RP + "abort"
    param_names = []

    def requires(self, s):
        return [("under way", s("this._status") == BUSY)]

    def ensures(self, s, ret):
        return [("failed", s("this._status") == FAILED), ("all are told", s.ghost("told")), ("done with the lock", s.ghost("locked"))]


class Wait(Handle):
    """Gives the result, or throws if there is none."""
    function = RP + "getResult"
    param_names = []

    def requires(self, s):
        st, r = s("this._status"), s("this._result")
        return [("a status", And(st >= BUSY, st <= FAILED)), ("a result if finished", Implies(st == DONE, r == s.ghost("final")))]

    def ensures(self, s, ret):
        return [("the result", And(s("this._status") == DONE, ret == s.ghost("final")))]

    def on_throw(self, s):
        return [("failed", s("this._status") == FAILED)]


CONTRACTS = [Once, Finish, Abort, Wait]
