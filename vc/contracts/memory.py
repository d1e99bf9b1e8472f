"""Accounting of memory."""
from spec import *
from models import V, void, R
from engine import Ptr

SIZE = 24   # of the elements


def m_pool(eng, st, base, a, e):
    return V(st, Ptr("*pool"))


def m_same(eng, st, base, a, e):
    return V(st, eng.rv(st, base))


def m_alloc(eng, st, base, a, e):
    """Gives memory for some elements or throws."""
    n = eng.rv(st, a[0])
    bad = st.copy()
    SpecView(eng, bad).set_ghost("refused", BoolVal(True))
    eng.thrown.append(bad)
    sv = SpecView(eng, st)
    sv.set_ghost("held", sv.ghost("held") + n * SIZE)
    sv.set_ghost("given", n)
    return V(st, Opaque("memory"))


def m_dealloc(eng, st, base, a, e):
    n = eng.rv(st, a[1])
    sv = SpecView(eng, st)
    sv.set_ghost("held", sv.ghost("held") - n * SIZE)
    return void(st)


class Memory(Contract):
    tu = ('#include <cstddef>\n#include <cstdint>\n#include "@REPO@/src/util/AllocatorWithLimit.h"\nstruct Three { size_t a, b, c; };\n'
          'template class ad_utility::AllocatorWithLimit<Three>;\n')
    models = {"ad_utility::Synchronized::wlock": m_pool, "ad_utility::detail::AllocationMemoryLeftThreadsafe::ptr": m_pool, "ad_utility::LockPtr::operator->": m_same, "std::allocator::allocate": m_alloc, "std::__new_allocator::allocate": m_alloc,
              "std::allocator::deallocate": m_dealloc, "std::__new_allocator::deallocate": m_dealloc}
    assumptions = ["taking the lock around each access is assumed to make accesses atomic"]

    def ghosts(self, eng):
        return {"held": z3.Int("held"), "given": IntVal(-1), "refused": BoolVal(False)}


class Take(Memory):
    """Takes bytes if there are enough of them, else throws and takes none."""
    function = "ad_utility::detail::AllocationMemoryLeft::decrease_if_enough_left"
    param_names = ["n"]

    def ensures(self, s, ret):
        return [("enough were left", s.old("n") <= s.old("this.free_")), ("they are taken", s("this.free_") == s.old("this.free_") - s.old("n"))]

    def on_throw(self, s):
        return [("not enough were left", s.old("n") > s.old("this.free_")), ("none is taken", s("this.free_") == s.old("this.free_"))]


class Give(Memory):
    """Gives bytes back."""
    function = "ad_utility::detail::AllocationMemoryLeft::increase"
    param_names = ["n"]

    def requires(self, s):
        return [("were taken before", s("this.free_") + s("n") < 2 ** 64)]

    def ensures(self, s, ret):
        return [("they are free again", s("this.free_") == s.old("this.free_") + s.old("n"))]


class Allocate(Memory):
    """Memory is handed out only if the limit allows it; what is held and what
    is free add up to the limit whatever happens."""
    function = "ad_utility::AllocatorWithLimit::allocate"
    param_names = ["n"]

    def prepare(self, eng, st):
        t = next(i for i, ty in (enumerate(eng.types) if isinstance(eng.types, list) else eng.types.items()) if ty.get("name") == "ad_utility::detail::AllocationMemoryLeft")
        v = eng.fresh(t, "pool", exact=True)
        st.vars["*pool"] = v
        for f in eng.type_facts(t, v):
            st.assume(f)
        eng.var_types["*pool"] = t

    def free(self, s):
        return s.eng.read(s.st, Ptr("*pool")).get("free_")

    def before(self, s):
        return s.eng.read(s.eng.old_state, Ptr("*pool")).get("free_")

    def requires(self, s):
        return [("held", And(s.ghost("held") >= 0, s.ghost("held") + self.free(s) < 2 ** 64))]

    def total(self, s):
        return ("held and free add up", s.ghost("held") + self.free(s) == Int("held") + self.before(s))

    def ensures(self, s, ret):
        return [self.total(s), ("enough memory was left", s.old("n") * SIZE <= self.before(s)), ("it is handed out", s.ghost("given") == s.old("n"))]

    def on_throw(self, s):
        return [self.total(s), ("nothing is handed out", s.ghost("held") == Int("held")), ("only for lack of memory", Or(s.ghost("refused"), s.old("n") * SIZE > self.before(s)))]


class Deallocate(Allocate):
    """Memory given back is free again."""
    function = "ad_utility::AllocatorWithLimit::deallocate"
    param_names = ["p", "n"]

    def requires(self, s):
        return Allocate.requires(self, s) + [("it is held", s("n") * SIZE <= s.ghost("held"))]

    def ensures(self, s, ret):
        return [self.total(s), ("it is given back", s.ghost("held") == Int("held") - s.old("n") * SIZE)]

    def on_throw(self, s):
        return [("does not happen", False)]


class Free(Allocate):
    """The number of free bytes is told."""
    function = "ad_utility::AllocatorWithLimit::numFreeBytes"
    param_names = []

    def ensures(self, s, ret):
        return [self.total(s), ("number of free bytes", ret == self.before(s))]

    def on_throw(self, s):
        return [("does not happen", False)]


CONTRACTS = [Take, Give, Allocate, Deallocate, Free]
