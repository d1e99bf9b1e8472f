"""Verification-condition generator for C++ function bodies exported by astdump.

Forward symbolic execution with loops cut at invariants.  Nothing is bounded:
a loop is represented by an arbitrary iteration that satisfies its invariant.
"""
import itertools, json
import z3
from z3 import Int, Bool, And, Or, Not, Implies, If, Exists, Select, Store, IntVal, BoolVal, is_true, is_false, simplify


def has_ite(e, vs):
    """True if e cannot serve as a pattern."""
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return True
        stack.extend(x.children())
    return False


def ForAll(vs, body, patterns=None):
    """Universal quantifier; patterns that z3 would reject are dropped."""
    ok = []
    for p in patterns or []:
        ts = p.children() if False else None
        if isinstance(p, z3.PatternRef):
            n = z3.Z3_get_pattern_num_terms(p.ctx_ref(), p.as_ast())
            terms = [z3.z3._to_expr_ref(z3.Z3_get_pattern(p.ctx_ref(), p.as_ast(), i), p.ctx) for i in range(n)]
            if not any(has_ite(t, vs) for t in terms):
                ok.append(p)
        elif not has_ite(p, vs):
            ok.append(p)
    if ok:
        return z3.ForAll(vs, body, patterns=ok)
    return z3.ForAll(vs, body)


_multi_pattern = z3.MultiPattern


def _kept_pattern(*args):
    """z3.MultiPattern drops its arguments before it uses them; keep them alive."""
    return _multi_pattern(*args)


z3.MultiPattern = _kept_pattern
INT = z3.IntSort()
BOOL = z3.BoolSort()
MAXLEN = 2 ** 60          # assumed bound on container sizes (listed as assumption)


class Unsupported(Exception):
    pass


class AttachError(Exception):
    """An annotation does not fit the current source."""


# ---------------------------------------------------------------- values
class Rec:
    """Record; unknown fields are created on demand with deterministic names."""
    __slots__ = ("ty", "fields", "prefix", "eng")

    def __init__(self, ty, fields=None, prefix=None, eng=None):
        self.ty, self.fields, self.prefix, self.eng = ty, dict(fields or {}), prefix, eng

    def get(self, f):
        if f in self.fields:
            return self.fields[f]
        if self.prefix is None:
            raise Unsupported(f"field {f} of {self.ty}")
        t = self.eng.field_type(self.ty, f)
        v = self.eng.fresh(t, f"{self.prefix}.{f}", exact=True)
        self.fields[f] = v      # deterministic: same constants wherever created
        return v

    def set(self, f, v):
        r = Rec(self.ty, self.fields, self.prefix, self.eng)
        r.fields[f] = v
        return r


class Vec:
    """std::vector / std::array / std::string: length and element family."""
    __slots__ = ("n", "data", "et", "const_len")

    def __init__(self, n, data, et, const_len=None):
        self.n, self.data, self.et, self.const_len = n, data, et, const_len


class Tab:
    """IdTable: number of rows, number of columns, rows as arrays."""
    __slots__ = ("n", "cols", "data")

    def __init__(self, n, cols, data):
        self.n, self.cols, self.data = n, cols, data


class Row:
    __slots__ = ("cols", "data")

    def __init__(self, cols, data):
        self.cols, self.data = cols, data


class Ptr:
    """Pointer / reference / iterator: a root variable and a path."""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return f"Ptr({self.root},{self.path})"

    def ext(self, *step):
        return Ptr(self.root, self.path + (step,))

    def idx(self):
        if not self.path or self.path[-1][0] != "i":
            raise Unsupported("pointer arithmetic on a non-element pointer")
        return self.path[-1][1]

    def with_idx(self, i):
        return Ptr(self.root, self.path[:-1] + (("i", i),))

    def base(self):
        return Ptr(self.root, self.path[:-1])


NULL = Ptr(None)


class Lam:
    __slots__ = ("fn", "caps", "fieldcaps", "this")

    def __init__(self, fn, caps, this=None):
        self.fn, self.caps, self.this = fn, caps, this


class Opaque:
    __slots__ = ("tag",)

    def __init__(self, tag=""):
        self.tag = tag


class PureFn:
    """A callable value supplied by a contract: called with evaluated values."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


def is_z(v):
    return isinstance(v, z3.ExprRef)


def select(v, i):
    if is_z(v):
        return Select(v, i)
    if isinstance(v, Rec):
        return Rec(v.ty, {k: select(x, i) for k, x in v.fields.items()}, None, v.eng)
    if isinstance(v, Vec):
        return Vec(select(v.n, i) if is_z(v.n) and v.n.sort().kind() == z3.Z3_ARRAY_SORT else v.n,
                   select(v.data, i), v.et, v.const_len)
    if isinstance(v, Opaque):
        return v
    raise Unsupported(f"select {type(v)}")


def store(v, i, x):
    if is_z(v):
        return Store(v, i, x)
    if isinstance(v, Rec):
        return Rec(v.ty, {k: store(y, i, x.get(k)) for k, y in v.fields.items()}, None, v.eng)
    if isinstance(v, Vec):
        return Vec(store(v.n, i, x.n) if is_z(v.n) and v.n.sort().kind() == z3.Z3_ARRAY_SORT else v.n,
                   store(v.data, i, x.data), v.et, v.const_len)
    if isinstance(v, Opaque):
        return v
    raise Unsupported(f"store {type(v)}")


def ite(c, a, b):
    if is_z(a) and is_z(b):
        if a.eq(b):
            return a
        return If(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = set(a.fields) | set(b.fields)
        return Rec(a.ty, {k: ite(c, a.get(k), b.get(k)) for k in ks}, a.prefix, a.eng)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(c, a.n, b.n), ite(c, a.data, b.data), a.et, a.const_len)
    if isinstance(a, Tab) and isinstance(b, Tab):
        return Tab(ite(c, a.n, b.n), ite(c, a.cols, b.cols), ite(c, a.data, b.data))
    if isinstance(a, Row) and isinstance(b, Row):
        return Row(ite(c, a.cols, b.cols), ite(c, a.data, b.data))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path):
        p = []
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                raise Unsupported("ite of pointers")
            if x[0] == "i":
                p.append(("i", ite(c, x[1], y[1])))
            elif x != y:
                raise Unsupported("ite of pointers")
            else:
                p.append(x)
        return Ptr(a.root, p)
    if isinstance(a, Opaque):
        return a
    raise Unsupported(f"ite {type(a)} {type(b)}")


def same_value(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Rec):
        return all(same_value(a.get(k), b.get(k)) for k in set(a.fields) | set(b.fields))
    if isinstance(a, Vec):
        return same_value(a.n, b.n) and same_value(a.data, b.data)
    if isinstance(a, Tab):
        return a.n.eq(b.n) and a.cols.eq(b.cols) and a.data.eq(b.data)
    if isinstance(a, Row):
        return a.data.eq(b.data)
    if isinstance(a, Ptr):
        if a.root != b.root or len(a.path) != len(b.path):
            return False
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                return False
            if x[0] == "i":
                if not x[1].eq(y[1]):
                    return False
            elif x[1] != y[1]:
                return False
        return True
    return False


# bit predicates over mathematical integers (axioms validated against
# bit-vectors by vc/validate_bits.py)
BIT = z3.Function("BIT", INT, INT, BOOL)
BOR = z3.Function("BOR", INT, INT, INT)
BAND = z3.Function("BAND", INT, INT, INT)
BXOR = z3.Function("BXOR", INT, INT, INT)
SHL1 = z3.Function("SHL1", INT, INT)
MUL = z3.Function("MUL", INT, INT, INT)


class State:
    __slots__ = ("vars", "pc", "qf", "frames", "trace", "retsink")

    def __init__(self):
        self.vars = {}
        self.pc = []
        self.qf = []
        self.frames = []     # list of (fn name, {name: varid})
        self.trace = []

    def copy(self):
        s = State()
        s.vars = dict(self.vars)
        s.pc = list(self.pc)
        s.qf = list(self.qf)
        s.frames = [(f, dict(d)) for f, d in self.frames]
        s.trace = list(self.trace)
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        if is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)
        if not has_quant(f):
            self.qf.append(f)


_hq_cache = {}


def has_quant(e):
    k = e.get_id()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


class Obligation:
    def __init__(self, name, hyps, goal, line=None, kind="assert"):
        self.name, self.hyps, self.goal, self.line, self.kind = name, hyps, goal, line, kind


class SpecView:
    """What a contract sees of a program state."""

    def __init__(self, eng, st, entry=None):
        self.eng, self.st, self.entry_st = eng, st, entry

    def __call__(self, name):
        return self.eng.lookup_value(self.st, name)

    def has(self, name):
        try:
            self.eng.lookup_value(self.st, name)
            return True
        except AttachError:
            return False

    def old(self, name):
        return self.eng.lookup_value(self.eng.old_state, name)

    def entry(self, name):
        return self.eng.lookup_value(self.entry_st, name)

    def ghost(self, name):
        return self.st.vars["g:" + name]

    def ghost_entry(self, name):
        return self.entry_st.vars["g:" + name]

    def set_ghost(self, name, v):
        self.eng.write_root(self.st, "g:" + name, v)

    def assume(self, f):
        self.st.assume(f)

    def check(self, label, f):
        self.eng.oblige(self.st, label, f)


class Engine:
    def __init__(self, dump, models, contract=None, log=None):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.models = models
        self.contract = contract
        self.obls = []
        self.assumptions = set()
        self.counter = itertools.count()
        self.dry = 0
        self.written = None
        self.loop_ids = {}
        self.copy_loops = set()
        self.shape = []
        self.events = None
        self.fast = False
        self.modcache = {}
        self.kept = {}
        self.entered = {}
        self.inline_depth = 0
        self.trusted = set()
        self.inlined = set()
        self.unroll = {}
        self.rename = {}
        self.base = None
        self.reach = []
        self.prune_solver = z3.Solver()
        self.prune_solver.set("timeout", 300)
        self.nbranches = 0
        self.log = log
        self.nodes_visited = set()
        self.wrap_mode = True
        self.fcount = 0

    # ------------------------------------------------------------ types
    def T(self, t):
        return self.types[t]

    def strip_ref(self, t):
        while self.types[t]["k"] == "ref":
            t = self.types[t]["to"]
        return t

    def field_type(self, t, f):
        ty = self.types[t]
        for x in ty.get("fields", []):
            if x["name"] == f:
                return x["t"]
        for b in ty.get("bases", []):
            r = self.field_type(b, f)
            if r is not None:
                return r
        if ty.get("name") in ("std::pair",):
            return ty["args"][0 if f == "first" else 1]["t"]
        raise Unsupported(f"field {f} of {ty.get('s')}")

    TABLES = ("detail::IdTableTemplated", "detail::IdTableImpl")

    def kind(self, t):
        """Abstract kind of a type."""
        ty = self.types[t]
        k = ty["k"]
        if k == "rec":
            n = ty["name"]
            custom = self.contract and getattr(self.contract, "type_kinds", {}).get(n)
            if custom:
                return custom
            if n in self.TABLES:
                return "tab"
            if n in ("std::vector", "std::basic_string", "std::array", "std::basic_string_view", "std::initializer_list", "std::span"):
                return "vec"
            if n == "std::pair" or n == "std::tuple":
                return "rec"
            if n in ("std::optional",):
                return "opt"
            if n in ("std::shared_ptr", "std::unique_ptr"):
                return "sptr"
            if n in ("__gnu_cxx::__normal_iterator", "detail::IdTableDynamicIterator", "detail::IdTableIterator"):
                return "iter"
            if n in ("detail::Row", "detail::ConstRow"):
                return "row"
            if "fields" in ty:
                return "rec"
            return "opaque"
        return k

    def elem_type(self, t):
        ty = self.types[t]
        n = ty["name"]
        if n == "std::basic_string_view":
            return ty["args"][0]["t"]
        return ty["args"][0]["t"]

    def sort_of(self, t, lift=0):
        k = self.kind(t)
        if k in ("int", "enum"):
            s = INT
        elif k == "bool":
            s = BOOL
        elif k == "float":
            s = z3.RealSort()
        else:
            raise Unsupported("sort of " + self.types[t]["s"])
        for _ in range(lift):
            s = z3.ArraySort(INT, s)
        return s

    def name(self, base):
        return f"{base}!{next(self.counter)}"

    def fresh(self, t, name, lift=0, exact=False):
        """Arbitrary value of a type."""
        t = self.strip_ref(t)
        ty = self.types[t]
        k = self.kind(t)
        nm = name if exact else self.name(name)
        if k in ("int", "enum", "bool", "float"):
            return z3.Const(nm, self.sort_of(t, lift))
        if k == "tab":
            if lift:
                raise Unsupported("array of tables")
            return Tab(Int(nm + ".n"), Int(nm + ".cols"),
                       z3.Const(nm + ".d", z3.ArraySort(INT, z3.ArraySort(INT, INT))))
        if k == "row":
            return Row(Int(nm + ".cols"), z3.Const(nm + ".d", z3.ArraySort(INT, INT)))
        if k in ("vec", "array"):
            et = ty["to"] if k == "array" else self.elem_type(t)
            const = None
            if k == "array" and "n" in ty:
                const = ty["n"]
            elif ty.get("name") == "std::array":
                const = int(ty["args"][1]["i"])
            if const is not None:
                n = IntVal(const)
            else:
                s = INT
                for _ in range(lift):
                    s = z3.ArraySort(INT, s)
                n = z3.Const(nm + ".n", s)
            return Vec(n, self.fresh(et, nm + ".d", lift + 1, True), et, const)
        if k == "rec":
            if lift == 0:
                return Rec(t, {}, nm, self)
            fs = {}
            if ty["name"] == "std::pair":
                for i, f in enumerate(("first", "second")):
                    fs[f] = self.fresh(ty["args"][i]["t"], nm + "." + f, lift, True)
            elif ty["name"] == "std::tuple":
                for i, a in enumerate(ty["args"]):
                    fs[str(i)] = self.fresh(a["t"], nm + f".{i}", lift, True)
            else:
                for f in self.all_fields(t):
                    fs[f["name"]] = self.fresh(f["t"], nm + "." + f["name"], lift, True)
            return Rec(t, fs, None, self)
        if k == "opt":
            fs = {"has": z3.Const(nm + ".has", BOOL), "val": self.fresh(ty["args"][0]["t"], nm + ".val", 0, True)}
            return Rec(t, fs, None, self)
        if k in ("sptr", "ptr"):
            if lift:
                return Opaque("lifted ptr")
            to = ty["to"] if k == "ptr" else ty["args"][0]["t"]
            root = "*" + nm
            self.lazy_roots[root] = (to, nm)
            return Ptr(root)
        if k == "iter":
            raise Unsupported("arbitrary iterator")
        return Opaque(ty["s"])

    def all_fields(self, t):
        ty = self.types[t]
        r = []
        for b in ty.get("bases", []):
            r += self.all_fields(b)
        return r + ty.get("fields", [])

    def type_facts(self, t, v):
        """Range facts implied by the C++ type."""
        t = self.strip_ref(t)
        k = self.kind(t)
        ty = self.types[t]
        if k in ("int", "enum") and is_z(v) and v.sort() == INT:
            w = ty.get("w", 32)
            if ty.get("signed"):
                return [v >= -(1 << (w - 1)), v < (1 << (w - 1))]
            return [v >= 0, v < (1 << w)]
        if k == "tab":
            return [v.n >= 0, v.n < MAXLEN, v.cols >= 0, v.cols < 2 ** 30]
        if k == "row":
            return [v.cols >= 0]
        if k == "vec" and v.const_len is None and is_z(v.n) and v.n.sort() == INT:
            return [v.n >= 0, v.n < MAXLEN]
        return []

    # ------------------------------------------------------------ roots
    lazy_roots = {}

    def root(self, st, r):
        if r not in st.vars:
            if r in self.lazy_roots:
                t, nm = self.lazy_roots[r]
                v = self.fresh(t, nm + "*", exact=True)
                st.vars[r] = v
                for f in self.type_facts(t, v):
                    st.assume(f)
            else:
                raise Unsupported(f"unbound root {r}")
        return st.vars[r]

    def note_write(self, root, path, comp):
        if self.written is not None:
            fp = []
            for s in path:
                if s[0] == "f":
                    fp.append(s[1])
                else:
                    break
            self.written.add((root, tuple(fp), comp))

    def write_root(self, st, root, v):
        self.note_write(root, (), "*")
        st.vars[root] = v

    def read(self, st, p):
        if p.root is None:
            raise Unsupported("null dereference")
        v = self.root(st, p.root)
        for s in p.path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        if s[0] == "f":
            if isinstance(v, Rec):
                return v.get(s[1])
            if isinstance(v, Opaque):
                return Opaque("field of " + v.tag)
            raise Unsupported(f"field {s[1]} of {type(v)}")
        i = s[1]
        if isinstance(v, Vec):
            return select(v.data, i)
        if isinstance(v, Tab):
            return Row(v.cols, Select(v.data, i))
        if isinstance(v, Row):
            return Select(v.data, i)
        if isinstance(v, Opaque):
            return Opaque("elem of " + v.tag)
        raise Unsupported(f"index of {type(v)}")

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Opaque):
                return v
            return v.set(s[1], val if len(path) == 1 else self.upd(st, v.get(s[1]), path[1:], val))
        i = s[1]
        if isinstance(v, Vec):
            return Vec(v.n, store(v.data, i, self.upd(st, select(v.data, i), path[1:], val)), v.et, v.const_len)
        if isinstance(v, Tab):
            r = self.upd(st, Row(v.cols, Select(v.data, i)), path[1:], val)
            return Tab(v.n, v.cols, Store(v.data, i, r.data))
        if isinstance(v, Row):
            return Row(v.cols, Store(v.data, i, val))
        if isinstance(v, Opaque):
            return v
        raise Unsupported(f"update of {type(v)}")

    def write(self, st, p, val, comp="*"):
        if p.root is None:
            raise Unsupported("null dereference")
        has_idx = any(s[0] == "i" for s in p.path)
        if self.events is not None:
            self.events.append((p.root, p.path, val))
        self.note_write(p.root, p.path, "data" if has_idx else comp)
        st.vars[p.root] = self.upd(st, self.root(st, p.root), p.path, val)

    def new_tmp(self, st, v, hint="tmp"):
        r = f"{hint}#{next(self.counter)}"
        st.vars[r] = v
        return Ptr(r)

    # ------------------------------------------------------------ names
    def lookup(self, st, name):
        for fn, d in reversed(st.frames):
            if name in d:
                return d[name]
            r = self.rename.get(fn, {}).get(name)
            if r is not None and r in d:
                return d[r]
        raise AttachError(f"no variable '{name}' in scope")

    def lookup_value(self, st, name):
        """Program value of a variable (references and pointers are followed)."""
        deref = True
        if name.startswith("&"):
            deref, name = False, name[1:]
        if name == "this" or name.startswith("this."):
            p = st.vars[self.lookup(st, "this")]
            v = p
            parts = name.split(".")[1:]
        else:
            parts = name.split(".")
            key = self.lookup(st, parts[0])
            v = self.root(st, key)
            parts = parts[1:]
        if deref:
            while isinstance(v, Ptr) and not (v.path and v.path[-1][0] == "i" and not self.is_ref_key(st, name)):
                v = self.read(st, v)
        for f in parts:
            if isinstance(v, Ptr):
                v = self.read(st, v)
            v = v.get(f)
        return v

    def is_ref_key(self, st, name):
        key = self.lookup(st, name.split(".")[0])
        return key in self.ref_vars

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, line=None, kind="assert"):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if is_true(goal):
            g = goal
        self.obls.append(Obligation(label, list(st.pc), goal, line, kind))

    def implied(self, st, goal):
        if self.fast:
            return True
        g = simplify(goal)
        if is_true(g):
            return True
        if is_false(g):
            return False
        s = self.prune_solver
        s.push()
        for f in st.qf:
            s.add(f)
        s.add(Not(g))
        r = s.check()
        s.pop()
        return r == z3.unsat

    def infeasible(self, st, cond):
        if self.fast:
            return False
        s = self.prune_solver
        s.push()
        for f in st.qf:
            s.add(f)
        s.add(cond)
        r = s.check()
        s.pop()
        return r == z3.unsat

    def fork(self, st, cond):
        """[(state under cond)], [(state under not cond)] with pruning."""
        c = simplify(cond) if is_z(cond) else cond
        if is_true(c):
            return st, None
        if is_false(c):
            return None, st
        a = b = None
        if not self.infeasible(st, cond):
            a = st.copy()
            a.assume(cond)
        if not self.infeasible(st, Not(cond)):
            b = st.copy()
            b.assume(Not(cond))
        if a is None and b is None:
            return None, None
        return a, b

    # ------------------------------------------------------------ arithmetic
    def fit(self, st, e, t):
        """Value of mathematical result e stored in integer type t (wraps)."""
        ty = self.types[self.strip_ref(t)]
        if ty["k"] not in ("int", "enum"):
            return e
        w = ty["w"]
        if z3.is_int_value(e):
            v = e.as_long()
            v %= 1 << w
            if ty.get("signed") and v >= 1 << (w - 1):
                v -= 1 << w
            return IntVal(v)
        if ty.get("signed"):
            lo, hi = -(1 << (w - 1)), (1 << (w - 1))
        else:
            lo, hi = 0, 1 << w
        if self.implied(st, And(e >= lo, e < hi)):
            return e
        if ty.get("signed"):
            m = e % (1 << w)
            return If(And(e >= lo, e < hi), e, If(m >= hi, m - (1 << w), m))
        return If(And(e >= lo, e < hi), e, e % (1 << w))

    def is_pow2(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            if v > 0 and v & (v - 1) == 0:
                return v.bit_length() - 1
        return None

    def mul(self, a, b):
        return a * b

    def arith(self, st, op, a, b, t, line=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh(t, "opaque_arith")
        ty = self.types[self.strip_ref(t)]
        if z3.is_real(a) or z3.is_real(b):
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
        if z3.is_bool(a):
            a = If(a, IntVal(1), IntVal(0))
        if z3.is_bool(b):
            b = If(b, IntVal(1), IntVal(0))
        if op == "+":
            return self.fit(st, a + b, t)
        if op == "-":
            return self.fit(st, a - b, t)
        if op == "*":
            if self.contract is not None and self.contract.exact_products:
                return self.mul(a, b)
            return self.fit(st, self.mul(a, b), t)
        if op == "/":
            self.oblige(st, f"division by zero", b != 0, line)
            if ty.get("signed") and not self.implied(st, And(a >= 0, b > 0)):
                q = If(b > 0, If(a >= 0, a / b, -((-a) / b)), If(a >= 0, -(a / (-b)), (-a) / (-b)))
                return q
            return a / b
        if op == "%":
            self.oblige(st, f"modulo by zero", b != 0, line)
            if ty.get("signed") and not self.implied(st, And(a >= 0, b > 0)):
                q = If(a >= 0, a % If(b > 0, b, -b), -((-a) % If(b > 0, b, -b)))
                return q
            return a % b
        if op == "<<":
            w = ty["w"]
            self.oblige(st, "shift amount in range", And(b >= 0, b < w), line)
            if z3.is_int_value(a) and a.as_long() == 1:
                r = SHL1(b)
                if z3.is_int_value(b):
                    return self.fit(st, IntVal(1 << b.as_long()), t)
                k = Int("k!b")
                st.assume(ForAll([k], BIT(r, k) == (k == b), patterns=[BIT(r, k)]))
                self.trusted.add("bit predicate axioms for <<, |, & on int (validated against bit-vectors for 32 bits)")
                return r
            if z3.is_int_value(b):
                return self.fit(st, a * (1 << b.as_long()), t)
            raise Unsupported("<<")
        if op == ">>":
            if z3.is_int_value(b):
                return a / (1 << b.as_long())
            raise Unsupported(">>")
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(x):
                    m = x.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return y % (m + 1)
                    low = (m & -m).bit_length() - 1
                    if m > 0 and (m >> low) & ((m >> low) + 1) == 0:   # adjacent bits
                        return y / (1 << low) % ((m >> low) + 1) * (1 << low)
            r = BAND(a, b)
            for x, y in ((a, b), (b, a)):
                if z3.is_app(y) and y.decl().eq(SHL1):
                    st.assume((r == 0) == Not(BIT(x, y.arg(0))))
            k = Int("k!b")
            st.assume(ForAll([k], BIT(r, k) == And(BIT(a, k), BIT(b, k)), patterns=[BIT(r, k)]))
            return r
        if op == "|":
            r = BOR(a, b)
            k = Int("k!b")
            st.assume(ForAll([k], BIT(r, k) == Or(BIT(a, k), BIT(b, k)), patterns=[BIT(r, k)]))
            return r
        raise Unsupported("operator " + op)

    def compare(self, st, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Bool(self.name("opaque_cmp"))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(st, op, a, b)
        if z3.is_bool(a) and not z3.is_bool(b):
            a = If(a, IntVal(1), IntVal(0))
        if z3.is_bool(b) and not z3.is_bool(a):
            b = If(b, IntVal(1), IntVal(0))
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if z3.is_bool(a):
            a = If(a, IntVal(1), IntVal(0))
            b = If(b, IntVal(1), IntVal(0))
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    def cmp_ptr(self, st, op, a, b):
        if a.root is None or b.root is None:
            r = a.root is None and b.root is None and a.path == b.path
            if op == "==":
                return BoolVal(r)
            if op == "!=":
                return BoolVal(not r)
            raise Unsupported("null compare")
        if a.root == b.root and same_value(a.base(), b.base()) and a.path and b.path and a.path[-1][0] == "i" and b.path[-1][0] == "i":
            return self.compare(st, op, a.idx(), b.idx())
        if op in ("==", "!=") and a.root != b.root:
            return BoolVal(op == "!=")
        if same_value(a, b):
            return BoolVal(op in ("==", "<=", ">="))
        raise Unsupported(f"pointer comparison {a} {op} {b}")

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        """Evaluate an rvalue: list of (state, value)."""
        k = e["k"]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k} {e.get('cls', '')} line {e.get('l')}")
        return m(st, e)

    def ev1(self, st, e):
        r = self.ev(st, e)
        if len(r) != 1:
            raise Unsupported("forking expression where none expected, line %s" % e.get("l"))
        return r[0]

    def ev_list(self, st, es):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def val_or_ref(self, st, e):
        """Argument: lvalues give a Ptr wrapped as reference, rvalues a value."""
        if e.get("lv") or (e["k"] == "mat"):
            return [(s, ("ref", p)) for s, p in self.lv(st, e)]
        return [(s, ("val", v)) for s, v in self.ev(st, e)]

    def args(self, st, es):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.val_or_ref(s, e):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def rv(self, st, a):
        """Value of an argument."""
        if a[0] == "ref":
            v = self.read(st, a[1])
            return v
        return a[1]

    def as_ptr(self, st, a):
        if a[0] == "ref":
            return a[1]
        if isinstance(a[1], Ptr) and len(a) > 2:
            return a[1]
        return self.new_tmp(st, a[1])

    def ev_int(self, st, e):
        return [(st, IntVal(int(e["v"])) if self.kind(e["t"]) != "bool" else BoolVal(e["v"] not in ("0", 0)))]

    def ev_bool(self, st, e):
        return [(st, BoolVal(bool(e["v"])))]

    def ev_enumc(self, st, e):
        return [(st, IntVal(int(e["v"])))]

    def ev_float(self, st, e):
        try:
            return [(st, z3.RealVal(e["v"].replace("E+", "e").replace("E", "e")) if "E" not in e["v"] else z3.RealVal(str(float(e["v"]))))]
        except Exception:
            return [(st, z3.Real(self.name("flt")))]

    def ev_str(self, st, e):
        arr = z3.K(INT, IntVal(0))
        for i, c in enumerate(e.get("v", [])):
            arr = Store(arr, IntVal(i), IntVal(c if c < 128 else c - 256))
        t = self.types[e["t"]]
        return [(st, Vec(IntVal(len(e.get("v", [])) + 1), arr, t.get("to"), None))]

    def ev_nullptr(self, st, e):
        return [(st, NULL)]

    def ev_opaque(self, st, e):
        return [(st, Opaque())]

    def ev_zero(self, st, e):
        return [(st, self.zero(e["t"]))]

    def zero(self, t):
        k = self.kind(self.strip_ref(t))
        if k in ("int", "enum"):
            return IntVal(0)
        if k == "bool":
            return BoolVal(False)
        if k == "float":
            return z3.RealVal(0)
        if k in ("ptr", "sptr"):
            return NULL
        if k in ("vec", "array"):
            v = self.fresh(t, "z")
            if v.const_len is None:
                v = Vec(IntVal(0), v.data, v.et, None)
            else:
                zt = self.kind(v.et)
                if zt in ("int", "enum"):
                    v = Vec(v.n, z3.K(INT, IntVal(0)), v.et, v.const_len)
            return v
        if k == "rec":
            ty = self.types[self.strip_ref(t)]
            fs = {}
            if ty["name"] == "std::pair":
                for i, f in enumerate(("first", "second")):
                    fs[f] = self.zero(ty["args"][i]["t"])
            else:
                for f in self.all_fields(self.strip_ref(t)):
                    fs[f["name"]] = self.zero(f["t"])
            return Rec(self.strip_ref(t), fs, None, self)
        return Opaque("zero")

    def ev_this(self, st, e):
        return [(st, st.vars[self.lookup(st, "this")])]

    def ev_var(self, st, e):
        return [(s, self.read(s, p)) for s, p in self.lv(st, e)]

    def ev_binding(self, st, e):
        return [(s, self.read(s, p)) for s, p in self.lv(st, e)]

    def ev_mem(self, st, e):
        if e.get("static"):
            return self.ev_static(st, e)
        return [(s, self.read(s, p)) for s, p in self.lv(st, e)]

    ev_sub = ev_mem

    def ev_static(self, st, e):
        if "cv" in e:
            v = int(e["cv"])
            return [(st, BoolVal(bool(v)) if self.kind(e["t"]) == "bool" else IntVal(v))]
        return [(st, self.fresh(e["t"], "static." + e.get("q", "?"), exact=True))]

    def ev_mat(self, st, e):
        return self.ev(st, e["e"])

    def ev_stdinit(self, st, e):
        return self.ev(st, e["e"])

    def ev_fnref(self, st, e):
        return [(st, ("fn", e["c"]))]

    def ev_throw(self, st, e):
        st.vars["@throw"] = True
        raise Unsupported("throw in expression")

    def ev_cast(self, st, e):
        ck = e["ck"]
        sub = e["e"]
        t = e["t"]
        if ck == "LValueToRValue":
            out = []
            for s, p in self.lv(st, sub):
                v = self.read(s, p)
                for f in self.type_facts(t, v):
                    s.assume(f)
                out.append((s, v))
            return out
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "BaseToDerived"):
            if e.get("lv"):
                return [(s, self.read(s, p)) for s, p in self.lv(st, sub)]
            return self.ev(st, sub)
        if ck == "ToVoid":
            return [(s, Opaque("void")) for s, _ in (self.ev(st, sub) if not sub.get("lv") else [(st, None)])]
        if ck == "ArrayToPointerDecay":
            return [(s, p.ext("i", IntVal(0))) for s, p in self.lv(st, sub)]
        out = []
        for s, v in self.ev(st, sub):
            if isinstance(v, Opaque):
                out.append((s, self.fresh(t, "opq") if self.kind(t) in ("int", "bool", "enum", "float") else v))
                continue
            if ck == "IntegralCast":
                if z3.is_bool(v):
                    v = If(v, IntVal(1), IntVal(0))
                else:
                    # facts about the source type
                    for f in self.type_facts(sub["t"], v):
                        if not z3.is_int_value(v):
                            s.assume(f)
                out.append((s, self.fit(s, v, t)))
            elif ck == "IntegralToBoolean":
                out.append((s, v != 0 if not z3.is_bool(v) else v))
            elif ck == "PointerToBoolean":
                out.append((s, BoolVal(v.root is not None)))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck == "IntegralToPointer" and z3.is_int_value(z3.simplify(v)):   # marks failure, e.g. MAP_FAILED
                out.append((s, Ptr(None, (("c", z3.simplify(v).as_long()),))))
            elif ck == "IntegralToFloating":
                if z3.is_bool(v):
                    v = If(v, IntVal(1), IntVal(0))
                out.append((s, z3.ToReal(v) if z3.is_int(v) else v))
            elif ck == "FloatingCast":
                out.append((s, v))
            elif ck == "FloatingToIntegral":
                out.append((s, self.fit(s, z3.ToInt(v), t)))
            else:
                raise Unsupported(f"cast {ck} line {e.get('l')}")
        return out

    def ev_bin(self, st, e):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.ev(st, e["a"]):
                if isinstance(a, Opaque):
                    a = Bool(self.name("opq"))
                short = Not(a) if op == "&&" else a
                go, stop = self.fork(s, a if op == "&&" else Not(a))
                if go is None:
                    out.append((stop if stop is not None else s, BoolVal(op == "||")))
                    continue
                npc = len(go.pc)
                rs = self.ev(go, e["b"])
                if stop is None:
                    out.extend(rs)
                    continue
                if len(rs) == 1 and self.same_vars(rs[0][0], stop):
                    s2, b = rs[0]
                    m = stop.copy()
                    # drop the assumption on the condition again
                    m.pc = list(s.pc)
                    m.qf = list(s.qf)
                    m.vars = s2.vars
                    for f in s2.pc[npc:]:
                        m.assume(Implies(Not(short), f))
                    out.append((m, And(a, b) if op == "&&" else Or(a, b)))
                else:
                    out.append((stop, BoolVal(op == "||")))
                    out.extend(rs)
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(st, e["a"]):
                out += self.ev(s, e["b"])
            return out
        out = []
        for s, (a, b) in self.ev_list(st, [e["a"], e["b"]]):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out.append((s, self.compare(s, op, a, b)))
            elif isinstance(a, Ptr) and op in ("+", "-"):
                if isinstance(b, Ptr):
                    out.append((s, self.ptr_diff(s, a, b)))
                else:
                    if a.root is None and self.implied(s, b == 0):
                        out.append((s, a))
                        continue
                    out.append((s, a.with_idx(simplify_idx(a.idx() + b if op == "+" else a.idx() - b))))
            elif isinstance(b, Ptr) and op == "+":
                out.append((s, b.with_idx(simplify_idx(b.idx() + a))))
            else:
                out.append((s, self.arith(s, op, a, b, e["t"], e.get("l"))))
        return out

    def ptr_diff(self, st, a, b):
        if a.root == b.root and same_value(a.base(), b.base()):
            return a.idx() - b.idx()
        raise Unsupported("difference of unrelated pointers")

    def same_vars(self, a, b):
        for k in a.vars:
            if k in b.vars and not same_value(a.vars[k], b.vars[k]):
                return False
        return True

    def ev_cond(self, st, e):
        out = []
        for s, c in self.ev(st, e["c"]):
            if isinstance(c, Opaque):
                c = Bool(self.name("opq"))
            a, b = self.fork(s, c)
            if a is not None:
                ra = self.ev(a, e["a"])
            else:
                ra = []
            if b is not None:
                rb = self.ev(b, e["b"])
            else:
                rb = []
            if len(ra) == 1 and len(rb) == 1 and self.same_vars(ra[0][0], rb[0][0]):
                try:
                    v = ite(c, ra[0][1], rb[0][1])
                    m = s.copy()
                    for f in ra[0][0].pc[len(s.pc):]:
                        m.assume(Implies(c, f))
                    for f in rb[0][0].pc[len(s.pc):]:
                        m.assume(Implies(Not(c), f))
                    m.vars = dict(rb[0][0].vars)
                    m.vars.update(ra[0][0].vars)
                    out.append((m, v))
                    continue
                except Unsupported:
                    pass
            out += ra + rb
        return out

    def ev_assign(self, st, e):
        return [(s, self.read(s, p)) for s, p in self.lv_assign(st, e)]

    def lv_assign(self, st, e):
        out = []
        for s, v in self.ev(st, e["b"]):
            for s2, p in self.lv(s, e["a"]):
                self.write(s2, p, v)
                out.append((s2, p))
        return out

    def ev_cassign(self, st, e):
        return [(s, self.read(s, p)) for s, p in self.lv_cassign(st, e)]

    def lv_cassign(self, st, e):
        out = []
        for s, v in self.ev(st, e["b"]):
            for s2, p in self.lv(s, e["a"]):
                old = self.read(s2, p)
                for f in self.type_facts(e["a"]["t"], old) if is_z(old) else []:
                    s2.assume(f)
                if isinstance(old, Ptr):
                    r = old.with_idx(simplify_idx(old.idx() + v if e["op"] == "+" else old.idx() - v))
                elif e["op"] in ("|", "&") and self.kind(self.strip_ref(e["a"]["t"])) == "bool" and is_z(v) and is_z(old):
                    x, y = (w if z3.is_bool(w) else w != 0 for w in (old, v))
                    if e["op"] == "&" and not z3.is_bool(v):
                        raise Unsupported("& of a bool and an int")
                    r = z3.Or(x, y) if e["op"] == "|" else z3.And(x, y)
                else:
                    r = self.arith(s2, e["op"], old, v, e["ct"], e.get("l"))
                    r = self.convert(s2, r, e["a"]["t"])
                self.write(s2, p, r)
                out.append((s2, p))
        return out

    def convert(self, st, v, t):
        k = self.kind(self.strip_ref(t))
        if k in ("int", "enum") and is_z(v):
            if z3.is_real(v):
                v = z3.ToInt(v)
            if z3.is_bool(v):
                v = If(v, IntVal(1), IntVal(0))
            return self.fit(st, v, t)
        if k == "float" and is_z(v) and z3.is_int(v):
            return z3.ToReal(v)
        return v

    def ev_un(self, st, e):
        op = e["op"]
        if op in ("++", "--"):
            out = []
            for s, p in self.lv(st, e["e"]):
                old = self.read(s, p)
                if isinstance(old, Ptr):
                    new = old.with_idx(simplify_idx(old.idx() + (1 if op == "++" else -1)))
                else:
                    for f in self.type_facts(e["e"]["t"], old):
                        s.assume(f)
                    new = self.fit(s, old + (1 if op == "++" else -1), e["e"]["t"])
                self.write(s, p, new)
                out.append((s, old if e["post"] else new))
            return out
        if op == "&":
            return self.lv(st, e["e"])
        if op == "*":
            return [(s, self.read(s, p)) for s, p in self.lv(st, e)]
        if op == "__extension__":
            return self.ev(st, e["e"])
        out = []
        for s, v in self.ev(st, e["e"]):
            if op == "!":
                if isinstance(v, Opaque):
                    v = Bool(self.name("opq"))
                out.append((s, Not(v)))
            elif op == "-":
                out.append((s, self.fit(s, -v, e["t"]) if z3.is_int(v) else -v))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                ty = self.types[e["t"]]
                out.append((s, self.fit(s, -v - 1, e["t"])))
            else:
                raise Unsupported("unary " + op)
        return out

    def ev_initlist(self, st, e):
        t = e["t"]
        k = self.kind(t)
        ty = self.types[t]
        if k in ("int", "bool", "enum", "float", "ptr"):
            return self.ev(st, e["a"][0]) if e["a"] else [(st, self.zero(t))]
        out = []
        for s, vs in self.ev_list(st, e["a"]):
            if k in ("array",) or (k == "vec" and ty.get("name") == "std::array" and not (len(vs) == 1 and isinstance(vs[0], Vec))):
                v = self.zero(t)
                d = v.data
                for i, x in enumerate(vs):
                    d = store(d, IntVal(i), x)
                out.append((s, Vec(v.n, d, v.et, v.const_len)))
            elif k == "vec":
                out.append((s, vs[0]))
            elif k == "rec":
                fs = self.all_fields(t)
                r = {}
                for f, x in zip(fs, vs):
                    r[f["name"]] = x
                for f in fs[len(vs):]:
                    r[f["name"]] = self.zero(f["t"])
                out.append((s, Rec(t, r, None, self)))
            else:
                out.append((s, Opaque("initlist")))
        return out

    def ev_lambda(self, st, e):
        caps = {}
        s = st
        this = None
        for c in e["captures"]:
            if c.get("this"):
                this = s.vars[self.lookup(s, "this")]
                continue
            if c["byref"]:
                # captured variable, found under its own id
                key = c["var"]
                init = c.get("init")
                if init is not None:
                    rs = self.lv(s, init)
                    s, p = rs[0]
                    caps[key] = ("ref", p)
                else:
                    caps[key] = ("ref", Ptr(key))
            else:
                s, v = self.ev1(s, c["init"])
                caps[c["var"]] = ("val", v)
            caps[c["var"]] += (c.get("name"), )
        fn = e.get("c", {}).get("f")
        if fn is None and e.get("gc"):
            fn = e["gc"][0]["f"]
        return [(s, Lam(fn, caps, this))]

    def ev_new(self, st, e):
        if "n" in e:
            s, n = self.ev1(st, e["n"])
            v = self.fresh(e["at"], "new", 1)
            p = self.new_tmp(s, Vec(n, v, e["at"], None), "heap")
            return [(s, p.ext("i", IntVal(0)))]
        if "place" in e and "ce" in e and self.types[self.strip_ref(e["place"]["t"])]["k"] == "ptr":
            out = []
            for s, v in self.ev(st, e["ce"]):
                for s2, p in self.ev(s, e["place"]):
                    if not isinstance(p, Ptr):
                        raise Unsupported("placement new")
                    self.write(s2, p, v)
                    out.append((s2, p))
            return out
        if "ce" in e:
            return [(s, self.new_tmp(s, v, "heap")) for s, v in self.ev(st, e["ce"])]
        return [(st, self.new_tmp(st, self.fresh(e["at"], "new"), "heap"))]

    def ev_delete(self, st, e):
        return [(s, Opaque("void")) for s, _ in self.ev(st, e["e"])]

    # calls ----------------------------------------------------------
    def ev_call(self, st, e):
        return self.deref_result(self.call(st, e), e)

    ev_mcall = ev_call
    ev_opcall = ev_call
    ev_construct = ev_call

    def deref_result(self, rs, e):
        out = []
        for s, r in rs:
            if r is None:
                out.append((s, Opaque("void")))
            elif r[0] == "ref":
                out.append((s, self.read(s, r[1])))
            else:
                out.append((s, r[1]))
        return out

    def call(self, st, e):
        """Returns list of (state, None | ('val', v) | ('ref', ptr))."""
        k = e["k"]
        if k == "construct":
            return self.construct(st, e)
        if k == "call" and "c" not in e:
            out = []
            for s, f in self.ev(st, e["fe"]):
                for s2, a in self.args(s, e["a"]):
                    out += self.apply(s2, f, a, e)
            return out
        if "c" not in e:
            raise Unsupported("call without callee, line %s" % e.get("l"))
        c = e["c"]
        if k == "mcall":
            base = e["b"]
            out = []
            if e.get("arrow"):
                bs = [(s, ("ref", p)) if isinstance(p, Ptr) else (s, ("val", p)) for s, p in self.ev(st, base)]
            else:
                bs = self.val_or_ref(st, base)
            for s, b in bs:
                for s2, a in self.args(s, e["a"]):
                    out += self.invoke(s2, c, b, a, e)
            return out
        if k == "opcall":
            fn = self.fns.get(str(c["f"]), {})
            is_member = "this" in fn
            out = []
            for s, a in self.args(st, e["a"]):
                if is_member:
                    out += self.invoke(s, c, a[0], a[1:], e)
                elif fn.get("static") and fn.get("q", "").endswith("operator()"):
                    out += self.invoke(s, c, None, a[1:], e)
                else:
                    out += self.invoke(s, c, None, a, e)
            return out
        out = []
        for s, a in self.args(st, e["a"]):
            out += self.invoke(s, c, None, a, e)
        return out

    def apply(self, st, f, a, e):
        if isinstance(f, Lam):
            return self.inline(st, f.fn, ("val", f), a, e)
        if isinstance(f, PureFn):
            return [(st, ("val", f.f(self, st, [self.rv(st, x) for x in a])))]
        if isinstance(f, Opaque):
            return [(st, ("val", self.fresh(e["t"], "opqcall") if self.kind(e["t"]) in ("int", "bool", "enum", "float") else Opaque("call")))]
        if isinstance(f, tuple) and f[0] == "fn":
            return self.invoke(st, f[1], None, a, e)
        raise Unsupported(f"apply {type(f)}")

    def construct(self, st, e):
        c = e["c"]
        t = e["t"]
        k = self.kind(t)
        out = []
        m = self.models.get(c["q"]) or None
        for s, a in self.args(st, e["a"]):
            own = self.fns.get(str(c["f"])) if self.contract is not None and self.contract.inlined and c["q"].startswith(self.contract.inlined) else None
            if (e.get("copy") or e.get("move")) and len(a) == 1 and not (own and "body" in own and not own.get("defaulted")):
                v = self.rv(s, a[0])
                if not isinstance(v, Lam) and self.model_for(c) is None or k in ("tab", "vec", "row", "iter", "rec", "opaque", "opt", "sptr"):
                    out.append((s, ("val", v)))
                    continue
            mf = self.model_for(c)
            if mf:
                self.trusted.add(c["q"])
                out += mf(self, s, None, a, e)
                continue
            if k == "opaque":
                out.append((s, ("val", Opaque(self.types[t]["s"]))))
                continue
            if k == "rec":
                fn = self.fns.get(str(c["f"]))
                if e.get("default") and (fn is None or "body" not in fn or fn.get("defaulted")):
                    out.append((s, ("val", self.zero(t))))
                    continue
                if fn and "body" in fn:
                    out += self.inline_ctor(s, c, fn, a, e)
                    continue
                if self.types[t]["name"] == "std::pair" and len(a) == 2:
                    out.append((s, ("val", Rec(t, {"first": self.rv(s, a[0]), "second": self.rv(s, a[1])}, None, self))))
                    continue
                if len(a) == 1 and isinstance(self.rv(s, a[0]), Rec):
                    out.append((s, ("val", self.rv(s, a[0]))))
                    continue
            raise Unsupported(f"constructor {c['q']} of {self.types[t]['s']} line {e.get('l')}")
        return out

    def inline_ctor(self, st, c, fn, a, e):
        p = self.new_tmp(st, Rec(e["t"], {}, None, self), "obj")
        obj = Rec(e["t"], {}, None, self)
        st.vars[p.root] = obj
        key_this = f"this#{next(self.counter)}"
        st.vars[key_this] = p
        st.frames.append((fn["q"], {"this": key_this}))
        self.bind_params(st, fn, a)
        states = [st]
        for i in fn.get("inits", []):
            nxt = []
            for s in states:
                for s2, v in self.ev(s, i["e"]):
                    if "field" in i:
                        self.write(s2, p.ext("f", i["field"]), v)
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            for s2, o in self.ex(s, fn["body"]):
                s2.frames.pop()
                out.append((s2, ("val", self.read(s2, p))))
        return out

    def model_for(self, c):
        q = c["q"]
        if self.contract is not None:
            m = self.contract.models.get(q)
            if m:
                return m
        if self.contract is not None and q.startswith(self.contract.inlined):
            return None
        m = self.models.get(q)
        if m:
            return m
        # class-wide fallbacks for streams and the like
        for pre, m in self.models.get("@prefix", []):
            if q.startswith(pre):
                return m
        return None

    def invoke(self, st, c, base, a, e):
        q = c["q"]
        if self.contract is not None and q in self.contract.hooks_before:
            self.contract.hooks_before[q](SpecView(self, st), self, st, base, a)
        # closures
        if q.endswith("<lambda>::operator()"):
            f = self.rv(st, base)
            if isinstance(f, Opaque):
                return [(st, ("val", Opaque("call")))]
            if isinstance(f, PureFn):
                return self.apply(st, f, a, e)
            return self.inline(st, c["f"], ("val", f), a, e)
        if base is not None:
            bv = None
            if base[0] == "val":
                bv = base[1]
            else:
                try:
                    bv = self.read(st, base[1])
                except Unsupported:
                    bv = None
            if isinstance(bv, Opaque) and not (self.contract and q in self.contract.models):
                t = c["ret"]
                if self.contract and any(m.rsplit("::", 1)[0] == q.rsplit("::", 1)[0] for m in self.contract.models):
                    raise Unsupported(f"no contract for {q} line {e.get('l')}")
                return [(st, ("val", self.fresh_call(st, t, q)))]
        m = self.model_for(c)
        if m:
            self.trusted.add(q)
            rs = m(self, st, base, a, e)
        else:
            fn = self.fns.get(str(c["f"]))
            if fn is not None and "body" in fn:
                rs = self.inline(st, c["f"], base, a, e)
            else:
                vals = [x[1] if x[0] == "val" else None for x in a]
                if any(isinstance(x, Opaque) for x in vals) or self.any_opaque(st, a):
                    return [(st, ("val", self.fresh_call(st, c["ret"], q)))]
                raise Unsupported(f"call to {q} <{c.get('cta','')}> line {e.get('l')}")
        if self.contract is not None and q.endswith("::emplace_back") and q not in self.contract.hooks:
            q = q[:-len("emplace_back")] + "push_back"
        if self.contract is not None and q in self.contract.hooks:
            for s, r in rs:
                self.contract.hooks[q](SpecView(self, s), self, s, base, a, r)
        return rs

    def any_opaque(self, st, a):
        for x in a:
            try:
                if isinstance(self.rv(st, x), Opaque):
                    return True
            except Unsupported:
                pass
        return False

    def fresh_call(self, st, t, q):
        k = self.kind(self.strip_ref(t)) if self.types[t]["k"] != "void" else "void"
        if k in ("int", "bool", "enum", "float"):
            v = self.fresh(t, "call." + q)
            for f in self.type_facts(t, v):
                st.assume(f)
            return v
        return Opaque("result of " + q)

    def bind_params(self, st, fn, a):
        ps = fn["params"]
        if len(a) < len(ps):
            raise Unsupported(f"missing arguments for {fn['q']}")
        for p, x in zip(ps, a):
            self.bind_var(st, p["id"], p["name"], p["t"], x)

    def bind_var(self, st, vid, name, t, x):
        """x: ('ref', ptr) or ('val', v)."""
        key = vid
        if st.frames:
            # recursion or repeated inlining: a fresh key keeps instances apart
            st.frames[-1][1][name] = key
        ty = self.types[t]
        if ty["k"] == "ref":
            if x[0] == "ref":
                st.vars[key] = x[1]
            else:
                st.vars[key] = self.new_tmp(st, x[1])
            self.ref_vars.add(key)
        else:
            v = self.rv(st, x)
            st.vars[key] = v
            self.note_write(key, (), "*")

    def inline(self, st, fid, base, a, e):
        fn = self.fns.get(str(fid))
        if fn is None or "body" not in fn:
            raise Unsupported(f"no body for {fn['q'] if fn else fid}")
        if self.inline_depth > 12:
            raise Unsupported("inlining too deep")
        self.inlined.add(fn["q"])
        self.inline_depth += 1
        depth = len(st.frames)
        d = {}
        saved = []
        st.frames.append((fn["q"], d))
        if base is not None:
            if base[0] == "ref":
                bv = self.read(st, base[1])
                if isinstance(bv, Lam):
                    base = ("val", bv)
            if base[0] == "val" and isinstance(base[1], Lam):
                lam = base[1]
                for vid, (kind, v, nm) in lam.caps.items():
                    d[nm] = vid
                    if kind == "ref":
                        want = v if vid in self.ref_vars else None
                        if want is None and v.root == vid and not v.path:
                            continue
                        if vid in self.ref_vars and vid in st.vars and isinstance(st.vars[vid], Ptr) and same_value(st.vars[vid], v):
                            continue
                        if vid in self.ref_vars and v.root == vid and not v.path:
                            continue
                        raise Unsupported("capture of a rebound variable")
                    cur = st.vars.get(vid)
                    if cur is not None and vid in self.ref_vars:
                        cur = self.read(st, cur)
                    if cur is not None and same_value(cur, v):
                        continue
                    saved.append((vid, st.vars.get(vid)))
                    if vid in self.ref_vars:
                        st.vars[vid] = self.new_tmp(st, v)
                    else:
                        st.vars[vid] = v
                if lam.this is not None:
                    kt = f"this#{next(self.counter)}"
                    st.vars[kt] = lam.this
                    d["this"] = kt
            else:
                kt = f"this#{next(self.counter)}"
                st.vars[kt] = self.as_ptr(st, base)
                d["this"] = kt
        self.bind_params(st, fn, a)
        out = []
        for s, o in self.ex(st, fn["body"]):
            s.frames = s.frames[:depth]
            for vid, v in saved:
                if v is None:
                    s.vars.pop(vid, None)
                else:
                    s.vars[vid] = v
            if o is None:
                out.append((s, None))
            elif o[0] == "return":
                out.append((s, o[1]))
            elif o[0] == "throw":
                self.thrown.append(s)
            else:
                raise Unsupported(f"outcome {o} leaves function")
        self.inline_depth -= 1
        return out

    # ------------------------------------------------------------ lvalues
    def lv(self, st, e):
        k = e["k"]
        if k == "var":
            if e.get("global"):
                key = "glob." + e["q"]
                if key not in st.vars:
                    if "cv" in e:
                        v = int(e["cv"])
                        st.vars[key] = BoolVal(bool(v)) if self.kind(e["t"]) == "bool" else IntVal(v)
                    elif "init" in e and self.kind(self.strip_ref(e["t"])) in ("int", "vec", "array", "float"):
                        try:
                            st2, v = self.ev1(st, e["init"])
                            st.vars[key] = v
                        except Unsupported:
                            st.vars[key] = self.fresh(e["t"], key, exact=True)
                    else:
                        st.vars[key] = self.fresh(e["t"], key, exact=True)
                return [(st, Ptr(key))]
            vid = e["id"]
            if "cv" in e and vid not in st.vars:
                st.vars[vid] = IntVal(int(e["cv"])) if self.kind(e["t"]) != "bool" else BoolVal(e["cv"] != "0")
            if vid not in st.vars:
                raise Unsupported(f"unbound variable {e['name']} line {e.get('l')}")
            if vid in self.ref_vars:
                return [(st, st.vars[vid])]
            return [(st, Ptr(vid))]
        if k == "binding":
            if e.get("hold") is not None and e["hold"] in st.vars:
                h = e["hold"]
                return [(st, st.vars[h] if h in self.ref_vars else Ptr(h))]
            if "e" in e:
                return self.lv(st, e["e"])
            raise Unsupported("structured binding")
        if k == "mem":
            if e.get("static"):
                (s, v), = self.ev_static(st, e)
                return [(s, self.new_tmp(s, v))]
            out = []
            if e["arrow"]:
                bs = self.ev(st, e["b"])
            elif e["b"].get("lv") or e["b"]["k"] == "mat":
                bs = self.lv(st, e["b"])
            else:
                bs = [(s, self.new_tmp(s, v)) for s, v in self.ev(st, e["b"])]
            for s, p in bs:
                if isinstance(p, Opaque):
                    out.append((s, self.new_tmp(s, self.fresh(e["t"], "opqfield"))))
                    continue
                p2 = p.ext("f", e["name"])
                v = self.read(s, p2)
                if isinstance(v, Ptr) and self.types[self.member_decl_type(s, p, e)]["k"] == "ref":
                    out.append((s, v))
                else:
                    if self.kind(self.strip_ref(e["t"])) in ("int", "enum", "vec", "tab"):
                        for f in self.type_facts(e["t"], v):
                            s.assume(f)
                    out.append((s, p2))
            return out
        if k == "sub":
            out = []
            for s, b in self.ev(st, e["b"]):
                for s2, i in self.ev(s, e["i"]):
                    if isinstance(b, Opaque):
                        out.append((s2, self.new_tmp(s2, self.fresh(e["t"], "opqelem"))))
                        continue
                    p = b.with_idx(simplify_idx(b.idx() + i))
                    self.bounds(s2, p, e)
                    out.append((s2, p))
            return out
        if k == "un" and e["op"] == "*":
            out = []
            for s, v in self.ev(st, e["e"]):
                if isinstance(v, Opaque):
                    out.append((s, self.new_tmp(s, self.fresh(e["t"], "opqderef"))))
                    continue
                if v.path and v.path[-1][0] == "i":
                    self.bounds(s, v, e)
                out.append((s, v))
            return out
        if k == "un" and e["op"] in ("++", "--"):
            out = []
            for s, p in self.lv(st, e["e"]):
                old = self.read(s, p)
                if isinstance(old, Ptr):
                    new = old.with_idx(simplify_idx(old.idx() + (1 if e["op"] == "++" else -1)))
                else:
                    for f in self.type_facts(e["e"]["t"], old):
                        s.assume(f)
                    new = self.fit(s, old + (1 if e["op"] == "++" else -1), e["e"]["t"])
                self.write(s, p, new)
                out.append((s, p))
            return out
        if k == "assign":
            return self.lv_assign(st, e)
        if k == "cassign":
            return self.lv_cassign(st, e)
        if k == "cast":
            if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "UserDefinedConversion", "ConstructorConversion"):
                if not (e["e"].get("lv") or e["e"]["k"] in ("mat", "call", "mcall", "opcall", "cast", "var", "mem")):
                    return [(s, self.new_tmp(s, v)) for s, v in self.ev(st, e["e"])]
                return self.lv(st, e["e"])
            if e.get("lv"):
                return self.lv(st, e["e"])
        if k == "mat":
            out = []
            sub = e["e"]
            for s, v in self.ev(st, sub):
                out.append((s, self.new_tmp(s, v)))
            return out
        if k in ("call", "mcall", "opcall", "construct"):
            out = []
            for s, r in self.call(st, e):
                if r is None:
                    out.append((s, self.new_tmp(s, Opaque("void"))))
                elif r[0] == "ref":
                    out.append((s, r[1]))
                else:
                    out.append((s, self.new_tmp(s, r[1])))
            return out
        if k == "cond":
            out = []
            for s, c in self.ev(st, e["c"]):
                a, b = self.fork(s, c)
                if a is not None:
                    out += self.lv(a, e["a"])
                if b is not None:
                    out += self.lv(b, e["b"])
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(st, e["a"]):
                out += self.lv(s, e["b"])
            return out
        return [(s, self.new_tmp(s, v)) for s, v in self.ev(st, e)]

    def member_decl_type(self, st, p, e):
        try:
            v = self.read(st, p)
            if isinstance(v, Rec):
                return self.field_type(v.ty, e["name"])
        except Unsupported:
            pass
        return e["t"]

    def bounds(self, st, p, e):
        """Obligation: the element addressed by p exists."""
        try:
            c = self.read(st, p.base())
        except Unsupported:
            return
        i = p.idx()
        if isinstance(c, (Vec, Tab)):
            n = c.n
        elif isinstance(c, Row):
            n = c.cols
        else:
            return
        if not is_z(n):
            n = IntVal(n)
        g = And(i >= 0, i < n)
        self.oblige(st, "index within bounds", g, e.get("l"), "bounds")
        st.assume(g)

    # ------------------------------------------------------------ statements
    def ex(self, st, s):
        if s is None:
            return [(st, None)]
        k = s["k"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            raise Unsupported(f"statement {k} {s.get('cls','')} line {s.get('l')}")
        return m(st, s)

    def ex_block(self, st, s):
        return self.ex_seq(st, s["a"], 0)

    def ex_seq(self, st, a, i0):
        cur = [(st, i0)]
        out = []
        pend = [(st, i0)]
        while pend:
            s, i = pend.pop()
            while True:
                if i >= len(a):
                    out.append((s, None))
                    break
                rs = self.ex(s, a[i])
                rs2 = []
                for s2, o in rs:
                    if o is None:
                        rs2.append((s2, i + 1))
                    elif o[0] == "goto":
                        j = self.find_label(a, o[1])
                        if j is None:
                            out.append((s2, o))
                        elif j <= i:
                            raise Unsupported("backward goto")
                        else:
                            rs2.append((s2, j))
                    else:
                        out.append((s2, o))
                if not rs2:
                    break
                if len(rs2) > 1:
                    rs2 = self.try_merge(rs2)
                for x in rs2[1:]:
                    pend.append(x)
                s, i = rs2[0]
        return out

    def try_merge(self, rs):
        return rs

    def find_label(self, a, name):
        for j, x in enumerate(a):
            y = x
            while y is not None and y["k"] == "label":
                if y["name"] == name:
                    return j
                y = y["s"]
        return None

    def ex_label(self, st, s):
        return self.ex(st, s["s"])

    def ex_goto(self, st, s):
        return [(st, ("goto", s["to"]))]

    def ex_break(self, st, s):
        return [(st, ("break",))]

    def ex_continue(self, st, s):
        return [(st, ("continue",))]

    def ex_return(self, st, s):
        e = s["e"]
        if e is None:
            return [(st, ("return", None))]
        if e.get("lv"):
            return [(s2, ("return", ("ref", p))) for s2, p in self.lv(st, e)]
        return [(s2, ("return", ("val", v))) for s2, v in self.ev(st, e)]

    def ex_expr(self, st, s):
        e = s["e"]
        return self.ex_e(st, e)

    def ex_e(self, st, e):
        if e["k"] == "throw":
            return [(st, ("throw",))]
        if e["k"] == "cast" and e["ck"] == "ToVoid":
            return self.ex_e(st, e["e"])
        if e.get("lv"):
            return [(s, None) for s, _ in self.lv(st, e)]
        return [(s, None) for s, _ in self.ev(st, e)]

    def ex_decl(self, st, s):
        states = [st]
        for v in s["a"]:
            nxt = []
            for x in states:
                nxt += self.decl(x, v)
            states = nxt
        return [(x, None) for x in states]

    def decl(self, st, v):
        t = v["t"]
        ty = self.types[t]
        vid = v["id"]
        out = []
        if v.get("staticlocal"):
            st.vars[vid] = self.fresh(t, v["name"])
            if st.frames:
                st.frames[-1][1][v["name"]] = vid
            return [st]
        if "init" not in v or v["init"] is None:
            st.vars[vid] = self.fresh(t, v["name"])
            self.note_write(vid, (), "*")
            self.ref_vars.discard(vid)
            if st.frames:
                st.frames[-1][1][v["name"]] = vid
            return [st]
        if ty["k"] == "ref":
            init = v["init"]
            rs = self.lv(st, init) if (init.get("lv") or init["k"] in ("mat",)) else [(s, self.new_tmp(s, x)) for s, x in self.ev(st, init)]
            for s, p in rs:
                s.vars[vid] = p
                self.ref_vars.add(vid)
                if s.frames:
                    s.frames[-1][1][v["name"]] = vid
                self.bindings(s, v, p)
                out.append(s)
            return out
        for s, x in self.ev(st, v["init"]):
            if is_z(x):
                x = self.convert(s, x, t)
            s.vars[vid] = x
            self.note_write(vid, (), "*")
            self.ref_vars.discard(vid)
            if s.frames:
                s.frames[-1][1][v["name"]] = vid
            self.bindings(s, v, Ptr(vid))
            out.append(s)
        return out

    def bindings(self, st, v, p):
        for i, b in enumerate(v.get("bindings", [])):
            if b.get("hold"):
                h = b["hold"]
                val = self.read(st, p)
                f = ("first", "second")[i] if isinstance(val, Rec) and "first" in val.fields else None
                if isinstance(val, Rec) and f is None and self.types[val.ty].get("name") == "std::pair":
                    f = ("first", "second")[i]
                if f is not None:
                    q = p.ext("f", f)
                elif isinstance(val, Vec):
                    q = p.ext("i", IntVal(i))
                elif isinstance(val, Rec) and str(i) in val.fields:
                    q = p.ext("f", str(i))
                else:
                    raise Unsupported("structured binding")
                st.vars[h["id"]] = q
                self.ref_vars.add(h["id"])
                if st.frames:
                    st.frames[-1][1][b["name"]] = h["id"]

    def ex_if(self, st, s):
        out = []
        states = [st]
        if s.get("init"):
            states = [x for x, o in self.ex(st, s["init"])]
        if s.get("cv"):
            states = [y for x in states for y in self.decl(x, s["cv"])]
        for x in states:
            for s2, c in self.ev(x, s["c"]):
                if isinstance(c, Opaque):
                    c = Bool(self.name("opq"))
                a, b = self.fork(s2, c)
                if a is not None:
                    out += self.ex(a, s["a"])
                if b is not None:
                    out += self.ex(b, s["b"])
        return out

    def ex_switch(self, st, s):
        out = []
        states = [st]
        if s.get("init"):
            states = [x for x, o in self.ex(st, s["init"])]
        body = s["body"]["a"] if s["body"]["k"] == "block" else [s["body"]]
        # flatten: list of (labels, stmt)
        flat = []
        for b in body:
            labels = []
            y = b
            while y is not None and y["k"] in ("case", "default"):
                labels.append(y)
                y = y["s"]
            flat.append((labels, y))
        for x in states:
            for s2, c in self.ev(x, s["c"]):
                rest = s2
                default = None
                for i, (labels, y) in enumerate(flat):
                    for lb in labels:
                        if lb["k"] == "default":
                            default = i
                            continue
                        if rest is None:
                            continue
                        (_, v), = self.ev(rest, lb["v"])
                        a, b = self.fork(rest, c == v)
                        if a is not None:
                            out += self.run_switch(a, flat, i)
                        rest = b
                if rest is not None:
                    if default is not None:
                        out += self.run_switch(rest, flat, default)
                    else:
                        out.append((rest, None))
        return out

    def run_switch(self, st, flat, i):
        rs = self.ex_seq(st, [y for _, y in flat if True][i:], 0)
        out = []
        for s, o in rs:
            if o is not None and o[0] == "break":
                out.append((s, None))
            else:
                out.append((s, o))
        return out

    def ex_try(self, st, s):
        hs = s["handlers"]
        if len(hs) != 1 or "var" in hs[0]:
            self.assumptions.add("handlers of particular exceptions are not analysed")
            return self.ex(st, s["body"])
        depth, before = len(st.frames), len(self.thrown)
        frame = dict(st.frames[-1][1])
        out = []
        caught = []
        for x, o in self.ex(st, s["body"]):
            if o is not None and o[0] == "throw":
                caught.append(x)
            else:
                out.append((x, o))
        caught += self.thrown[before:]
        del self.thrown[before:]
        for x in caught:
            x.frames = x.frames[:depth - 1] + [(x.frames[depth - 1][0], dict(frame))]
            out += self.ex(x, hs[0]["body"])
        return out

    # loops ----------------------------------------------------------
    def ex_while(self, st, s):
        return self.loop(st, s, s["c"], s["body"], None)

    def ex_do(self, st, s):
        # do B while (c)  ==  while (true) { B; if (!c) break; } with continue -> test
        return self.loop(st, s, None, s["body"], None, post_cond=s["c"])

    def ex_for(self, st, s):
        out = []
        rs = self.ex(st, s["init"]) if s.get("init") else [(st, None)]
        for x, o in rs:
            out += self.loop(x, s, s.get("c"), s["body"], s.get("inc"))
        return out

    def ex_rangefor(self, st, s):
        rng = s["range"]
        if rng.get("lv") or rng["k"] == "mat":
            rs = self.lv(st, rng)
        else:
            rs = [(x, self.new_tmp(x, v)) for x, v in self.ev(st, rng)]
        out = []
        for x, p in rs:
            key = f"@idx#{id(s)}"
            x.vars[key] = IntVal(0)
            self.note_write(key, (), "*")
            x.frames[-1][1]["@idx"] = key
            nm = s["var"]["name"]
            x.frames[-1][1]["@range_" + nm] = f"@rng#{id(s)}"
            x.vars[f"@rng#{id(s)}"] = p
            self.ref_vars.add(f"@rng#{id(s)}")
            x.frames[-1][1]["@idx_" + nm] = key
            out += self.loop(x, s, None, s["body"], None, rng=(p, key, s["var"]))
        return out

    def loop(self, st, node, cond, body, inc, post_cond=None, rng=None):
        lid = self.loop_id(node)
        spec = self.contract.loops.get(lid) if self.contract and lid is not None else None
        if self.contract and lid is not None:
            self.loops_seen.add(lid)
        if id(node) in self.copy_loops and self.fast:
            spec = {}
        elif id(node) in self.copy_loops:
            spec = self.infer_copy(st, node, cond, body, inc, post_cond, rng)
        if spec is None and self.contract is not None:
            spec = self.contract.default_loop
        if spec is None:
            raise AttachError(f"loop {lid} at line {node.get('l')} has no invariant")
        if spec.get("unroll"):
            return self.unroll_loop(st, node, cond, body, inc, post_cond, rng, spec["unroll"])
        label = spec.get("name", f"loop{lid}")
        if spec.get("setup"):
            spec["setup"](SpecView(self, st), self, st)
        entry = st.copy()
        inv = spec.get("inv") or (lambda s, e: [])

        def range_inv(s):
            if rng is None:
                return []
            c = self.read(s, rng[0])
            i = s.vars[rng[1]]
            return [("range index", And(i >= 0, i <= c.n))]

        def invs(s):
            if self.fast:
                return []
            return range_inv(s) + list(inv(SpecView(self, s, entry), entry))

        for nm, f in invs(st):
            self.oblige(st, f"{label}: invariant '{nm}' holds on entry", f, node.get("l"), "inv-entry")
        # which variables does an iteration modify?
        W = self.modified(st, node, cond, body, inc, post_cond, rng)
        flags = self.steady_flags(st, node, cond, body, inc, post_cond, rng, spec, W, invs)
        if flags:
            annotated = invs

            def invs(s):
                return annotated(s) + [("flag keeps its value", s.vars[r] == entry.vars[r]) for r in flags]
        h = st.copy()
        self.havoc(h, W, entry)
        for f in self.havoc_facts(h, W):
            h.assume(f)
        for nm, f in invs(h):
            h.assume(f)
        if spec.get("assume"):
            for f in spec["assume"](SpecView(self, h, entry), entry):
                h.assume(f)
        variant0 = None
        if spec.get("variant"):
            variant0 = spec["variant"](SpecView(self, h, entry))
        out = []

        def iterate(b):
            """One iteration body; returns outcomes."""
            if not self.dry:
                self.reach.append((label + ": body", list(b.pc)))
            if spec.get("body_start"):
                spec["body_start"](SpecView(self, b, entry), self, b)
            return self.ex(b, body)

        starts = []
        if rng is not None:
            c = self.read(h, rng[0])
            i = h.vars[rng[1]]
            a, b = self.fork(h, i < c.n)
            if b is not None:
                b.assume(i == c.n)
                out.append((b, None))
            if a is not None:
                starts += self.bind_range_var(a, rng)
        elif cond is not None:
            for s2, c in self.ev(h.copy(), cond):
                if isinstance(c, Opaque):
                    c = Bool(self.name("opq"))
                if is_z(c) and not z3.is_bool(c):
                    c = c != 0
                a, b = self.fork(s2, c)
                if b is not None:
                    out.append((b, None))
                if a is not None:
                    starts.append(a)
        else:
            starts.append(h.copy())
        if not self.dry:
            self.entered[lid, label] = self.entered.get((lid, label), False) or bool(starts)
        for a in starts:
            for s2, o in iterate(a):
                if o is None or o[0] == "continue":
                    ends = [s2]
                    if post_cond is not None:
                        ends = []
                        for s3, c in self.ev(s2, post_cond):
                            x, y = self.fork(s3, c)
                            if y is not None:
                                out.append((y, None))
                            if x is not None:
                                ends.append(x)
                    if inc is not None:
                        ends = [s3 for s in ends for s3, _ in self.ex_e(s, inc)]
                    for s3 in ends:
                        if rng is not None:
                            self.write_root(s3, rng[1], s3.vars[rng[1]] + 1)
                        if spec.get("body_end"):
                            spec["body_end"](SpecView(self, s3, entry), self, s3)
                        for nm, f in invs(s3):
                            self.oblige(s3, f"{label}: invariant '{nm}' preserved", f, node.get("l"), "inv-preserved")
                        if variant0 is not None:
                            v1 = spec["variant"](SpecView(self, s3, entry))
                            self.oblige(s3, f"{label}: variant decreases", And(variant0 >= 0, v1 < variant0), node.get("l"), "variant")
                elif o[0] == "break":
                    out.append((s2, None))
                else:
                    out.append((s2, o))
        if spec.get("after"):
            for s2, o in out:
                spec["after"](SpecView(self, s2, entry), self, s2)
        return out

    def steady_flags(self, st, node, cond, body, inc, post_cond, rng, spec, W, invs):
        """Truth values an iteration assigns without changing them on the way
        back to the head of the loop; they become part of the invariant."""
        if self.fast:
            return []
        flags = sorted({w[0] for w in W if not w[1] and is_z(st.vars.get(w[0])) and z3.is_bool(st.vars[w[0]])}, key=str)
        save = self.written, list(self.thrown), self.events
        self.dry += 1
        try:
            while flags:
                h = st.copy()
                self.havoc(h, W, st)
                for f in self.havoc_facts(h, W) + [f for _, f in invs(h)] + [h.vars[r] == st.vars[r] for r in flags]:
                    h.assume(f)
                starts = [h]
                if rng is not None:
                    h.assume(h.vars[rng[1]] < self.read(h, rng[0]).n)
                    starts = self.bind_range_var(h, rng)
                elif cond is not None:
                    starts = []
                    for s2, c in self.ev(h, cond):
                        if is_z(c):
                            s2.assume(c if z3.is_bool(c) else c != 0)
                        starts.append(s2)
                ends = []
                for a in starts:
                    if spec.get("body_start"):
                        spec["body_start"](SpecView(self, a, st), self, a)
                    for s2, o in self.ex(a, body):
                        if o is None or o[0] == "continue":
                            now = [s2]
                            if post_cond is not None:
                                now = [x for s3, c in self.ev(s2, post_cond) for x in self.fork(s3, c)[:1] if x is not None]
                            if inc is not None:
                                now = [s4 for s3 in now for s4, _ in self.ex_e(s3, inc)]
                            ends += now
                left = [r for r in flags if all(self.implied(s2, s2.vars[r] == st.vars[r]) for s2 in ends)]
                if left == flags:
                    break
                flags = left
        finally:
            self.dry -= 1
            self.written, self.thrown, self.events = save
        return flags

    def bind_range_var(self, st, rng):
        p, key, var = rng
        i = st.vars[key]
        q = p.ext("i", i)
        t = var["t"]
        if self.types[t]["k"] == "ref":
            st.vars[var["id"]] = q
            self.ref_vars.add(var["id"])
        else:
            st.vars[var["id"]] = self.read(st, q)
            self.note_write(var["id"], (), "*")
        st.frames[-1][1][var["name"]] = var["id"]
        v = self.read(st, q)
        if is_z(v):
            for f in self.type_facts(t, v):
                st.assume(f)
        self.bindings(st, var, q if self.types[t]["k"] == "ref" else Ptr(var["id"]))
        return [st]

    def unroll_loop(self, st, node, cond, body, inc, post_cond, rng, limit):
        out = []
        cur = [st]
        for it in range(limit + 1):
            nxt = []
            for s in cur:
                starts = []
                if rng is not None:
                    c = self.read(s, rng[0])
                    a, b = self.fork(s, s.vars[rng[1]] < c.n)
                    if b is not None:
                        out.append((b, None))
                    if a is not None:
                        starts += self.bind_range_var(a, rng)
                elif cond is not None:
                    for s2, c in self.ev(s, cond):
                        a, b = self.fork(s2, c)
                        if b is not None:
                            out.append((b, None))
                        if a is not None:
                            starts.append(a)
                else:
                    starts.append(s)
                for a in starts:
                    if it == limit:
                        raise Unsupported(f"loop at line {node.get('l')} not exhausted after {limit} iterations")
                    for s2, o in self.ex(a, body):
                        if o is None or o[0] == "continue":
                            ends = [s2]
                            if post_cond is not None:
                                ends = []
                                for s3, c in self.ev(s2, post_cond):
                                    x, y = self.fork(s3, c)
                                    if y is not None:
                                        out.append((y, None))
                                    if x is not None:
                                        ends.append(x)
                            if inc is not None:
                                ends = [s3 for s in ends for s3, _ in self.ex_e(s, inc)]
                            for s3 in ends:
                                if rng is not None:
                                    self.write_root(s3, rng[1], simplify(s3.vars[rng[1]] + 1))
                                nxt.append(s3)
                        elif o[0] == "break":
                            out.append((s2, None))
                        else:
                            out.append((s2, o))
            cur = nxt
            if not cur:
                return out
        return out

    def infer_copy(self, st, node, cond, body, inc, post_cond, rng):
        """Invariant of a loop that only fills table or vector elements at
        consecutive positions.  The invariant is a candidate derived from one
        symbolic iteration; it is checked like any other."""
        line = node.get("l")
        if post_cond is not None or rng is not None or cond is None:
            raise AttachError(f"copy loop at line {line} has an unknown form")
        W = self.modified(st, node, cond, body, inc, post_cond, rng)
        ent = st.copy()
        h = st.copy()
        self.havoc(h, W, None)
        save = (self.events, self.written, list(self.thrown))
        self.dry += 1
        try:
            self.written = set()
            for f in self.havoc_facts(h, W):
                h.assume(f)
            scal = {r: h.vars[r] for r, fp, c in W if not fp and is_z(h.vars.get(r)) and h.vars[r].sort() == INT}
            rs = self.ev(h.copy(), cond)
            if len(rs) != 1:
                raise AttachError(f"copy loop condition at line {line}")
            b, c = rs[0]
            b.assume(c)
            self.events = []
            rs = self.ex(b, body)
            if len(rs) != 1 or rs[0][1] is not None:
                raise AttachError(f"copy loop body at line {line} branches")
            b = rs[0][0]
            if inc is not None:
                rs = self.ex_e(b, inc)
                b = rs[0][0]
            events = self.events
        finally:
            self.dry -= 1
            self.events, self.written, self.thrown = save
        deltas = {}
        for r, cx in scal.items():
            dlt = simplify(b.vars[r] - cx)
            x = b.vars[r]
            while z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_int_value(dlt):
                # no overflow; the invariant below is proved, not assumed
                x = x.arg(1)
                dlt = simplify(x - cx)
            if not z3.is_int_value(dlt):
                raise AttachError(f"copy loop at line {line}: a variable does not advance evenly ({r}: {str(dlt)[:80]})")
            deltas[r] = dlt.as_long()
        ctr = [r for r in scal if deltas[r] == 1 and contains(c, scal[r])]
        if not ctr:
            raise AttachError(f"copy loop at line {line}: no counter")
        ctr = ctr[0]
        ch = scal[ctr]
        h0 = ent.vars[ctr]

        def at(e, hv):
            subs = []
            for r, cx in scal.items():
                x0 = ent.vars[r]
                subs.append((cx, hv if r == ctr else x0 + deltas[r] * (hv - h0)))
            return z3.substitute(e, *subs)
        hav_data = []
        for r, fp, comp in W:
            v, v0 = self.root(h, r), self.root(ent, r)
            for f in fp:
                v, v0 = v.get(f), v0.get(f)
            for x, x0 in zip(leaves(v), leaves(v0)):
                if r not in scal and not x.eq(x0):
                    hav_data.append(x)
        writes = []
        for root, path, val in events:
            if root in scal and not path:
                continue
            if root not in ent.vars and root not in self.lazy_roots:
                continue
            fp = []
            rest = list(path)
            while rest and rest[0][0] == "f":
                fp.append(rest.pop(0)[1])
            if not rest or not all(x[0] == "i" for x in rest):
                if root in st.vars and (root, tuple(fp), "*") in W:
                    raise AttachError(f"copy loop at line {line}: unexpected write")
                continue
            if not is_z(val):
                raise AttachError(f"copy loop at line {line}: non-scalar element")
            rest = [(k, at(y, ch)) for k, y in rest]
            off = simplify(rest[-1][1] - ch)
            for x in [off, val] + [y[1] for y in rest[:-1]]:
                bad = [z for z in hav_data if contains(x, z)]
                if bad:
                    raise AttachError(f"copy loop at line {line}: data dependency")
            if any(contains(off, z) for z in scal.values()) or any(contains(y[1], z) for y in rest[:-1] for z in scal.values()):
                raise AttachError(f"copy loop at line {line}: position is not counter plus constant")
            writes.append((root, tuple(fp), [y[1] for y in rest[:-1]], off, val))
        if len({(w[0], w[1]) for w in writes}) != len(writes):
            raise AttachError(f"copy loop at line {line}: several writes to one object")

        def inv(sv, entry):
            s = sv.st
            hv = s.vars[ctr]
            out = [("auto: counter", And(hv >= h0, Or(hv == h0, at(c, hv - 1))))]
            for r in scal:
                if r != ctr:
                    out.append(("auto: companion counter", s.vars[r] == ent.vars[r] + deltas[r] * (hv - h0)))
            for root, fp, outer, off, val in writes:
                v, v0 = self.root(s, root), self.root(ent, root)
                for f in fp:
                    v, v0 = v.get(f), v0.get(f)
                d, d0 = v.data, v0.data
                cvar = Int("c!cp")
                rvar = Int("r!cp")
                for ro in outer:
                    if not is_z(d):
                        raise AttachError("copy into nested data")
                    out.append(("auto: other rows kept", ForAll([rvar], Implies(rvar != ro, Select(d, rvar) == Select(d0, rvar)), patterns=[Select(d, rvar)])))
                    d, d0 = Select(d, ro), Select(d0, ro)
                out.append(("auto: copied so far", ForAll([cvar], Select(d, cvar) == If(And(cvar >= h0 + off, cvar < hv + off), at(val, cvar - off), Select(d0, cvar)), patterns=[Select(d, cvar)])))
            return out
        return {"inv": inv, "name": "copy loop"}

    def loop_id(self, node):
        return self.loop_ids.get(id(node))

    def modified(self, st, node, cond, body, inc, post_cond, rng):
        key = (id(node), tuple(sorted(((str(v), st.vars[v].root) for f, d in st.frames for v in d.values()
                                       if v in self.ref_vars and isinstance(st.vars.get(v), Ptr)), key=str)))
        if key in self.modcache:
            W = self.modcache[key]
            if self.written is not None:
                self.written |= W
            return W - self.kept[key]
        save_written = self.written
        save_thrown = list(self.thrown)
        save_fast = self.fast
        save_events = self.events
        self.events = None
        self.fast = True
        W = set()
        known = set(st.vars)
        self.dry += 1
        try:
            while True:
                h = st.copy()
                self.havoc(h, W, None)
                head, backs = dict(h.vars), []
                self.written = set()
                try:
                    starts = [h]
                    if rng is not None:
                        starts = self.bind_range_var(h, rng)
                        self.written.add((rng[1], (), "*"))
                    elif cond is not None:
                        starts = []
                        for s2, c in self.ev(h, cond):
                            if is_z(c):
                                s2.assume(c if z3.is_bool(c) else c != 0)
                            starts.append(s2)
                    for a in starts:
                        spec = self.contract.loops.get(self.loop_id(node)) if self.contract and self.loop_id(node) is not None else None
                        if spec and spec.get("body_start"):
                            spec["body_start"](SpecView(self, a, st), self, a)
                        for s2, o in self.ex(a, body):
                            if o is None or o[0] == "continue":
                                ends = [s2]
                                if post_cond is not None:
                                    ends = [s3 for s3, _ in self.ev(s2, post_cond)]
                                if inc is not None:
                                    ends = [s4 for s3 in ends for s4, _ in self.ex_e(s3, inc)]
                                for s3 in ends:
                                    if spec and spec.get("body_end"):
                                        spec["body_end"](SpecView(self, s3, st), self, s3)
                                backs += ends
                    new = {w for w in self.written if w[0] in known}
                finally:
                    pass
                if new <= W:
                    break
                W |= new
        finally:
            self.dry -= 1
            self.written = save_written
            self.thrown = save_thrown
            self.fast = save_fast
            self.events = save_events
        # scalars that only change on the way out keep their value at the head
        self.kept[key] = {w for w in W if not w[1] and (rng is None or w[0] != rng[1]) and is_z(head[w[0]]) and
                          all(is_z(b.vars.get(w[0])) and b.vars[w[0]].eq(head[w[0]]) for b in backs)}
        self.modcache[key] = W
        if self.written is not None:
            self.written |= W
        return W - self.kept[key]

    def havoc(self, st, W, entry):
        by = {}
        for root, fp, comp in W:
            by.setdefault(root, []).append((fp, comp))
        for root, items in by.items():
            v = self.root(st, root)
            for fp, comp in sorted(items, key=str):
                v = self.havoc_at(v, fp, comp, str(root))
            st.vars[root] = v

    def havoc_at(self, v, fp, comp, nm):
        if fp:
            if isinstance(v, Opaque):
                return v
            return v.set(fp[0], self.havoc_at(v.get(fp[0]), fp[1:], comp, nm + "." + fp[0]))
        return self.havoc_value(v, comp, nm)

    def havoc_value(self, v, comp, nm):
        if is_z(v):
            return z3.Const(self.name("h_" + nm), v.sort())
        if isinstance(v, Vec):
            n = v.n if comp == "data" or v.const_len is not None else self.havoc_value(v.n, "*", nm + ".n")
            return Vec(n, self.havoc_value(v.data, "*", nm + ".d"), v.et, v.const_len)
        if isinstance(v, Tab):
            n = v.n if comp == "data" else Int(self.name("h_" + nm + ".n"))
            c = v.cols if comp in ("data", "rows") else Int(self.name("h_" + nm + ".cols"))
            return Tab(n, c, z3.Const(self.name("h_" + nm + ".d"), v.data.sort()))
        if isinstance(v, Row):
            return Row(v.cols, z3.Const(self.name("h_" + nm + ".d"), v.data.sort()))
        if isinstance(v, Rec):
            if v.prefix is not None:
                return Rec(v.ty, {}, self.name("h_" + nm), self)
            return Rec(v.ty, {k: self.havoc_value(x, "*", nm + "." + k) for k, x in v.fields.items()}, None, self)
        if isinstance(v, Ptr):
            if v.path and v.path[-1][0] == "i":
                return v.with_idx(Int(self.name("h_" + nm + ".i")))
            return v
        return v

    def havoc_facts(self, st, W):
        r = []
        for root, fp, comp in W:
            v = self.root(st, root)
            for f in fp:
                if isinstance(v, Opaque):
                    break
                v = v.get(f)
            if isinstance(v, Tab):
                r += [v.n >= 0, v.n < MAXLEN]
                if comp not in ("data", "rows"):
                    r += [v.cols >= 0]
            elif isinstance(v, Vec) and is_z(v.n) and v.n.sort() == INT:
                r += [v.n >= 0, v.n < MAXLEN]
            elif is_z(v) and v.sort() == INT and root in self.var_types:
                r += self.type_facts(self.var_types[root], v)
        return r

    # ------------------------------------------------------------ driver
    def collect_var_types(self, node):
        if isinstance(node, dict):
            if node.get("k") == "vardecl":
                self.var_types[node["id"]] = self.strip_ref(node["t"])
            for v in node.values():
                if isinstance(v, (dict, list)):
                    self.collect_var_types(v)
        elif isinstance(node, list):
            for v in node:
                self.collect_var_types(v)

    def number_loops(self, fid, stack=(), counter=None):
        """Loops in the order in which their statements appear when calls to
        functions without a model are followed; helpers extracted from the
        function keep the order."""
        if counter is None:
            counter = itertools.count()
        fn = self.fns.get(str(fid))
        if fn is None or "body" not in fn or fid in stack:
            return
        if fid not in self.numbered_fns:
            self.numbered_fns.append(fid)

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            isloop = k in ("while", "for", "do", "rangefor") and id(n) not in self.loop_ids and id(n) not in self.copy_loops
            if isloop:
                if getattr(self.contract, "infer_copies", True) and is_copy_loop(n):
                    self.copy_loops.add(id(n))
                    isloop = False
                else:
                    self.loop_ids[id(n)] = next(counter)
                    self.shape.append("(")
            if k in ("rangefor", "for", "while", "do"):
                for key in ("init", "range", "c", "body", "inc") if k != "rangefor" else ("range", "body"):
                    walk(n.get(key))
                if isloop:
                    self.shape.append(")")
                return
            if k == "if":
                for key in ("init", "cv", "c", "a", "b"):
                    walk(n.get(key))
                return
            if k == "lambda":
                if "c" in n:
                    self.number_loops(n["c"]["f"], stack + (fid,), counter)
                elif n.get("gc"):
                    self.number_loops(n["gc"][0]["f"], stack + (fid,), counter)
                return
            for key in sorted(n.keys()):
                v = n[key]
                if key == "c" and isinstance(v, dict) and "q" in v and "f" in v:
                    if self.model_for(v) is None and str(v["f"]) in self.fns and "body" in self.fns[str(v["f"])]:
                        self.number_loops(v["f"], stack + (fid,), counter)
                    continue
                if isinstance(v, (dict, list)):
                    walk(v)

        walk(fn["body"])

    def run(self, fid):
        """Generate all obligations for the function under self.contract."""
        fn = self.fns[str(fid)]
        self.ref_vars = set()
        self.thrown = []
        self.loops_seen = set()
        self.lazy_roots = {}
        self.var_types = {}
        for f in self.fns.values():
            if "body" in f:
                self.collect_var_types(f["body"])
            for p in f["params"]:
                self.var_types[p["id"]] = self.strip_ref(p["t"])
        self.numbered_fns = []
        self.number_loops(fid)
        self.nloops = len(self.loop_ids)
        c = self.contract
        self.match_locals(self.base)
        st = State()
        d = {}
        st.frames.append((fn["q"], d))
        if "this" in fn:
            kt = "this"
            self.lazy_roots["*this"] = (fn["this"], "this")
            st.vars[kt] = Ptr("*this")
            d["this"] = kt
        for i, p in enumerate(fn["params"]):
            t = p["t"]
            nm = c.param_names[i] if c.param_names and i < len(c.param_names) else p["name"]
            over = c.param_values.get(nm)
            if over is not None:
                x = over(self, st, p)
                self.bind_var(st, p["id"], p["name"], t, x)
                d[nm] = p["id"]
                continue
            ty = self.types[t]
            base = nm
            if ty["k"] == "ref":
                root = "*" + base
                v = self.fresh(ty["to"], base, exact=True)
                st.vars[root] = v
                st.vars[p["id"]] = Ptr(root)
                self.ref_vars.add(p["id"])
                for f in self.type_facts(ty["to"], v):
                    st.assume(f)
                self.var_types[root] = self.strip_ref(ty["to"])
            elif ty["k"] == "ptr":
                root = "*" + base
                v = self.fresh(ty["to"], base, exact=True)
                st.vars[root] = v
                st.vars[p["id"]] = Ptr(root)
                for f in self.type_facts(ty["to"], v):
                    st.assume(f)
                self.var_types[root] = self.strip_ref(ty["to"])
            else:
                v = self.fresh(t, base, exact=True)
                st.vars[p["id"]] = v
                for f in self.type_facts(t, v):
                    st.assume(f)
            d[p["name"]] = p["id"]
            d[nm] = p["id"]
        st.assume(ForAll([Int("k!z")], Not(BIT(IntVal(0), Int("k!z"))), patterns=[BIT(IntVal(0), Int("k!z"))]))
        c.prepare(self, st)
        for g, v in c.ghosts(self).items():
            st.vars["g:" + g] = v
        self.old_state = st.copy()
        for nm, f in c.requires(SpecView(self, st)):
            st.assume(f)
        self.old_state = st.copy()
        c.start(SpecView(self, st), self, st)
        npaths = 0
        self.final = []
        for s, o in self.ex(st, fn["body"]):
            if o is not None and o[0] == "throw":
                self.thrown.append(s)
                continue
            ret = None
            if o is not None:
                if o[0] != "return":
                    raise Unsupported(f"outcome {o}")
                if o[1] is not None:
                    ret = self.rv(s, o[1])
            npaths += 1
            self.final.append(s)
            self.reach.append(("end of function", list(s.pc)))
            for nm, f in c.ensures(SpecView(self, s), ret):
                self.oblige(s, f"ensures '{nm}'", f, fn.get("endline"), "ensures")
        for s in self.thrown:
            for nm, f in c.on_throw(SpecView(self, s)):
                self.oblige(s, f"on throw '{nm}'", f, None, "throw")
        self.npaths = npaths
        dead = sorted(str(l) for (_, l), x in self.entered.items() if not x)
        if dead:
            raise AttachError("loops never entered: " + ", ".join(dead))
        return self.obls

    def local_names(self, fid):
        """Parameters and local variables of a function: [name, type]."""
        fn = self.fns[str(fid)]
        out = [[p["name"], self.types[p["t"]]["s"]] for p in fn["params"] if p["name"]]
        seen = set()

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "lambda":
                    return
                if n.get("k") == "vardecl" and n["name"] and n["id"] not in seen:
                    seen.add(n["id"])
                    out.append([n["name"], self.types[n["t"]]["s"]])
                for key in sorted(n.keys()):
                    if isinstance(n[key], (dict, list)):
                        walk(n[key])
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(fn.get("body"))
        return out

    def baseline(self, fid):
        """What the contract was written against: loop nesting and names."""
        fs = {}
        for f in self.numbered_fns:
            fs.setdefault(self.fns[str(f)]["q"], self.local_names(f))
        return dict(shape="".join(self.shape), locals=fs)

    def match_locals(self, base):
        """Map variable names used by the contract to renamed variables, per
        function."""
        self.rename = {}
        if not base:
            return
        if base["shape"] != "".join(self.shape):
            raise AttachError("the loops are nested differently from the annotated ones: "
                              + "".join(self.shape) + " instead of " + base["shape"])
        for f in self.numbered_fns:
            q = self.fns[str(f)]["q"]
            old = base["locals"].get(q)
            if old is None:
                continue
            cur = self.local_names(f)
            if [t for _, t in cur] == [t for _, t in old]:
                m = {a[0]: b[0] for a, b in zip(old, cur) if a[0] != b[0]}
            else:
                have, had = {n for n, _ in cur}, {n for n, _ in old}
                new = [x for x in cur if x[0] not in had]
                m = {}
                for n, t in old:
                    if n in have or n in m:
                        continue
                    for x in new:
                        if x[1] == t:
                            m[n] = x[0]
                            new.remove(x)
                            break
            have = {n for n, _ in cur}
            self.rename[q] = {a: b for a, b in m.items() if a not in have}


def contains(e, x):
    stack = [e]
    seen = set()
    while stack:
        y = stack.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.eq(x):
            return True
        stack.extend(y.children())
    return False


def leaves(v):
    if is_z(v):
        return [v]
    if isinstance(v, Rec):
        return [x for y in v.fields.values() for x in leaves(y)]
    if isinstance(v, (Vec,)):
        return leaves(v.n) + leaves(v.data) if is_z(v.n) else leaves(v.data)
    if isinstance(v, Tab):
        return [v.n, v.data]
    if isinstance(v, Row):
        return [v.data]
    return []


def is_copy_loop(n):
    """A loop without inner control flow whose body assigns to elements."""
    found = [False]
    bad = [False]

    def lhs_elem(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "mat"):
            e = e["e"]
        return e.get("k") in ("opcall", "sub") or (e.get("k") == "un" and e.get("op") == "*")

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k in ("if", "while", "for", "do", "rangefor", "switch", "break", "continue", "return", "goto", "lambda", "cond"):
            bad[0] = True
        if k == "assign" and lhs_elem(x["a"]):
            found[0] = True
        if k == "cassign" and lhs_elem(x["a"]):
            bad[0] = True
        if k in ("mcall", "call") and "c" in x:
            q = x["c"]["q"]
            if any(w in q for w in ("push_back", "emplace_back", "insert", "erase", "resize", "clear", "pop_back")):
                bad[0] = True
        for y in x.values():
            if isinstance(y, (dict, list)):
                walk(y)
    if n["k"] not in ("for", "while"):
        return False
    walk(n["body"])
    return found[0] and not bad[0]


def simplify_idx(e):
    e2 = simplify(e)
    return e2


class Contract:
    """Base class of the sidecar contracts."""
    tu = None            # driver translation unit text
    function = None      # exported name
    param_names = None
    locals = None
    default_loop = None
    models = {}
    hooks = {}
    hooks_before = {}
    loops = {}
    type_kinds = {}
    inlined = ()         # prefixes of functions whose bodies are used although there are models
    exact_products = False   # products of unsigned numbers do not wrap (an assumption of the contract)
    param_values = {}

    def prepare(self, eng, st):
        """May replace the arbitrary values of parameters."""

    def ghosts(self, eng):
        return {}

    def requires(self, s):
        return []

    def ensures(self, s, ret):
        return []

    def on_throw(self, s):
        return [("does not happen", BoolVal(False))]

    def start(self, s, eng, st):
        pass
