"""Symbolic executor and VC generator over LLVM IR.

Path-wise forward symbolic execution.  Loops are cut at their headers (inductive
invariants, unbounded iterations), calls are either replaced by a contract
(library contracts, contracts of public operations) or inlined.  Every
obligation is a z3 query over the path condition."""
import time
import re
import z3
import ir as IR

I = z3.IntSort()
B = z3.BoolSort()
ARR1 = z3.ArraySort(I, I)
ARR2 = z3.ArraySort(I, ARR1)
ARRB = z3.ArraySort(I, B)
ARRBB = z3.ArraySort(I, ARRB)


class Unsupported(Exception):
    """the code uses something outside the verifier's subset"""


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ helpers
def isc(x):
    return isinstance(x, int) and not isinstance(x, bool)


def isz(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    return z3.IntVal(int(x)) if not isz(x) else x


def zb(x):
    return z3.BoolVal(bool(x)) if not isz(x) else x


def conc(x):
    """fold z3 literals back to python"""
    if isz(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def And(*a):
    a = [x for x in _flat(a) if x is not True]
    if any(x is False for x in a):
        return False
    if not a:
        return True
    if len(a) == 1:
        return a[0]
    return z3.And(*[zb(x) for x in a])


def Or(*a):
    a = [x for x in _flat(a) if x is not False]
    if any(x is True for x in a):
        return True
    if not a:
        return False
    if len(a) == 1:
        return a[0]
    return z3.Or(*[zb(x) for x in a])


def _flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += _flat(x)
        else:
            out.append(conc(x))
    return out


def Not(a):
    a = conc(a)
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def Implies(a, b):
    a, b = conc(a), conc(b)
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(zb(a), zb(b))


def If(c, a, b):
    c = conc(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        return z3.If(c, zb(a), zb(b))
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, zi(a) if isc(a) else a, zi(b) if isc(b) else b)


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    # keep constants gathered: (x + c1) + c2
    if isc(b) and isz(a) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        return add(a.arg(0), a.arg(1).as_long() + b)
    if isc(a):
        return add(b, a)
    return zi(a) + zi(b)


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b):
        return add(a, -b)
    if isz(a) and isz(b) and a.eq(b):
        return 0
    return zi(a) - zi(b)


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return zi(a) * b
    return zi(a) * zi(b)


def eq(a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)) or isinstance(a, bool) or isinstance(b, bool):
        return zb(a) == zb(b)
    return (zi(a) if isc(a) else a) == (zi(b) if isc(b) else b)


def lt(a, b):
    if isc(a) and isc(b):
        return a < b
    return zi(a) < zi(b)


def le(a, b):
    if isc(a) and isc(b):
        return a <= b
    return zi(a) <= zi(b)


_cnt = [0]


def fresh(name, sort=I):
    _cnt[0] += 1
    return z3.Const("%s!%d" % (name, _cnt[0]), sort)


def fresh_fn(name, *sorts):
    _cnt[0] += 1
    return z3.Function("%s!%d" % (name, _cnt[0]), *sorts)


_qcache = {}


def has_quant(e):
    k = e.get_id()
    r = _qcache.get(k)
    if r is not None and r[1].eq(e):
        return r[0]
    st = [e]
    seen = set()
    res = False
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            if not x.is_lambda():
                res = True
                break
            res = True
            break
        st.extend(x.children())
    _qcache[k] = (res, e)
    return res


def forall(vs, body, pats=None):
    body = conc(body)
    if body is True:
        return True
    if body is False:
        return False
    if pats:
        ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)


# ------------------------------------------------------------------ pointers
class Obj:
    """memory object with a concrete identity and concrete offsets"""
    _n = 0

    def __init__(self, name, size=None, kind="alloca"):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size
        self.kind = kind

    def __repr__(self):
        return "<%s>" % self.name


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj.name, self.off)


class FPtr:
    """pointer into a family of symbolic objects; oid 0 is null"""
    __slots__ = ("fam", "oid", "idx", "off")

    def __init__(self, fam, oid, idx=0, off=0):
        self.fam = fam
        self.oid = conc(oid)
        self.idx = conc(idx)
        self.off = off

    def __repr__(self):
        return "%s[%s][%s]+%d" % (self.fam, self.oid, self.idx, self.off)


NULL = FPtr(None, 0, 0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def is_null(p):
    return isinstance(p, FPtr) and isc(p.oid) and p.oid == 0


def is_ptr(v):
    return isinstance(v, (Ptr, FPtr, FnPtr))


# ------------------------------------------------------------------ families
class Family:
    """fields: {off: (name, kind)}; kind: 'i32','i64','u8','i8b' ints, ('ptr', fam), 'elem'"""

    def __init__(self, name, esize, fields):
        self.name = name
        self.esize = esize
        self.fields = fields


class Elem:
    """opaque element stored in a concrete object cell"""
    __slots__ = ("live", "val")

    def __init__(self, live, val):
        self.live = live
        self.val = val

    def __repr__(self):
        return "Elem(%s,%s)" % (self.live, self.val)


class Frame:
    __slots__ = ("fn", "blk", "ip", "regs", "call", "prev", "cuts", "va")

    def __init__(self, fn, regs, call):
        self.fn = fn
        self.blk = fn.order[0]
        self.ip = 0
        self.regs = regs
        self.call = call          # the call Instr in the caller
        self.prev = None
        self.cuts = {}            # header -> Cut currently active
        self.va = []

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.call = self.call
        f.prev = self.prev
        f.cuts = dict(self.cuts)
        f.va = list(self.va)
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.fam = {}
        self.gh = {}
        self.pc = []
        self.ground = []
        self.frames = []
        self.exc = None
        self.trace = []
        self.kv = {}
        self.rel = 0              # locks released so far on this path

    def copy(self):
        s = State.__new__(State)
        s.mem = {o: dict(c) for o, c in self.mem.items()}
        s.fam = dict(self.fam)
        s.gh = dict(self.gh)
        s.pc = list(self.pc)
        s.ground = list(self.ground)
        s.frames = [f.copy() for f in self.frames]
        s.exc = self.exc
        s.trace = list(self.trace)
        s.kv = dict(self.kv)
        s.rel = self.rel
        return s

    def snap(self):
        """data-only snapshot used as the pre-state in specifications"""
        s = State.__new__(State)
        s.mem = {o: dict(c) for o, c in self.mem.items()}
        s.fam = dict(self.fam)
        s.gh = dict(self.gh)
        s.pc = []
        s.ground = []
        s.frames = []
        s.exc = None
        s.trace = []
        s.kv = dict(self.kv)
        s.rel = self.rel
        return s

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        f = conc(f)
        if f is True:
            return
        f = zb(f)
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)
        if not has_quant(f):
            self.ground.append(f)


# ------------------------------------------------------------------ solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


STATS = Stats()
RL_FULL = [6000000]
RL_GROUND = [1500000]
SEED0 = [0]            # solver seed; a second attempt at a unit uses another one


def mk_solver(rl, mbqi=False, seed=0):
    s = z3.SimpleSolver()
    s.set("auto_config", False)
    s.set("smt.mbqi", mbqi)
    s.set("rlimit", rl)
    if seed or SEED0[0]:
        s.set("smt.random_seed", seed or SEED0[0])
    return s


def fast_add(s, forms):
    c = s.ctx.ref()
    for f in forms:
        z3.Z3_solver_assert(c, s.solver, f.ast)


def ground_check(forms, extra=None, rl=None):
    """sat/unsat/unknown of quantifier free facts"""
    s = mk_solver(rl or RL_GROUND[0])
    fast_add(s, forms)
    if extra is not None:
        s.add(extra)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    return r, s


PORTFOLIO = [{}, {"smt.relevancy": 0}, {"smt.arith.solver": 2, "smt.random_seed": 7}, {"smt.mbqi": True}]


def prove(st, goal, rl=None, attempts=True, seed=None):
    """True iff goal follows from the path condition; returns (ok, backend)"""
    if isinstance(goal, (list, tuple)):
        for g in goal:
            if isinstance(g, tuple):
                g = g[1]
            ok, be = prove(st, g, rl, attempts)
            if not ok:
                return ok, be
        return True, "z3"
    goal = conc(goal)
    if goal is True:
        return True, "trivial"
    goal = zb(goal)
    neg = z3.Not(goal)
    if not has_quant(goal):
        r, _ = ground_check(st.ground, neg)
        if r == z3.unsat:
            return True, "z3-ground"
        if r == z3.sat and len(st.ground) == len(st.pc):
            return False, "sat"
        if goal is False and not st.pc:
            return False, "sat"
    rl = rl or RL_FULL[0]
    for opts in (PORTFOLIO if attempts else PORTFOLIO[:2]):
        s = mk_solver(rl)
        for k, v in opts.items():
            s.set(k, v)
        if seed is not None:
            s.set("random_seed", seed)
            s.set("smt.random_seed", seed)
        fast_add(s, st.pc)
        s.add(neg)
        t = time.time()
        r = s.check()
        STATS.time += time.time() - t
        STATS.queries += 1
        if r == z3.unsat:
            return True, "z3"
        why = s.reason_unknown() if r == z3.unknown else "sat"
    return False, why


class Obl:
    __slots__ = ("name", "tags", "ok", "backend", "where", "time", "unit", "detail")

    def __init__(self, name, tags, ok, backend, where, t, unit, detail=None):
        self.name = name
        self.tags = tags
        self.ok = ok
        self.backend = backend
        self.where = where
        self.time = t
        self.unit = unit
        self.detail = detail


class Cut:
    __slots__ = ("key", "header", "depth", "body", "entry", "cands", "mode", "sink", "names")


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, mod, demangled, families, intercepts, unitname="", opts=None):
        self.m = mod
        self.dem = demangled
        self.fams = {f.name: f for f in families}
        self.intercepts = intercepts      # list of (compiled regex, handler)
        self._icache = {}
        self.obls = []
        self.dry = 0
        self.nretry = 0
        self.gaveup = set()
        self.unit = unitname
        self.globs = {}
        self.globinit = {}
        self.cutcache = {}
        self.loopcands = None             # fn(engine, st, info) -> list of (name, fn(state)->formula)
        self.tags = ()
        self.newarray = None
        self.hooks = None                 # access hooks for concurrency
        self.called = set()               # functions executed (inlined)
        self.contracts_used = set()
        self.lib_used = set()
        self.maxdepth = 60
        self.fail_fast = False
        self.opts = opts or {}
        self.npaths = 0
        self.max_paths = 6000
        self.extra_scalars = None
        self.ghost_ints = []
        self.deadline = None
        self.allow_term = False
        self.allocas = {}

    # ---------------------------------------------------------- obligations
    def where(self, st):
        for f in reversed(st.frames):
            i = max(0, f.ip - 1)
            b = f.fn.blocks[f.blk]
            if i < len(b):
                d = self.m.dbg_line(b[i].dbg)
                if d and not re.match(r"(stl_|vector|basic_|alloc|new_|move|unique_ptr|atomic|std_mutex|unique_lock)", d):
                    return d
        return "?"

    def check(self, st, goal, name, tags=None, assume=True, rl=None):
        if isinstance(goal, (list, tuple)):
            ok = True
            for n, g in enumerate(goal):
                nm = name
                if isinstance(g, tuple):
                    nm, g = "%s[%s]" % (name, g[0]), g[1]
                ok = self.check(st, g, nm, tags, assume, rl) and ok
            return ok
        goal = conc(goal)
        if self.dry:
            if assume:
                st.assume(goal)
            return True
        if goal is True:
            self.obls.append(Obl(name, tags or self.tags, True, "trivial", None, 0.0, self.unit))
            return True
        t = time.time()
        rl = rl or self.opts.get("rl")
        ok, be = prove(st, goal, rl)
        kind = tuple(tags or self.tags)
        if not ok and be != "sat" and self.nretry < 12 and kind not in self.gaveup:
            # the solver gave up: other seeds and a larger budget before this counts as failed
            self.nretry += 1
            for seed in (7, 23):
                ok, be = prove(st, goal, 3 * (rl or RL_FULL[0]), seed=seed)
                if ok:
                    self.nretry -= 1
                    break
            else:
                self.gaveup.add(kind)      # this kind has failed in this unit: no second chances for more of it
        dt = time.time() - t
        detail = None
        if not ok:
            detail = self.counterexample(st, goal)
            if self.opts.get("dump") and re.match(self.opts["dump"], name):
                so = z3.SimpleSolver()
                fast_add(so, st.pc)
                so.add(z3.Not(zb(goal)))
                open("/tmp/w/dump.smt2", "w").write(so.to_smt2())
                print("DUMPED", name, self.where(st), be)
        self.obls.append(Obl(name, tags or self.tags, ok, be, self.where(st), dt, self.unit, detail))
        if assume:
            st.assume(goal)
        return ok

    def counterexample(self, st, goal):
        """best effort ground model of the scalars of a failing obligation"""
        try:
            g = zb(goal)
            extra = z3.Not(g) if not has_quant(g) else None
            r, s = ground_check(st.ground, extra, rl=400000)
            if r != z3.sat:
                return None
            mdl = s.model()
            out = {}
            for d in mdl.decls():
                if d.arity() == 0 and d.range() in (I, B):
                    nm = d.name()
                    out[nm] = str(mdl[d])
            return dict(sorted(out.items())[:60])
        except z3.Z3Exception:
            return None

    def feasible(self, st, extra=None):
        e = conc(extra) if extra is not None else None
        if e is False:
            return False
        if e is True:
            e = None
        r, _ = ground_check(st.ground, e)
        return r != z3.unsat

    def entails_ground(self, st, f):
        f = conc(f)
        if isinstance(f, bool):
            return f
        r, _ = ground_check(st.ground, z3.Not(f))
        return r == z3.unsat

    # ---------------------------------------------------------- memory
    def fam_init(self, st):
        for f in self.fams.values():
            n = f.name
            st.fam[n + ".alloc"] = fresh(n + ".alloc", ARRB)
            st.fam[n + ".size"] = fresh(n + ".size", ARR1)
            st.gh[n + ".ctr"] = fresh(n + ".ctr")
            st.gh[n + ".n"] = fresh(n + ".n")
            st.assume(st.gh[n + ".ctr"] >= 1)
            self.alloc_axiom(st, n)
            for off, (fn, kind) in f.fields.items():
                if kind == "elem":
                    st.fam["%s.%s.live" % (n, fn)] = fresh("%s.live" % n, ARRBB)
                    st.fam["%s.%s.val" % (n, fn)] = fresh("%s.val" % n, ARR2)
                else:
                    st.fam["%s.%s" % (n, fn)] = fresh("%s.%s" % (n, fn), ARR2)

    def alloc_axiom(self, st, n):
        o = fresh("o")
        a, c = st.fam[n + ".alloc"], zi(st.gh[n + ".ctr"])
        st.assume(forall([o], z3.Implies(z3.Select(a, o), z3.And(o >= 1, o < c)), [z3.Select(a, o)]))
        st.assume(z3.Not(z3.Select(a, z3.IntVal(0))))

    def new_obj(self, st, fam, size, zero=False):
        n = fam
        c = st.gh[n + ".ctr"]
        st.gh[n + ".ctr"] = add(c, 1)
        st.gh[n + ".n"] = add(st.gh[n + ".n"], 1)
        st.fam[n + ".alloc"] = z3.Store(st.fam[n + ".alloc"], zi(c), z3.BoolVal(True))
        st.fam[n + ".size"] = z3.Store(st.fam[n + ".size"], zi(c), zi(size))
        f = self.fams[n]
        for off, (fn, kind) in f.fields.items():
            if kind == "elem":
                k = "%s.%s.live" % (n, fn)
                st.fam[k] = z3.Store(st.fam[k], zi(c), z3.K(I, z3.BoolVal(False)))
                k = "%s.%s.val" % (n, fn)
                st.fam[k] = z3.Store(st.fam[k], zi(c), fresh("row", ARR1))
            else:
                k = "%s.%s" % (n, fn)
                st.fam[k] = z3.Store(st.fam[k], zi(c), z3.K(I, z3.IntVal(0)) if zero else fresh("row", ARR1))
        st.assume(zi(c) >= 1)
        return FPtr(n, c, 0, 0)

    def free_obj(self, st, p, what):
        n = p.fam
        self.check(st, And(eq(p.idx, 0), p.off == 0), "free-whole-object(%s)" % what)
        self.check(st, z3.Select(st.fam[n + ".alloc"], zi(p.oid)), "free-allocated-once(%s)" % what)
        f = self.fams[n]
        for off, (fn, kind) in f.fields.items():
            if kind == "elem":
                j = fresh("j")
                row = z3.Select(st.fam["%s.%s.live" % (n, fn)], zi(p.oid))
                self.check(st, forall([j], z3.Not(z3.Select(row, j))), "no-live-element-in-freed-block", assume=False)
        st.fam[n + ".alloc"] = z3.Store(st.fam[n + ".alloc"], zi(p.oid), z3.BoolVal(False))
        st.gh[n + ".n"] = sub(st.gh[n + ".n"], 1)

    def access(self, st, p, nbytes, what):
        """memory safety obligation for a family access"""
        if is_null(p):
            self.check(st, False, "no-null-dereference(%s)" % what, assume=False)
            raise PathEnd()
        if p.fam is None:
            raise Unsupported("access through untyped pointer")
        f = self.fams[p.fam]
        n = p.fam
        ov = self.opts.get("access", {}).get(n)
        if ov is not None:
            self.check(st, ov(st, p), "memory-safe-%s(%s)" % (what, n))
            return
        cnt = (p.off + nbytes + f.esize - 1) // f.esize
        if f.esize == 1:
            cnt = nbytes
        self.check(st, And(z3.Select(st.fam[n + ".alloc"], zi(p.oid)), le(0, p.idx),
                           le(add(p.idx, cnt), z3.Select(st.fam[n + ".size"], zi(p.oid)))), "memory-safe-%s(%s)" % (what, n))
        st.assume(And(le(1, p.oid), lt(p.oid, st.gh[n + ".ctr"])))   # allocated objects have numbers below the counter

    def load(self, st, t, p, atomic=False):
        if isinstance(p, Ptr):
            if self.hooks and not self.dry_hooks_off(st):
                r = self.hooks.on_load(self, st, p, t, atomic)
                if r is not None:
                    return r[0]
            if p.obj.kind == "freed":
                self.check(st, False, "use-after-free(%s)" % p.obj.name, assume=False)
                raise PathEnd()
            c = st.mem.get(p.obj)
            if c is None:
                raise Unsupported("load from unknown object %r" % p)
            if t.k == "struct":
                offs = self.m.offsets(t)
                return [self.load_part(st, c, e, Ptr(p.obj, p.off + o), atomic) for e, o in zip(t.elems, offs)]
            sz = self.m.size(t)
            v = c.get(p.off)
            if v is None:
                v = self.lazy_cell(st, p, t)
                if v is None:
                    for o2, (s2, v2) in c.items():
                        if o2 < p.off + sz and p.off < o2 + s2:
                            raise Unsupported("mixed-size load at %r" % p)
                    if self.dry:
                        raise PathEnd()
                    self.check(st, False, "no-uninitialised-read(%r)" % p.obj.name, assume=False)
                    raise PathEnd()
                c[p.off] = (sz, v)
                return v
            if v[0] != sz:
                if isc(v[1]) and v[1] == 0:
                    return NULL if t.k == "ptr" else 0
                raise Unsupported("mixed-size load at %r: %d vs %d" % (p, v[0], sz))
            val = v[1]
            if t.k == "ptr" and isc(val) and val == 0:
                return NULL
            if t.k == "int" and t.bits == 1 and not isinstance(val, bool):
                return self.as_bool(val)
            return val
        if isinstance(p, FPtr):
            sz = self.m.size(t)
            if t.k == "struct":
                offs = self.m.offsets(t)
                return [self.load(st, e, self.ptr_add(p, o)) for e, o in zip(t.elems, offs)]
            self.access(st, p, sz, "read")
            f = self.fams[p.fam]
            if f.esize == 1:
                return self.load_bytes(st, p, t)
            fd = f.fields.get(p.off)
            if fd is None:
                raise Unsupported("load at %r" % p)
            fn, kind = fd
            v = z3.Select(z3.Select(st.fam["%s.%s" % (p.fam, fn)], zi(p.oid)), zi(p.idx))
            if isinstance(kind, tuple) and kind[0] == "ptr":
                return FPtr(kind[1], v, 0, 0)
            if t.k == "int":
                lim = 1 << (t.bits - 1)
                st.assume(z3.And(v >= -lim, v < lim))
            return v
        raise Unsupported("load via %r" % (p,))

    def load_part(self, st, c, t, p, atomic):
        """part of a structure copied as a whole: never-written parts may be copied (std::optional's payload)"""
        if t.k not in ("struct", "array"):
            sz = self.m.size(t)
            if p.off not in c and not self.hooks and not any(o < p.off + sz and p.off < o + s for o, (s, _) in c.items()):
                v = self.lazy_cell(st, p, t)
                if v is None:
                    return UNDEF
        return self.load(st, t, p, atomic)

    def dry_hooks_off(self, st):
        return False

    def lazy_cell(self, st, p, t):
        return None

    # byte memory -------------------------------------------------
    PACK = z3.Function("pack32", I, I, I, I, I)
    BYTE = [z3.Function("byte%d" % i, I, I) for i in range(4)]

    def byte_axioms(self, st):
        v = fresh("v")
        bs = [b(v) for b in self.BYTE]
        st.assume(forall([v], z3.Implies(z3.And(v >= -2 ** 31, v < 2 ** 31), self.PACK(*bs) == v), [bs[0]]))

    def row(self, st, p):
        return z3.Select(st.fam[p.fam + ".b"], zi(p.oid))

    def load_bytes(self, st, p, t):
        r = self.row(st, p)
        if t.k == "int" and t.bits == 8:
            v = z3.Select(r, zi(p.idx))
            st.assume(z3.And(v >= -128, v < 128))
            return v
        if t.k == "int" and t.bits == 32:
            v = self.PACK(*[z3.Select(r, zi(add(p.idx, k))) for k in range(4)])
            st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31))
            return v
        raise Unsupported("byte load of %r" % t)

    def store_bytes(self, st, p, t, v):
        r = self.row(st, p)
        if t.k == "int" and t.bits == 8:
            r = z3.Store(r, zi(p.idx), zi(v))
        elif t.k == "int" and t.bits == 32:
            # a value just read from four bytes is those bytes
            bs = v.children() if isz(v) and z3.is_app(v) and v.decl().eq(self.PACK) else [b(zi(v)) for b in self.BYTE]
            for k in range(4):
                r = z3.Store(r, zi(add(p.idx, k)), bs[k])
        else:
            raise Unsupported("byte store of %r" % t)
        key = p.fam + ".b"
        st.fam[key] = z3.Store(st.fam[key], zi(p.oid), r)

    def store(self, st, t, v, p, atomic=False):
        if isinstance(v, Undef):
            v = self.fresh_of(t)
        if isinstance(p, Ptr):
            if self.hooks:
                if self.hooks.on_store(self, st, p, t, v, atomic):
                    return
            if p.obj.kind == "freed":
                self.check(st, False, "use-after-free(%s)" % p.obj.name, assume=False)
                raise PathEnd()
            c = st.mem.get(p.obj)
            if c is None:
                raise Unsupported("store to unknown object %r" % p)
            if t.k == "struct":
                offs = self.m.offsets(t)
                for e, o, x in zip(t.elems, offs, v):
                    self.store(st, e, x, Ptr(p.obj, p.off + o), atomic)
                return
            sz = self.m.size(t)
            self.clear_cells(c, p.off, sz)
            c[p.off] = (sz, v)
            return
        if isinstance(p, FPtr):
            sz = self.m.size(t)
            if t.k == "struct":
                offs = self.m.offsets(t)
                for e, o, x in zip(t.elems, offs, v):
                    self.store(st, e, x, self.ptr_add(p, o))
                return
            self.access(st, p, sz, "write")
            f = self.fams[p.fam]
            if f.esize == 1:
                return self.store_bytes(st, p, t, v)
            fd = f.fields.get(p.off)
            if fd is None:
                raise Unsupported("store at %r" % p)
            fn, kind = fd
            if isinstance(kind, tuple) and kind[0] == "ptr":
                if not isinstance(v, FPtr):
                    raise Unsupported("store of %r into %s" % (v, p.fam))
                if v.fam is not None and v.fam != kind[1]:
                    raise Unsupported("store of %s pointer into %s" % (v.fam, p.fam))
                self.check(st, eq(v.idx, 0), "stored-pointer-is-block-start")
                v = v.oid
            key = "%s.%s" % (p.fam, fn)
            a = st.fam[key]
            st.fam[key] = z3.Store(a, zi(p.oid), z3.Store(z3.Select(a, zi(p.oid)), zi(p.idx), zi(v)))
            return
        raise Unsupported("store via %r" % (p,))

    @staticmethod
    def clear_cells(c, off, sz):
        if off in c and c[off][0] == sz:
            return
        for o2 in [o for o, (s, _) in c.items() if o < off + sz and off < o + s]:
            del c[o2]

    def ptr_add(self, p, k):
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off + k)
        if isinstance(p, FPtr):
            if p.fam is None:
                if k == 0:
                    return p
                raise Unsupported("arithmetic on null")
            es = self.fams[p.fam].esize
            t = p.off + k
            return FPtr(p.fam, p.oid, add(p.idx, t // es), t % es)
        raise Unsupported("ptr_add %r" % (p,))

    def fresh_of(self, t):
        if t.k == "int":
            if t.bits == 1:
                return fresh("u", B)
            return fresh("u")
        raise Unsupported("undef of %r" % t)

    # element operations -----------------------------------------
    def elem_loc(self, st, p, what):
        """returns (getter-kind) location of an Elem"""
        if isinstance(p, Ptr):
            if p.obj.kind == "freed":
                self.check(st, False, "use-after-free(%s)" % p.obj.name, assume=False)
                raise PathEnd()
            return ("o", p.obj, p.off)
        if isinstance(p, FPtr):
            if is_null(p):
                self.check(st, False, "no-null-dereference(%s)" % what, assume=False)
                raise PathEnd()
            self.access(st, p, 1, what)
            f = self.fams[p.fam]
            fd = f.fields.get(p.off)
            if not fd or fd[1] != "elem":
                raise Unsupported("element op at %r" % p)
            return ("f", "%s.%s" % (p.fam, fd[0]), p)
        raise Unsupported("element op via %r" % (p,))

    def elem_get(self, st, loc):
        if loc[0] == "o":
            if self.hooks:
                self.hooks.on_elem(self, st, loc[1], loc[2], False)
            c = st.mem[loc[1]].get(loc[2])
            if c is None or not isinstance(c[1], Elem):
                return Elem(False, None)
            return c[1]
        _, key, p = loc
        ov = self.opts.get("elemget", {}).get(p.fam)
        if ov is not None:
            return ov(st, p)
        return Elem(z3.Select(z3.Select(st.fam[key + ".live"], zi(p.oid)), zi(p.idx)),
                    z3.Select(z3.Select(st.fam[key + ".val"], zi(p.oid)), zi(p.idx)))

    def elem_set(self, st, loc, e, setlive=True):
        if loc[0] == "o":
            if self.hooks:
                self.hooks.on_elem(self, st, loc[1], loc[2], True)
            c = st.mem[loc[1]]
            sz = self.opts.get("elemsize", 24)
            self.clear_cells(c, loc[2], sz)
            c[loc[2]] = (sz, e)
            return
        _, key, p = loc
        if p.fam in self.opts.get("elemget", {}):
            self.check(st, False, "read-only-element-not-modified", assume=False)
            raise PathEnd()
        if setlive:
            a = st.fam[key + ".live"]
            st.fam[key + ".live"] = z3.Store(a, zi(p.oid), z3.Store(z3.Select(a, zi(p.oid)), zi(p.idx), zb(e.live)))
        if e.val is not None:
            a = st.fam[key + ".val"]
            st.fam[key + ".val"] = z3.Store(a, zi(p.oid), z3.Store(z3.Select(a, zi(p.oid)), zi(p.idx), zi(e.val)))

    def elem_op(self, st, op, args):
        """op: ctor, copy, move, assign, massign, dtor"""
        d = self.elem_loc(st, args[0], "element-" + op)
        cur = self.elem_get(st, d)
        if op in ("ctor", "copy", "move"):
            self.check(st, Not(cur.live), "construct-only-unconstructed-storage")
        else:
            self.check(st, cur.live, "element-alive-at-%s" % op)
        if op == "ctor":
            self.elem_set(st, d, Elem(True, fresh("defval") if self.opts.get("defval") is None else self.opts["defval"]))
        elif op == "dtor":
            self.elem_set(st, d, Elem(False, None if d[0] == "f" else cur.val))
        else:
            s = self.elem_loc(st, args[1], "element-source")
            se = self.elem_get(st, s)
            self.check(st, se.live, "source-element-alive-at-%s" % op)
            v = se.val
            self.elem_set(st, d, Elem(True, v), op in ("copy", "move"))
            if op in ("move", "massign") and not (s == d):
                mv = fresh("moved")
                # self-move leaves a valid value too
                if s[0] == "f" and d[0] == "f" and s[1] == d[1]:
                    same = And(eq(s[2].oid, d[2].oid), eq(s[2].idx, d[2].idx))
                    mv = If(same, v, mv)
                self.elem_set(st, s, Elem(True, mv), False)

    # ---------------------------------------------------------- values
    def val(self, st, fr, t, v):
        k = v[0]
        if k == "r":
            return fr.regs[v[1]]
        if k == "i":
            if t.k == "int" and t.bits == 1:
                return bool(v[1])
            return v[1]
        if k == "null":
            return NULL
        if k == "g":
            return self.glob(st, v[1])
        if k == "undef":
            if t.k == "struct":
                return [UNDEF] * len(t.elems)
            return UNDEF
        if k == "zero":
            return self.zero(t)
        if k == "cgep":
            base = self.val(st, fr, v[2][0][0], v[2][0][1])
            return self.gep(st, fr, v[1], base, v[2][1:])
        if k == "ccast":
            x = self.val(st, fr, v[2], v[3])
            if v[1] in ("bitcast", "addrspacecast"):
                return x
            if v[1] == "ptrtoint":
                return PInt(x)
            if v[1] == "inttoptr" and isc(x):
                return NULL if x == 0 else self._intptr(x)
            raise Unsupported("constant cast %s" % v[1])
        if k == "agg":
            return [self.val(st, fr, tt, vv) for tt, vv in v[2]]
        if k == "f":
            return v[1]
        raise Unsupported("value %r" % (v,))

    def _intptr(self, x):
        return FPtr("@int", x, 0, 0)

    def zero(self, t):
        if t.k == "int":
            return False if t.bits == 1 else 0
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return [self.zero(e) for e in t.elems]
        if t.k == "array":
            return [self.zero(t.elems) for _ in range(t.n)]
        if t.k == "float":
            return "0.0"
        raise Unsupported("zero of %r" % t)

    def glob(self, st, name):
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        o = self.globs.get(name)
        if o is None:
            o = Obj("@" + name, kind="global")
            self.globs[name] = o
        if o not in st.mem:
            cells = {}
            src = self.m.globs.get("@" + name) or self.m.globs.get('@"%s"' % name) or ""
            m = re.search(r"\b(?:global|constant) (.*)$", src)
            if m and not re.search(r"\bexternal\b", src.split(" global")[0].split(" constant")[0]):
                txt = re.split(r", (?:align|comdat|section)\b|, !dbg", m.group(1))[0]
                try:
                    tk = IR.Tok(txt)
                    t = self.m.parse_type(tk)
                    v = self.m.parse_value(tk, t)
                    self._ginit(st, cells, 0, t, v)
                except (IR.IRError, Unsupported):
                    cells = {}
            st.mem[o] = cells
        return Ptr(o, 0)

    def _ginit(self, st, cells, off, t, v):
        if v[0] == "cstr":
            return
        if t.k == "struct":
            offs = self.m.offsets(t)
            for i, (e, o) in enumerate(zip(t.elems, offs)):
                self._ginit(st, cells, off + o, e, ("zero", e) if v[0] == "zero" else v[2][i][1])
            return
        if t.k == "array":
            if t.n > 64:
                return
            s = self.m.size(t.elems)
            for i in range(t.n):
                self._ginit(st, cells, off + i * s, t.elems, ("zero", t.elems) if v[0] == "zero" else v[2][i][1])
            return
        cells[off] = (self.m.size(t), self.val(st, None, t, v))

    # ---------------------------------------------------------- gep
    def gep(self, st, fr, bt, base, idxs):
        vals = []
        for (t, v) in idxs:
            vals.append(self.val(st, fr, t, v) if not is_val(v) else v)
        const = 0
        syms = []
        t = bt
        for i, v in enumerate(vals):
            v = conc(v)
            if i == 0:
                s = self.m.size(t)
                if isc(v):
                    const += s * v
                else:
                    syms.append((s, v))
                continue
            if t.k == "struct":
                const += self.m.offsets(t)[v]
                t = t.elems[v]
            elif t.k in ("array", "vector"):
                t = t.elems
                s = self.m.size(t)
                if isc(v):
                    const += s * v
                else:
                    syms.append((s, v))
            else:
                raise Unsupported("gep into %r" % t)
        if isinstance(base, Ptr):
            off = base.off + const
            for (s, v) in syms:
                c = self.concretize(st, v)
                if c is None:
                    raise Unsupported("symbolic index into a concrete object %r" % base)
                off += s * c
            return Ptr(base.obj, off)
        if isinstance(base, FPtr):
            if base.fam is None or base.fam == "@int":
                live = [(s, v) for (s, v) in syms if not self.entails_ground(st, eq(v, 0))]
                if const == 0 and not live:
                    return base
                if isc(base.oid) and base.oid == 0:
                    return self.null_arith(st, base, const, live)
                raise Unsupported("gep on null/untyped pointer")
            es = self.fams[base.fam].esize
            idx = base.idx
            for (s, v) in syms:
                if s % es == 0:
                    idx = add(idx, mul(s // es, v))
                else:
                    q = self.exact_div(st, mul(s, v), es)
                    if q is None:
                        raise Unsupported("gep stride %d into %s" % (s, base.fam))
                    idx = add(idx, q)
            tot = base.off + const
            return FPtr(base.fam, base.oid, add(idx, tot // es), tot % es)
        if isinstance(base, Undef):
            raise Unsupported("gep on undef")
        raise Unsupported("gep on %r" % (base,))

    def null_arith(self, st, base, const, syms):
        """arithmetic on a null pointer: an (invalid) pointer whose use fails its access obligation"""
        return FPtr("@null", 0, fresh("nullidx"), 0)

    def exact_div(self, st, e, d):
        if isc(e):
            return e // d if e % d == 0 else None
        if z3.is_mul(e) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a) and a.as_long() % d == 0:
                return mul(a.as_long() // d, b)
        if z3.is_add(e):
            out = 0
            for c in e.children():
                q = self.exact_div(st, conc(c), d)
                if q is None:
                    return None
                out = add(out, q)
            return out
        q = fresh("q")
        if self.entails_ground(st, zi(e) % d == 0):
            st.assume(zi(e) == d * q)
            return q
        return None

    def concretize(self, st, v):
        v = conc(v)
        if isc(v):
            return v
        r, s = ground_check(st.ground)
        if r != z3.sat:
            return None
        c = s.model().eval(v, model_completion=True)
        if not z3.is_int_value(c):
            return None
        if self.entails_ground(st, v == c):
            return c.as_long()
        return None

    # ---------------------------------------------------------- arithmetic
    def as_bool(self, x):
        x = conc(x)
        if isinstance(x, bool):
            return x
        if isc(x):
            return bool(x & 1)
        if z3.is_bool(x):
            return x
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
            if x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
                return x.arg(0)
            if x.arg(1).as_long() == 0 and x.arg(2).as_long() == 1:
                return z3.Not(x.arg(0))
        return x % 2 == 1

    def to_int(self, b):
        if isinstance(b, bool):
            return int(b)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0))

    def in_range(self, st, e, bits):
        if isc(e):
            return -(1 << (bits - 1)) <= e < (1 << (bits - 1))
        lim = 1 << (bits - 1)
        return self.entails_ground(st, z3.And(zi(e) >= -lim, zi(e) < lim))

    def wrap(self, st, e, bits):
        lim = 1 << (bits - 1)
        if isc(e):
            return (e + lim) % (2 * lim) - lim
        if self.in_range(st, e, bits):
            return e
        return (zi(e) + lim) % (2 * lim) - lim

    def unsigned(self, st, e, bits):
        if isc(e):
            return e % (1 << bits)
        if self.entails_ground(st, zi(e) >= 0):
            return e
        return z3.If(zi(e) >= 0, zi(e), zi(e) + (1 << bits))

    def binop(self, st, op, t, x, y, fl):
        bits = t.bits
        if bits == 1:
            x, y = zb(x) if not isinstance(x, bool) else x, zb(y) if not isinstance(y, bool) else y
            if op == "and":
                return And(x, y)
            if op == "or":
                return Or(x, y)
            if op in ("xor", "add", "sub"):
                if isinstance(y, bool):
                    return Not(x) if y else x
                if isinstance(x, bool):
                    return Not(y) if x else y
                return z3.Xor(x, y)
            raise Unsupported("i1 %s" % op)
        if isinstance(x, PInt) or isinstance(y, PInt):
            if op == "sub" and isinstance(x, PInt) and isinstance(y, PInt):
                return self.ptr_diff(st, x.p, y.p)
            raise Unsupported("pointer arithmetic %s" % op)
        if isinstance(x, Undef) or isinstance(y, Undef):
            return UNDEF
        x, y = conc(x), conc(y)
        if op in ("add", "sub", "mul"):
            if op == "mul" and not (isc(x) or isc(y)):
                cx, cy = self.concretize(st, x), None
                if cx is None:
                    cy = self.concretize(st, y)
                x = cx if cx is not None else x
                y = cy if cy is not None else y
            r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
            if isc(r):
                if "nsw" in fl:
                    if not (-(1 << (bits - 1)) <= r < (1 << (bits - 1))):
                        self.check(st, False, "no-signed-overflow(%s)" % op, assume=False)
                        raise PathEnd()
                    return r
                return self.wrap(st, r, bits)
            if "nsw" in fl:
                lim = 1 << (bits - 1)
                self.check(st, z3.And(r >= -lim, r < lim), "no-signed-overflow(%s)" % op)
                return r
            return self.wrap(st, r, bits)
        if op in ("sdiv", "srem"):
            d = y if isc(y) else self.concretize(st, y)
            if d is None:
                # symbolic divisor: only need non-zero
                self.check(st, zi(y) != 0, "no-division-by-zero")
                raise Unsupported("symbolic divisor")
            if d == 0:
                self.check(st, False, "no-division-by-zero", assume=False)
                raise PathEnd()
            if isc(x):
                q = abs(x) // abs(d)
                q = q if (x >= 0) == (d > 0) else -q
                return q if op == "sdiv" else x - q * d
            ex = self._sdiv_exact(x, d) if d > 0 else None
            if ex is not None:
                return ex if op == "sdiv" else 0
            if d > 0 and self.entails_ground(st, x >= 0):
                return x / d if op == "sdiv" else x % d
            ad = abs(d)
            q = z3.If(x >= 0, x / ad, -((-x) / ad))
            if d < 0:
                q = -q
            return q if op == "sdiv" else x - q * d
        if op in ("udiv", "urem"):
            d = y if isc(y) else self.concretize(st, y)
            if d is None:
                raise Unsupported("symbolic divisor")
            d = d % (1 << bits)
            if d == 0:
                self.check(st, False, "no-division-by-zero", assume=False)
                raise PathEnd()
            ux = self.unsigned(st, x, bits)
            if isc(ux):
                r = ux // d if op == "udiv" else ux % d
            else:
                r = ux / d if op == "udiv" else ux % d
            return self.wrap(st, r, bits)
        if op == "shl":
            if not isc(y):
                y = self.concretize(st, y)
                if y is None:
                    raise Unsupported("symbolic shift")
            r = mul(x, 1 << y)
            if "nsw" in fl and not isc(r):
                lim = 1 << (bits - 1)
                self.check(st, z3.And(r >= -lim, r < lim), "no-signed-overflow(shl)")
                return r
            return self.wrap(st, r, bits)
        if op in ("lshr", "ashr"):
            if not isc(y):
                y = self.concretize(st, y)
                if y is None:
                    raise Unsupported("symbolic shift")
            if y == 0:
                return x
            if op == "lshr":
                ux = self.unsigned(st, x, bits)
                return ux >> y if isc(ux) else ux / (1 << y)
            return x >> y if isc(x) else x / (1 << y)
        if op in ("and", "or", "xor"):
            if isc(x) and isc(y):
                r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
                return r
            if isc(x):
                x, y = y, x
            if isc(y):
                if op == "and":
                    m = y
                    if m == 0:
                        return 0
                    if m == -1:
                        return x
                    if m > 0 and (m & (m + 1)) == 0:
                        return x % (m + 1)
                    nm = ~m
                    if nm > 0 and (nm & (nm + 1)) == 0:
                        return sub(x, x % (nm + 1))
                if op == "xor" and y == -1:
                    return sub(-1, x)
                if op == "xor" and y == 1 or op == "or" and y == 0 or op == "xor" and y == 0:
                    if y == 0:
                        return x
                    return self.to_int(Not(self.as_bool(x)))
            # bool-valued ints
            if all(self._boolish(v) for v in (x, y)):
                bx, by = self.as_bool(x), self.as_bool(y)
                return self.to_int({"and": And, "or": Or}[op](bx, by) if op != "xor" else z3.Xor(zb(bx), zb(by)))
            raise Unsupported("bitwise %s" % op)
        raise Unsupported("binop %s" % op)

    def _boolish(self, x):
        if isc(x):
            return x in (0, 1)
        return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and \
            z3.is_int_value(x.arg(2)) and {x.arg(1).as_long(), x.arg(2).as_long()} == {0, 1}

    def _sdiv_exact(self, e, d):
        if isc(e):
            return e // d if e % d == 0 else None
        if z3.is_mul(e) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a) and a.as_long() % d == 0:
                return mul(a.as_long() // d, b)
        if z3.is_add(e) or z3.is_sub(e):
            qs = [self._sdiv_exact(conc(c), d) for c in e.children()]
            if any(q is None for q in qs):
                return None
            r = qs[0]
            for q in qs[1:]:
                r = add(r, q) if z3.is_add(e) else sub(r, q)
            return r
        return None

    def ptr_diff(self, st, p, q):
        if isinstance(p, Ptr) and isinstance(q, Ptr):
            if p.obj is q.obj:
                return p.off - q.off
            self.check(st, False, "pointer-difference-within-one-object", assume=False)
            raise PathEnd()
        if isinstance(p, FPtr) and isinstance(q, FPtr):
            fam = p.fam or q.fam
            if p.fam and q.fam and p.fam != q.fam:
                self.check(st, False, "pointer-difference-within-one-object", assume=False)
                raise PathEnd()
            self.check(st, eq(p.oid, q.oid), "pointer-difference-within-one-object")
            if fam is None or fam.startswith("@"):
                return 0
            es = self.fams[fam].esize
            return add(mul(es, sub(p.idx, q.idx)), p.off - q.off)
        raise Unsupported("pointer difference %r %r" % (p, q))

    def ptr_eq(self, p, q):
        if isinstance(p, FnPtr) or isinstance(q, FnPtr):
            if isinstance(p, FnPtr) and isinstance(q, FnPtr):
                return p.name == q.name
            return False
        if isinstance(p, Ptr) and isinstance(q, Ptr):
            return p.obj is q.obj and p.off == q.off
        if isinstance(p, Ptr) or isinstance(q, Ptr):
            return False
        if isinstance(p, FPtr) and isinstance(q, FPtr):
            if p.fam is None or q.fam is None:
                # null against family pointer
                r = p if p.fam is not None else q
                o = q if r is p else p
                return eq(r.oid, o.oid)
            if p.fam != q.fam:
                return And(eq(p.oid, 0), eq(q.oid, 0))
            if p.off != q.off:
                return False
            return And(eq(p.oid, q.oid), eq(p.idx, q.idx))
        raise Unsupported("pointer compare %r %r" % (p, q))

    def icmp(self, st, pred, t, x, y):
        if t.k == "ptr" or is_ptr(x) or is_ptr(y) or isinstance(x, PInt):
            if isinstance(x, PInt):
                x = x.p
            if isinstance(y, PInt):
                y = y.p
            if isc(x):
                x = NULL
            if isc(y):
                y = NULL
            if pred == "eq":
                return self.ptr_eq(x, y)
            if pred == "ne":
                return Not(self.ptr_eq(x, y))
            d = self.ptr_diff(st, x, y)
            return {"ult": lt(d, 0), "ule": le(d, 0), "ugt": lt(0, d), "uge": le(0, d),
                    "slt": lt(d, 0), "sle": le(d, 0), "sgt": lt(0, d), "sge": le(0, d)}[pred]
        if isinstance(x, Undef) or isinstance(y, Undef):
            return fresh("undefcmp", B)
        if t.bits == 1:
            if pred == "eq":
                return eq(x, y)
            if pred == "ne":
                return Not(eq(x, y))
            x, y = self.to_int(x), self.to_int(y)
        x, y = conc(x), conc(y)
        if pred == "eq":
            return conc(eq(x, y))
        if pred == "ne":
            return Not(eq(x, y))
        if pred[0] == "u":
            x = self.unsigned(st, x, t.bits)
            y = self.unsigned(st, y, t.bits)
        return {"lt": lambda: lt(x, y), "le": lambda: le(x, y), "gt": lambda: lt(y, x), "ge": lambda: le(y, x)}[pred[1:]]()

    # ---------------------------------------------------------- running
    def enter(self, st, fname, args, call=None):
        fn = self.m.funcs.get(fname)
        if fn is None:
            raise Unsupported("call to external function %s" % self.dem.get(fname, fname))
        if len(st.frames) > self.maxdepth:
            raise Unsupported("call depth (recursion) in %s" % self.dem.get(fname, fname))
        self.called.add(fname)
        regs = {}
        for (t, nm, at), a in zip(fn.params, args):
            if "byval" in at:
                a = self.byval(st, at["byval"], a, nm)
            regs[nm] = a
        st.frames.append(Frame(fn, regs, call))

    def alloca_obj(self, st, fr, ins, size):
        """deterministic identity: one object per call chain and alloca"""
        key = tuple((f.fn.name, f.blk, f.ip) for f in st.frames[:-1]) + (fr.fn.name, ins.res)
        o = self.allocas.get(key)
        if o is None:
            o = Obj("%s.%s" % (ins.res, fr.fn.name[-20:]), size)
            self.allocas[key] = o
        fr.va.append(o)
        return o

    def drop_frame(self, st, fr):
        for o in fr.va:
            st.mem.pop(o, None)

    def byval(self, st, t, p, nm):
        key = tuple((f.fn.name, f.blk, f.ip) for f in st.frames) + ("byval", nm)
        o = self.allocas.get(key)
        if o is None:
            o = Obj("byval" + nm, self.m.size(t))
            self.allocas[key] = o
        st.mem[o] = {}
        self.copy_cells(st, Ptr(o, 0), p, self.m.size(t))
        return Ptr(o, 0)

    def copy_cells(self, st, d, s, n):
        if isinstance(s, FPtr):
            raise Unsupported("struct copy out of a family")
        sc = st.mem[s.obj]
        if self.hooks:
            self.hooks.on_copy(self, st, s, n, False)
            self.hooks.on_copy(self, st, d, n, True)
        items = [(o, v) for o, v in sc.items() if s.off <= o < s.off + n]
        dc = st.mem[d.obj]
        for o2 in [o for o, (sz, _) in dc.items() if o < d.off + n and d.off < o + sz]:
            del dc[o2]
        for o, v in items:
            if isinstance(v[1], Elem):
                raise Unsupported("bitwise copy of an element")
            if o + v[0] > s.off + n:
                raise Unsupported("partial cell copy")
            dc[o - s.off + d.off] = v

    def explore(self, states, sink, cut=None):
        """run states to completion; sink(kind, state, value)"""
        work = list(states)
        while work:
            st = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the unit exhausted")
            try:
                r = self.run(st, sink, work, cut)
            except PathEnd:
                continue

    def run(self, st, sink, work, cut):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            fr.ip += 1
            r = self.step(st, fr, ins, sink, work, cut)
            if r == "end":
                return

    def goto(self, st, fr, lab, sink, work, cut):
        prev = fr.blk
        back, body = fr.fn.loops()
        # leaving a dry-run loop?
        if cut is not None and len(st.frames) == cut.depth and lab not in cut.body:
            raise PathEnd()
        # evaluate phis
        blk = fr.fn.blocks[lab]
        newv = {}
        n = 0
        for i in blk:
            if i.op != "phi":
                break
            n += 1
            for (v, l) in i.a[1]:
                if l == prev:
                    newv[i.res] = self.val(st, fr, i.a[0], v)
        fr.regs.update(newv)
        if lab in body and newv:
            raise Unsupported("loop-carried register (phi at a loop header)")
        if lab in body:
            if (prev, lab) in back and lab in fr.cuts:
                c = fr.cuts[lab]
                self.at_back_edge(st, c, sink)
                raise PathEnd()
            # entry into the loop
            fr.prev = prev
            fr.blk = lab
            fr.ip = n
            outs = self.enter_loop(st, lab, body[lab], cut)
            if not outs:
                raise PathEnd()
            for o in outs[1:]:
                work.append(o)
            o = outs[0]
            if o is not st:
                # continue with the new state object
                work.append(o)
                raise PathEnd()
            return
        # drop cuts of loops we left
        for h in [h for h in fr.cuts if lab not in body.get(h, ())]:
            del fr.cuts[h]
        fr.prev = prev
        fr.blk = lab
        fr.ip = n

    def step(self, st, fr, ins, sink, work, cut):
        op = ins.op
        a = ins.a
        if op == "load":
            p = self.val(st, fr, IR.PTR, a[1])
            fr.regs[ins.res] = self.load(st, a[0], p, a[2])
        elif op == "store":
            v = self.val(st, fr, a[0], a[1])
            p = self.val(st, fr, IR.PTR, a[2])
            self.store(st, a[0], v, p, a[3])
        elif op == "alloca":
            o = self.alloca_obj(st, fr, ins, self.m.size(a[0]))
            st.mem[o] = {}
            fr.regs[ins.res] = Ptr(o, 0)
        elif op == "getelementptr":
            base = self.val(st, fr, a[1][0][0], a[1][0][1])
            fr.regs[ins.res] = self.gep(st, fr, a[0], base, a[1][1:])
        elif op == "br":
            if len(a) == 1:
                self.goto(st, fr, a[0], sink, work, cut)
            else:
                c = conc(self.val(st, fr, IR.INT[1], a[0]))
                if isinstance(c, Undef):
                    c = fresh("undefbr", B)
                if not isinstance(c, bool):
                    ft = self.feasible(st, c)
                    ff = self.feasible(st, z3.Not(c))
                    if ft and ff:
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        try:
                            self.goto(s2, s2.frames[-1], a[2], sink, work, cut)
                            work.append(s2)
                        except PathEnd:
                            pass
                        st.assume(c)
                        c = True
                    elif ft:
                        st.assume(c)
                        c = True
                    elif ff:
                        st.assume(z3.Not(c))
                        c = False
                    else:
                        raise PathEnd()
                self.goto(st, fr, a[1] if c else a[2], sink, work, cut)
        elif op == "call":
            return self.do_call(st, fr, ins, sink, work, cut)
        elif op == "ret":
            v = None if a is None else self.val(st, fr, a[0], a[1])
            return self.do_ret(st, v, sink, work, cut)
        elif op == "icmp":
            x = self.val(st, fr, a[1], a[2])
            y = self.val(st, fr, a[1], a[3])
            fr.regs[ins.res] = self.icmp(st, a[0], a[1], x, y)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            x = self.val(st, fr, a[0], a[1])
            y = self.val(st, fr, a[0], a[2])
            fr.regs[ins.res] = conc(self.binop(st, op, a[0], x, y, a[3]))
        elif op in ("zext", "sext", "trunc"):
            x = self.val(st, fr, a[0], a[1])
            fr.regs[ins.res] = self.cast(st, op, a[0], x, a[2])
        elif op in ("bitcast", "freeze", "addrspacecast"):
            fr.regs[ins.res] = self.val(st, fr, a[0], a[1])
        elif op == "ptrtoint":
            fr.regs[ins.res] = PInt(self.val(st, fr, a[0], a[1]))
        elif op == "inttoptr":
            v = self.val(st, fr, a[0], a[1])
            if isinstance(v, PInt):
                fr.regs[ins.res] = v.p
            elif isc(v) and v == 0:
                fr.regs[ins.res] = NULL
            else:
                raise Unsupported("inttoptr")
        elif op == "select":
            c = conc(self.val(st, fr, IR.INT[1], a[0]))
            x = self.val(st, fr, a[1], a[2])
            y = self.val(st, fr, a[1], a[3])
            if isinstance(c, bool):
                fr.regs[ins.res] = x if c else y
            elif is_ptr(x) or is_ptr(y) or isinstance(x, (list, PInt)):
                s2 = st.copy()
                st.assume(c)
                s2.assume(z3.Not(c))
                fr.regs[ins.res] = x
                s2.frames[-1].regs[ins.res] = y
                if self.feasible(s2):
                    work.append(s2)
                if not self.feasible(st):
                    raise PathEnd()
            else:
                fr.regs[ins.res] = If(c, x, y)
        elif op == "switch":
            v = conc(self.val(st, fr, a[0], a[1]))
            if isc(v):
                for c, l in a[3]:
                    if c[1] == v:
                        self.goto(st, fr, l, sink, work, cut)
                        return
                self.goto(st, fr, a[2], sink, work, cut)
                return
            rest = []
            for c, l in a[3]:
                s2 = st.copy()
                s2.assume(zi(v) == c[1])
                rest.append(zi(v) != c[1])
                if self.feasible(s2):
                    try:
                        self.goto(s2, s2.frames[-1], l, sink, work, cut)
                        work.append(s2)
                    except PathEnd:
                        pass
            st.assume(rest)
            if not self.feasible(st):
                raise PathEnd()
            self.goto(st, fr, a[2], sink, work, cut)
        elif op == "extractvalue":
            v = self.val(st, fr, a[0], a[1])
            for i in a[2]:
                v = v[i]
            fr.regs[ins.res] = v
        elif op == "insertvalue":
            v = self.val(st, fr, a[0], a[1])
            x = self.val(st, fr, a[2], a[3])
            v = list(v)
            if len(a[4]) != 1:
                raise Unsupported("nested insertvalue")
            v[a[4][0]] = x
            fr.regs[ins.res] = v
        elif op == "unreachable":
            self.check(st, False, "unreachable-not-reached", assume=False)
            raise PathEnd()
        elif op == "landingpad":
            fr.regs[ins.res] = [FPtr("@exc", 1, 0, 0), 1]
        elif op == "resume":
            st.frames.pop()
            return self.unwind(st, fr, sink, work, cut)
        elif op == "cmpxchg":
            p = self.val(st, fr, IR.PTR, a[1])
            exp = self.val(st, fr, a[0], a[2])
            new = self.val(st, fr, a[0], a[3])
            if self.hooks:
                r = self.hooks.on_cmpxchg(self, st, p, a[0], exp, new, work, ins)
                if r == "fork":
                    raise PathEnd()
            old = self.load(st, a[0], p, True)
            c = conc(eq(old, exp))
            if not isinstance(c, bool):
                s2 = st.copy()
                s2.assume(z3.Not(c))
                if self.feasible(s2):
                    s2.frames[-1].regs[ins.res] = [old, False]
                    work.append(s2)
                st.assume(c)
                if not self.feasible(st):
                    raise PathEnd()
                c = True
            if c:
                self.store(st, a[0], new, p, True)
            fr.regs[ins.res] = [old, c]
        elif op == "atomicrmw":
            p = self.val(st, fr, IR.PTR, a[2])
            v = self.val(st, fr, a[0], a[3])
            old = self.load(st, a[0], p, True)
            if a[1] == "xchg":
                new = v
            elif a[1] in ("add", "sub"):
                new = self.binop(st, a[1], a[0], old, v, ())
            else:
                raise Unsupported("atomicrmw %s" % a[1])
            self.store(st, a[0], new, p, True)
            fr.regs[ins.res] = old
        elif op == "fence":
            pass
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fneg",
                    "fptrunc", "frem"):
            raise Unsupported("floating point")
        else:
            raise Unsupported("instruction %s" % op)

    def cast(self, st, op, t, x, t2):
        if isinstance(x, Undef):
            return UNDEF
        if isinstance(x, PInt):
            return x
        if t.bits == 1:
            b = x if isinstance(x, bool) or (isz(x) and z3.is_bool(x)) else self.as_bool(x)
            if op == "zext":
                return self.to_int(b)
            return If(b, -1, 0)
        if op == "sext":
            return x
        if op == "zext":
            return self.unsigned(st, x, t.bits)
        if t2.bits == 1:
            return self.as_bool(x)
        return conc(self.wrap(st, x, t2.bits))

    # ---------------------------------------------------------- calls
    def do_ret(self, st, v, sink, work, cut):
        fr = st.frames.pop()
        self.drop_frame(st, fr)
        if fr.call is None:
            sink("ret", st, v)
            return "end"
        if cut is not None and len(st.frames) < cut.depth:
            raise PathEnd()
        self.finish_call(st, fr.call, v, sink, work, cut)

    def finish_call(self, st, call, v, sink, work, cut):
        fr = st.frames[-1]
        if call.res is not None:
            fr.regs[call.res] = v
        tgt = call.a[3]
        if tgt:
            self.goto(st, fr, tgt[0], sink, work, cut)

    def unwind(self, st, fr, sink, work, cut):
        """fr was popped because of an exception"""
        while True:
            call = fr.call
            self.drop_frame(st, fr)
            if call is None:
                sink("throw", st, st.exc)
                return "end"
            if cut is not None and len(st.frames) < cut.depth:
                raise PathEnd()
            caller = st.frames[-1]
            tgt = call.a[3]
            if tgt:
                self.goto(st, caller, tgt[1], sink, work, cut)
                return
            fr = st.frames.pop()

    def throw(self, st, what, sink, work, cut, ins=None):
        st.exc = what
        fr = st.frames[-1]
        if ins is not None and ins.a[3]:
            self.goto(st, fr, ins.a[3][1], sink, work, cut)
            return
        fr = st.frames.pop()
        return self.unwind(st, fr, sink, work, cut)

    def find_intercept(self, name):
        if name in self._icache:
            return self._icache[name]
        d = self.dem.get(name, name)
        h = None
        for rx, hd in self.intercepts:
            if rx.match(d):
                h = hd
                break
        self._icache[name] = h
        return h

    def do_call(self, st, fr, ins, sink, work, cut):
        rt, callee, args, tgt = ins.a
        if callee[0] == "asm":
            raise Unsupported("inline asm")
        c = self.val(st, fr, IR.PTR, callee)
        if isinstance(c, FnPtr):
            name = c.name
        else:
            name = None
            h = self.opts.get("indirect")
            if h:
                vals = [self.val(st, fr, t, v) for (t, v, at) in args]
                r = h(self, st, c, vals, ins)
                return self.after_intercept(st, fr, ins, r, sink, work, cut)
            raise Unsupported("indirect call")
        if name.startswith("llvm."):
            return self.intrinsic(st, fr, ins, name, args, sink, work, cut)
        vals = [self.val(st, fr, t, v) for (t, v, at) in args]
        h = self.find_intercept(name)
        if h is not None:
            r = h(self, st, name, vals, ins)
            if not (isinstance(r, str) and r == "inline"):
                return self.after_intercept(st, fr, ins, r, sink, work, cut)
        self.enter(st, name, vals, ins)

    def after_intercept(self, st, fr, ins, r, sink, work, cut):
        """r: value | ('throw', what) | ('fork', [(state, value)...]) | ('noreturn',)"""
        if isinstance(r, tuple) and r and r[0] == "throw":
            return self.throw(st, r[1], sink, work, cut, ins)
        if isinstance(r, tuple) and r and r[0] == "noreturn":
            raise PathEnd()
        if isinstance(r, tuple) and r and r[0] == "enter":
            self.enter(st, r[1], r[2], ins)
            return
        if isinstance(r, tuple) and r and r[0] == "fork":
            for (s2, v) in r[1]:
                try:
                    if isinstance(v, tuple) and v and v[0] == "throw":
                        self.throw(s2, v[1], sink, work, cut, ins)
                    elif isinstance(v, tuple) and v and v[0] == "enter":
                        self.enter(s2, v[1], v[2], ins)
                    else:
                        self.finish_call(s2, ins, v, sink, work, cut)
                    if s2.frames:
                        work.append(s2)
                except PathEnd:
                    pass
            raise PathEnd()
        self.finish_call(st, ins, r, sink, work, cut)

    def intrinsic(self, st, fr, ins, name, args, sink, work, cut):
        vals = [self.val(st, fr, t, v) for (t, v, at) in args]
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.invariant", "llvm.experimental.noalias")):
            r = None
        elif name.startswith("llvm.umul.with.overflow") or name.startswith("llvm.uadd.with.overflow"):
            bits = args[0][0].bits
            x, y = self.unsigned(st, vals[0], bits), self.unsigned(st, vals[1], bits)
            p = mul(x, y) if "umul" in name else add(x, y)
            ov = le(1 << bits, p)
            if isz(ov) and not isinstance(ov, bool):
                if self.entails_ground(st, z3.Not(ov)):
                    ov = False
            r = [self.wrap(st, p, bits), conc(ov)]
        elif name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, vals[0], vals[1], vals[2], "memmove" in name)
            r = None
        elif name.startswith("llvm.memset"):
            self.memset(st, vals[0], vals[1], vals[2])
            r = None
        elif name.startswith("llvm.trap"):
            self.check(st, False, "trap-not-reached", assume=False)
            raise PathEnd()
        elif name.startswith("llvm.expect"):
            r = vals[0]
        elif name.startswith("llvm.eh.typeid.for"):
            r = 1
        elif name.startswith(("llvm.smax", "llvm.smin")):
            x, y = vals
            c = lt(y, x) if "smax" in name else lt(x, y)
            r = If(c, x, y)
        elif name.startswith(("llvm.umax", "llvm.umin")):
            bits = args[0][0].bits
            x, y = vals
            ux, uy = self.unsigned(st, x, bits), self.unsigned(st, y, bits)
            c = lt(uy, ux) if "umax" in name else lt(ux, uy)
            r = If(c, x, y)
        elif name.startswith("llvm.abs"):
            r = If(lt(vals[0], 0), sub(0, vals[0]), vals[0])
        else:
            raise Unsupported("intrinsic %s" % name)
        self.finish_call(st, ins, r, sink, work, cut)

    # ---------------------------------------------------------- memcpy
    def memcpy(self, st, d, s, n, move=False):
        n = conc(n)
        if not isc(n):
            k = self.concretize(st, n)
            if k is not None:
                n = k
        if isc(n) and n == 0:
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            if not isc(n):
                raise Unsupported("memcpy of symbolic size between locals")
            self.copy_cells(st, d, s, n)
            return
        if isinstance(d, Ptr) and isinstance(s, FPtr):
            f = self.fams.get(s.fam)
            if not isc(n):
                raise Unsupported("memcpy symbolic")
            if f is not None and f.esize == 1 and n == 4:
                self.access(st, s, 4, "read")
                v = self.load_bytes(st, s, IR.INT[32])
                self.store(st, IR.INT[32], v, d)
                return
            if f is not None and f.esize == 1 and n in (8, 12, 16):
                # a record of 32 bit fields copied out as a whole
                self.access(st, s, n, "read")
                for k in range(0, n, 4):
                    v = self.load_bytes(st, FPtr(s.fam, s.oid, add(s.idx, k)), IR.INT[32])
                    self.store(st, IR.INT[32], v, self.ptr_add(d, k))
                return
            if f is None:
                self.access(st, s, n, "read")
            raise Unsupported("memcpy %r <- %r" % (d, s))
        if isinstance(d, FPtr) and isinstance(s, Ptr):
            f = self.fams.get(d.fam)
            if f is None:
                if is_null(d) or d.fam == "@null":
                    self.check(st, False, "no-null-dereference(memcpy)", assume=False)
                    raise PathEnd()
                raise Unsupported("memcpy to %r" % d)
            if f.esize == 1 and isc(n) and n == 4:
                v = self.load(st, IR.INT[32], s)
                self.access(st, d, 4, "write")
                self.store_bytes(st, d, IR.INT[32], v)
                return
            if f.esize == 1 and isc(n) and n in (8, 12, 16):
                self.access(st, d, n, "write")
                for k in range(0, n, 4):
                    v = self.load(st, IR.INT[32], self.ptr_add(s, k))
                    self.store_bytes(st, FPtr(d.fam, d.oid, add(d.idx, k)), IR.INT[32], v)
                return
            raise Unsupported("memcpy %r <- %r" % (d, s))
        if isinstance(d, FPtr) and isinstance(s, FPtr):
            if is_null(d) or is_null(s) or d.fam == "@null" or s.fam == "@null":
                # null with a size that may be zero
                self.check(st, eq(n, 0), "no-null-dereference(memcpy)")
                if not self.feasible(st):
                    raise PathEnd()
                return
            f = self.fams[d.fam]
            if d.fam != s.fam and self.fams[s.fam].esize != f.esize:
                raise Unsupported("memcpy between families")
            if any(k == "elem" for _, k in f.fields.values()):
                self.check(st, False, "elements-are-not-copied-bytewise", assume=False)
                raise PathEnd()
            cnt = self.exact_div(st, n, f.esize)
            if cnt is None:
                raise Unsupported("memcpy length")
            cnt_z = zi(cnt)
            # size_t interpretation: a negative length is a gigantic one
            self.check(st, cnt_z >= 0, "copy-length-not-negative")
            dal = z3.Select(st.fam[d.fam + ".alloc"], zi(d.oid))
            sal = z3.Select(st.fam[s.fam + ".alloc"], zi(s.oid))
            dsz = z3.Select(st.fam[d.fam + ".size"], zi(d.oid))
            ssz = z3.Select(st.fam[s.fam + ".size"], zi(s.oid))
            self.check(st, Or(cnt_z == 0, And(dal, le(0, d.idx), le(add(d.idx, cnt), dsz))), "memory-safe-copy-target(%s)" % d.fam)
            self.check(st, Or(cnt_z == 0, And(sal, le(0, s.idx), le(add(s.idx, cnt), ssz))), "memory-safe-copy-source(%s)" % s.fam)
            if not move and d.fam == s.fam:
                self.check(st, Or(cnt_z == 0, Not(eq(d.oid, s.oid)), le(add(s.idx, cnt), d.idx), le(add(d.idx, cnt), s.idx)),
                           "memcpy-no-overlap")
            for off, (fn, kind) in f.fields.items():
                kd = "%s.%s" % (d.fam, fn)
                ks = "%s.%s" % (s.fam, [q for q in self.fams[s.fam].fields.values()][0][0]) if s.fam != d.fam else kd
                srow = z3.Select(st.fam[ks], zi(s.oid))
                drow = z3.Select(st.fam[kd], zi(d.oid))
                nrow = fresh("row", ARR1)
                i = fresh("i")
                di, si = zi(d.idx), zi(s.idx)
                ish = z3.simplify(i - di + si)
                st.assume(forall([i], z3.Select(nrow, i) == z3.If(z3.And(i >= di, i < di + cnt_z),
                                                                 z3.Select(srow, ish), z3.Select(drow, i)),
                                 [z3.Select(nrow, i)]))
                st.fam[kd] = z3.Store(st.fam[kd], zi(d.oid), nrow)
            return
        raise Unsupported("memcpy %r <- %r" % (d, s))

    def memset(self, st, d, v, n):
        if isinstance(d, Ptr) and isc(n):
            c = st.mem[d.obj]
            for o2 in [o for o, (sz, _) in c.items() if o < d.off + n and d.off < o + sz]:
                del c[o2]
            if v != 0:
                raise Unsupported("memset nonzero")
            o = 0
            st.kv.setdefault("zeroed", ())
            while o < n:
                step = 8 if n - o >= 8 else (4 if n - o >= 4 else 1)
                c[d.off + o] = (step, 0)
                o += step
            return
        if isinstance(d, FPtr) and d.fam in self.fams:
            f = self.fams[d.fam]
            cnt = self.exact_div(st, n, f.esize)
            if cnt is None or not (isc(v) and v == 0):
                raise Unsupported("memset")
            cz = zi(cnt)
            self.check(st, Or(cz == 0, And(z3.Select(st.fam[d.fam + ".alloc"], zi(d.oid)), cz >= 0, le(0, d.idx),
                                           le(add(d.idx, cnt), z3.Select(st.fam[d.fam + ".size"], zi(d.oid))))),
                       "memory-safe-memset(%s)" % d.fam)
            for off, (fn, kind) in f.fields.items():
                if kind == "elem":
                    raise Unsupported("memset of elements")
                kd = "%s.%s" % (d.fam, fn)
                drow = z3.Select(st.fam[kd], zi(d.oid))
                nrow = fresh("row", ARR1)
                i = fresh("i")
                di = zi(d.idx)
                st.assume(forall([i], z3.Select(nrow, i) == z3.If(z3.And(i >= di, i < di + cz), 0, z3.Select(drow, i)),
                                 [z3.Select(nrow, i)]))
                st.fam[kd] = z3.Store(st.fam[kd], zi(d.oid), nrow)
            return
        raise Unsupported("memset")

    # ---------------------------------------------------------- loops
    def loop_key(self, st, header):
        return tuple((f.fn.name, f.blk if i < len(st.frames) - 1 else header, 0 if i == len(st.frames) - 1 else f.ip)
                     for i, f in enumerate(st.frames))

    def enter_loop(self, st, header, body, outer):
        key = self.loop_key(st, header)
        depth = len(st.frames)
        entry = st.snap()
        entry_pc = st.copy()

        def mkcut(state, mode, sink, cands):
            c = Cut()
            c.key = key
            c.header = header
            c.depth = depth
            c.body = body
            c.entry = entry
            c.cands = cands
            c.mode = mode
            c.sink = sink
            state.frames[-1].cuts[header] = c
            return c

        # --- modified locations
        mods = self.cutcache.get((key, "mods"), set())
        # locations seen modified on another path may hold something else here: rediscover those
        if any(m[0] == "m" and m[1] in entry.mem and m[2] in entry.mem[m[1]] and
               isinstance(entry.mem[m[1]][m[2]][1], (Ptr, FnPtr)) for m in mods):
            mods = set()
        stable = False
        rounds = 0
        while not stable:
            rounds += 1
            if rounds > 12:
                raise Unsupported("loop modifies an unbounded set of locations")
            head = entry_pc.copy()
            self.havoc(head, mods, entry)
            hs = head.snap()
            found = []
            c = mkcut(head, "mods", lambda s: found.append(s), [])
            self.dry += 1
            try:
                self.explore([head], lambda *x: None, c)
            finally:
                self.dry -= 1
            new = set()
            for s in found:
                new |= self.diff(hs, s, entry)
            if new <= mods:
                stable = True
                written = self.written(hs, found, mods)
            mods = mods | new
        self.cutcache[(key, "mods")] = mods
        if not self.dry and all(m[0] == "g" for m in mods):
            # a round changes nothing at all, nor can another thread unless a lock is given up: the loop never ends
            for s in found:
                if mods and (s.rel != hs.rel or not any(k.startswith("h.") and x is True for k, x in s.gh.items())):
                    continue
                self.check(s, False, "loop-makes-progress", tags=tuple(self.tags) + ("core",), assume=False)
        if outer is not None and outer.mode == "mods":
            head = entry_pc.copy()
            self.havoc(head, mods, entry)
            mkcut(head, "final", None, [])
            return [head]
        # --- candidates
        info = LoopInfo(self, entry, mods, st, header)
        info.written = written
        info.varying = set(self.varying)
        info.opaque = set(self.opaque)
        info.hs = hs
        info.found = found
        scal = self.scalar_cands(entry_pc, info)
        quant = []
        if self.loopcands:
            quant = self.loopcands(self, entry_pc, info)
        dead = self.cutcache.setdefault((key, "dead"), set())
        # entry filter
        scal = self.prune_ground(entry_pc, [c for c in scal if c[0] not in dead], entry_pc)
        quant2 = []
        for c in quant:
            if c[0] in dead:
                continue
            f = c[1](entry_pc)
            ok, _ = prove(entry_pc, f, rl=RL_FULL[0] // 3, attempts=False)
            if ok:
                quant2.append(c)
            elif self.opts.get("debug"):
                print("   entry-drop", c[0])
        quant = quant2
        # --- Houdini
        while True:
            head = entry_pc.copy()
            self.havoc(head, mods, entry)
            for c in scal:
                head.assume(c[1](head))
            for c in quant:
                assume_cand(head, c)
            found = []
            mkc = mkcut(head, "houdini", lambda s: found.append(s), [])
            self.dry += 1
            try:
                self.explore([head], lambda *x: None, mkc)
            finally:
                self.dry -= 1
            before = len(scal) + len(quant)
            for s in found:
                scal = self.prune_ground(s, scal, s, dead)
            if len(scal) == before - len(quant):
                # scalars stable: now the quantified ones
                bad = {}
                # equalities between whole rows first: kept wrongly, they hide the terms the others need
                rowc = [c for c in quant if c[0].endswith("-row-unchanged")]
                for stage in (rowc, [c for c in quant if c not in rowc]):
                    if bad:
                        break
                    for s, c in [(s, c) for s in found for c in stage]:
                        if bad.get(c[0]) == "refuted":
                            continue
                        tq = time.time()
                        ok, why = prove(s, c[1](s), rl=RL_FULL[0] // 3, attempts=False)
                        if not ok:
                            soft = "cancel" in why or "resource" in why
                            bad[c[0]] = "resource" if soft else "refuted"
                            if self.opts.get("debug"):
                                print("   step-drop", c[0], why, round(time.time() - tq, 2))
                            if self.opts.get("dump") and re.match(self.opts["dump"], c[0]):
                                print("DUMP", c[0], self.where(s))
                                so = z3.Solver()
                                for f in s.pc:
                                    so.add(f)
                                so.add(z3.Not(zb(c[1](s))))
                                open("/tmp/w/dump.smt2", "w").write(so.to_smt2())
                                raise Unsupported("dumped")
                # first drop what is definitely not preserved; give up on the rest only when nothing else is left
                drop = {n for n, k in bad.items() if k == "refuted"} or set(bad)
                dead |= drop
                quant = [c for c in quant if c[0] not in drop]
            if len(scal) + len(quant) == before:
                break
        if self.opts.get("debug"):
            print("LOOP", self.dem.get(key[-1][0], "")[:60], header, "scal", len(scal), "quant", [c[0] for c in quant],
                  "mods", sorted(map(str, mods))[:20])
        scal = self.minimize(entry_pc, mods, entry, scal)
        # --- final
        cands = scal + quant
        for c in quant:
            self.check(entry_pc.copy(), c[1](entry_pc), "loop-invariant-entry:" + c[0], assume=False)
        if scal:
            self.check(entry_pc.copy(), And([c[1](entry_pc) for c in scal]), "loop-invariant-entry:scalars", assume=False)
        head = entry_pc
        self.havoc(head, mods, entry)
        for c in cands:
            assume_cand(head, c)
        mkcut(head, "final", None, (scal, quant))
        return [head]

    def minimize(self, st, mods, entry, scal):
        """drop scalar candidates that follow from the others (the conjunction stays the same)"""
        if len(scal) < 12:
            return scal
        head = st.copy()
        self.havoc(head, mods, entry)
        s = mk_solver(RL_GROUND[0])
        fast_add(s, head.ground)
        fs = []
        for c in scal:
            try:
                f = conc(c[1](head))
            except KeyError:
                continue
            if f is not True:
                fs.append((c, zb(f)))
        fs.sort(key=lambda x: 0 if z3.is_eq(x[1]) else 1)
        keep = []
        t = time.time()
        for c, f in fs:
            s.push()
            s.add(z3.Not(f))
            r = s.check()
            STATS.queries += 1
            s.pop()
            if r != z3.unsat:
                keep.append(c)
                s.add(f)
        # second pass: later (stronger) facts may subsume earlier ones
        STATS.time += time.time() - t
        return keep

    def at_back_edge(self, st, c, sink):
        if c.sink is not None:
            c.sink(st)
            return
        if not c.cands:
            return
        scal, quant = c.cands
        for q in quant:
            self.check(st, q[1](st), "loop-invariant-preserved:" + q[0], assume=False)
        if scal:
            self.check(st, And([q[1](st) for q in scal]), "loop-invariant-preserved:scalars", assume=False)

    def written(self, hs, found, mods):
        """{array: [(oid, value or None)]} loop-invariant object ids written by the body (syntactic)"""
        hv = set()
        for m in mods:
            if m[0] == "f" and isz(hs.fam.get(m[1])):
                free_consts(hs.fam[m[1]], hv)
            elif m[0] == "g" and isz(hs.gh.get(m[1])):
                free_consts(hs.gh[m[1]], hv)
            elif m[0] == "m" and m[1] in hs.mem and m[2] in hs.mem[m[1]]:
                v = hs.mem[m[1]][m[2]][1]
                for x in ([v] if isz(v) else [v.oid, v.idx] if isinstance(v, FPtr) else []):
                    if isz(x):
                        free_consts(x, hv)
        out = {}
        self.varying = set()
        self.opaque = set()
        for m in mods:
            if m[0] != "f":
                continue
            lst = []
            for s in found:
                e = s.fam[m[1]]
                n = 0
                while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE and n < 50:
                    n += 1
                    o = e.arg(1)
                    w = None
                    r = e.arg(2)
                    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_STORE:
                        w = r.arg(2)
                        if free_consts(w) & hv:
                            w = None
                    elif not z3.is_array(r):
                        w = r if not (free_consts(r) & hv) else None
                    if not (free_consts(o) & hv) and all(not (o.eq(q) and (w is None or (v is not None and v.eq(w))))
                                                         for q, v in lst):
                        lst.append((o, w))
                    if free_consts(o) & hv:
                        self.varying.add(m[1])
                    e = e.arg(0)
                if not (z3.is_app(e) and e.eq(hs.fam[m[1]])):
                    self.varying.add(m[1])
                    self.opaque.add(m[1])
            out[m[1]] = lst
        return out

    def diff(self, a, b, entry):
        """locations of `entry` objects changed between two states"""
        out = set()
        for o, ca in a.mem.items():
            cb = b.mem.get(o)
            if cb is None:
                continue
            for off in set(ca) | set(cb):
                x, y = ca.get(off), cb.get(off)
                if not same_cell(x, y):
                    out.add(("m", o, off))
                    if self.opts.get("elemlive"):
                        ex, ey = (q[1] if q is not None and isinstance(q[1], Elem) else None for q in (x, y))
                        if (ex is not None or ey is not None) and not same_val(ex.live if ex else False, ey.live if ey else False):
                            out.add(("l", o, off))
        for k in set(a.fam) | set(b.fam):
            x, y = a.fam.get(k), b.fam.get(k)
            if x is not y and not (x is not None and y is not None and x.eq(y)):
                out.add(("f", k))
        for k in set(a.gh) | set(b.gh):
            x, y = a.gh.get(k), b.gh.get(k)
            if not same_val(x, y):
                out.add(("g", k))
        return out

    def havoc(self, st, mods, entry):
        for m in sorted(mods, key=lambda q: (q[0], str(q[1:]), getattr(q[1], "id", 0))):
            if m[0] == "m":
                c = st.mem.get(m[1])
                if c is None:
                    continue
                v = c.get(m[2])
                if v is None:
                    continue
                c[m[2]] = (v[0], self.havoc_val(st, v[1], v[0]))
                if c[m[2]][1] is None:
                    del c[m[2]]
            elif m[0] == "l":
                pass
            elif m[0] == "f":
                a = st.fam[m[1]]
                st.fam[m[1]] = fresh(m[1], a.sort())
            elif m[0] == "g":
                v = st.gh.get(m[1])
                st.gh[m[1]] = self.havoc_val(st, v, 8)
        for m in sorted((q for q in mods if q[0] == "l"), key=lambda q: (q[1].id, q[2])):
            c = st.mem.get(m[1])
            if c is not None:
                self.clear_cells(c, m[2], self.opts.get("elemsize", 24))
                c[m[2]] = (self.opts.get("elemsize", 24), Elem(fresh("hl", B), fresh("hv")))
        # properties of the allocator: numbers only grow, allocated objects are below the counter
        for n in self.fams:
            if ("f", n + ".alloc") in mods or ("g", n + ".ctr") in mods:
                self.alloc_axiom(st, n)
                if entry is not None:
                    st.assume(le(entry.gh[n + ".ctr"], st.gh[n + ".ctr"]))

    def havoc_val(self, st, v, sz):
        if isinstance(v, FPtr):
            if v.fam is None:
                return v
            return FPtr(v.fam, fresh("hp"), fresh("hx"), v.off)
        if isinstance(v, Elem):
            return Elem(v.live, fresh("hv"))
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return fresh("hb", B)
        if isc(v) or (isz(v) and z3.is_int(v)):
            if self._boolish(v) and sz == 1:
                return self.to_int(fresh("hb", B))
            x = fresh("h")
            lim = 1 << (8 * sz - 1)
            st.assume(z3.And(x >= -lim, x < lim))
            return x
        if isz(v):
            return fresh("h", v.sort())
        if isinstance(v, (Ptr, FnPtr)):
            raise Unsupported("loop changes a pointer to a local object")
        if v is None:
            return None
        h = getattr(v, "havoc", None)
        if h:
            return h(self, st)
        raise Unsupported("havoc of %r" % (v,))

    # scalar candidate generation --------------------------------
    def scalar_cands(self, st, info):
        xs = info.scalars()
        ts = info.terms(st)
        out = []

        def mk(n, f):
            out.append((n, f))

        for (nx, gx, x0) in xs:
            mk("%s==entry" % nx, lambda s, g=gx, c=x0: eq(g(s), c))
            for d in (0,):
                mk("%s>=entry" % nx, lambda s, g=gx, c=x0: le(c, g(s)))
                mk("%s<=entry" % nx, lambda s, g=gx, c=x0: le(g(s), c))
            for (nt, gt) in ts:
                for d in (-1, 0, 1):
                    mk("%s<=%s%+d" % (nx, nt, d), lambda s, g=gx, t=gt, d=d: le(g(s), add(t(s), d)))
                    mk("%s>=%s%+d" % (nx, nt, d), lambda s, g=gx, t=gt, d=d: le(add(t(s), d), g(s)))
        for i, (nx, gx, x0) in enumerate(xs):
            for (ny, gy, y0) in xs[i + 1:]:
                mk("%s-%s" % (nx, ny), lambda s, g=gx, h=gy, a=x0, b=y0: eq(sub(g(s), h(s)), sub(a, b)))
                mk("%s+%s" % (nx, ny), lambda s, g=gx, h=gy, a=x0, b=y0: eq(add(g(s), h(s)), add(a, b)))
                mk("%s<=%s" % (nx, ny), lambda s, g=gx, h=gy: le(g(s), h(s)))
                mk("%s>=%s" % (nx, ny), lambda s, g=gx, h=gy: le(h(s), g(s)))
                mk("%s<%s" % (nx, ny), lambda s, g=gx, h=gy: lt(g(s), h(s)))
                mk("%s>%s" % (nx, ny), lambda s, g=gx, h=gy: lt(h(s), g(s)))
        if self.extra_scalars:
            for c in self.extra_scalars(self, st, info):
                out.append(c)
        return out

    def prune_ground(self, st, cands, at, dead=None):
        """drop candidates not implied by the ground facts of st (model guided)"""
        live = []
        for c in cands:
            try:
                f = conc(c[1](at))
            except KeyError:
                continue
            if f is False:
                if dead is not None:
                    dead.add(c[0])
                continue
            live.append((c, f))
        s = mk_solver(RL_GROUND[0] * 4)
        fast_add(s, st.ground)
        while True:
            fs = [zb(f) for c, f in live if f is not True]
            if not fs:
                break
            s.push()
            s.add(z3.Not(z3.And(*fs)) if len(fs) > 1 else z3.Not(fs[0]))
            t = time.time()
            r = s.check()
            STATS.time += time.time() - t
            STATS.queries += 1
            if r == z3.unsat:
                break
            if r == z3.unknown:
                s.pop()
                keep = []
                for c, f in live:
                    if f is True or self.entails_ground(st, f):
                        keep.append((c, f))
                    elif dead is not None:
                        dead.add(c[0])
                live = keep
                break
            mdl = s.model()
            keep = []
            for c, f in live:
                if f is True:
                    keep.append((c, f))
                    continue
                v = mdl.eval(zb(f), model_completion=True)
                if z3.is_false(v):
                    if dead is not None:
                        dead.add(c[0])
                    continue
                keep.append((c, f))
            s.pop()
            if len(keep) == len(live):
                keep2 = []
                for c, f in live:
                    if f is True or self.entails_ground(st, f):
                        keep2.append((c, f))
                    elif dead is not None:
                        dead.add(c[0])
                live = keep2
                break
            live = keep
        return [c for c, f in live]


def assume_cand(st, c):
    """a candidate is (name, goal) or (name, goal, hypothesis-installer)"""
    if len(c) > 2:
        c[2](st)
    else:
        st.assume(c[1](st))


def free_consts(e, acc=None):
    acc = set() if acc is None else acc
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def is_val(v):
    return not isinstance(v, tuple)


def same_val(x, y):
    if x is y:
        return True
    if x is None or y is None:
        return False
    if isz(x) and isz(y):
        return x.eq(y)
    if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
        return x == y
    if isinstance(x, FPtr) and isinstance(y, FPtr):
        return x.fam == y.fam and x.off == y.off and same_val(x.oid, y.oid) and same_val(x.idx, y.idx)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.obj is y.obj and x.off == y.off
    if isinstance(x, FnPtr) and isinstance(y, FnPtr):
        return x.name == y.name
    if isinstance(x, Elem) and isinstance(y, Elem):
        return same_val(x.live, y.live) and (x.val is None and y.val is None or same_val(x.val, y.val))
    if isinstance(x, PInt) and isinstance(y, PInt):
        return same_val(x.p, y.p)
    sm = getattr(x, "same", None)
    if sm:
        return sm(y)
    return x == y if type(x) is type(y) else False


def same_cell(x, y):
    if x is None or y is None:
        return x is y
    return x[0] == y[0] and same_val(x[1], y[1])


class LoopInfo:
    """what a loop changes, handed to candidate generators"""

    def __init__(self, eng, entry, mods, st, header):
        self.eng = eng
        self.entry = entry
        self.mods = mods
        self.header = header
        self.fn = st.frames[-1].fn.name
        self.frame_objs = None
        self.st = st

    def _cell_name(self, o, off):
        return "%s.%d+%d" % (o.name, o.id, off)

    def scalars(self):
        """[(name, getter, entryvalue)] of modified integers (cells, pointer indices, ghost counters)"""
        out = []
        for m in sorted(self.mods, key=lambda q: (q[0], str(q[1:]))):
            if m[0] == "m":
                if m[1] not in self.entry.mem:
                    continue
                v = self.entry.mem[m[1]].get(m[2])
                if v is None:
                    continue
                x = v[1]
                o, off = m[1], m[2]
                if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
                    continue
                if isc(x) or (isz(x) and z3.is_int(x)):
                    if v[0] == 1:
                        continue
                    out.append((self._cell_name(o, off), lambda s, o=o, off=off: s.mem[o][off][1], x))
                elif isinstance(x, FPtr) and x.fam is not None and not x.fam.startswith("@"):
                    out.append((self._cell_name(o, off) + ".idx", lambda s, o=o, off=off: s.mem[o][off][1].idx, x.idx))
                    out.append((self._cell_name(o, off) + ".oid", lambda s, o=o, off=off: s.mem[o][off][1].oid, x.oid))
            elif m[0] == "g":
                x = self.entry.gh.get(m[1])
                if isc(x) or (isz(x) and z3.is_int(x)):
                    out.append((m[1], lambda s, k=m[1]: s.gh[k], x))
        return out

    def step(self, getter):
        """+1/-1 if every iteration changes the counter by that much, else None"""
        try:
            a = getter(self.hs)
            r = None
            for s in self.found:
                d = conc(z3.simplify(zi(sub(getter(s), a))))
                if not isc(d):
                    d = next((k for k in (1, -1) if self.eng.entails_ground(s, eq(sub(getter(s), a), k))), None)
                if d not in (1, -1) or (r is not None and r != d):
                    return None
                r = d
            return r
        except (KeyError, AttributeError):
            return None

    def terms(self, st):
        """unmodified integer terms for bounds"""
        out = [("0", lambda s: 0)]
        bs = self.eng.opts.get("consts", ())
        for c in bs:
            out.append((str(c), lambda s, c=c: c))
        seen = set()
        for o, cells in self.entry.mem.items():
            if o.kind == "global":
                continue
            if o.kind == "alloca" and not self.recent(o):
                continue
            for off, (sz, v) in cells.items():
                if ("m", o, off) in self.mods or sz == 1:
                    continue
                vs = []
                if (isz(v) and z3.is_int(v)):
                    vs = [v]
                elif isinstance(v, FPtr) and isz(v.idx):
                    vs = [v.idx]
                for x in vs:
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    out.append((self._cell_name(o, off), lambda s, x=x: x))
        for (n, g, x0) in self.scalars():
            if n.endswith(".oid"):
                continue
            if isz(x0) and x0.get_id() not in seen:
                seen.add(x0.get_id())
                out.append(("entry:" + n, lambda s, x=x0: x))
        return out[:40]

    def recent(self, o):
        """only allocas of the innermost frames"""
        if self.frame_objs is None:
            self.frame_objs = set()
            for fr in self.st.frames[-3:]:
                for v in fr.regs.values():
                    if isinstance(v, Ptr):
                        self.frame_objs.add(v.obj)
        return o in self.frame_objs
