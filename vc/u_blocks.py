"""Units: StableBlockVector, StableBlockDeque, BlockIterator."""
import re
from blocks import *
from units import *
from block_loops import BlockLoops

SEQ = ("seq",)
STAB = ("stab",)
LIFE = ("life",)
COPY = ("copy",)
ITER = ("iter",)


def contract_handlers(c):
    """contracts of the element operations, used where another operation of the same class calls them

    Each contract is the one proved by the unit of the same name: precondition
    invariant (and a live argument), postcondition invariant, frame,
    accounting, element relation."""
    sp = None

    def apply(eng, st, o, unit, front, grow, val):
        sp = c.sp
        pre = st.snap()
        if not sp.inv_known(st, o):
            for n, f in sp.inv_goal(st, o, pre, [o.tag]):
                eng.check(st, f, "precondition-of-%s:%s" % (unit, n))
            sp.install(st, pre, [o])
            pre = st.snap()
        else:
            eng.check(st, True, "precondition-of-%s:invariant" % unit)
        eng.contracts_used.add("%s.%s" % (c.kind, unit))
        cells = st.mem[o]
        for off in list(cells):
            cells[off] = (cells[off][0], eng.havoc_val(st, cells[off][1], cells[off][0]))
            if isinstance(cells[off][1], FPtr):
                cells[off] = (8, FPtr("slots", cells[off][1].oid))
        for k in ("slots.p", "slots.alloc", "slots.size", "blk.alloc", "blk.size", "blk.e.live", "blk.e.val"):
            st.fam[k] = fresh(k, st.fam[k].sort())
        for k in ("slots.ctr", "slots.n", "blk.ctr", "blk.n"):
            st.gh[k] = fresh(k)
        for n in ("slots", "blk"):
            eng.alloc_axiom(st, n)
            st.assume(le(pre.gh[n + ".ctr"], st.gh[n + ".ctr"]))
        sp.install(st, pre, [o])
        for n, f in sp.frame(st, pre, [o.tag]) + sp.counts(st, pre, [o], [o]):
            st.assume(f)
        a, b = sp.view(pre, o), sp.view(st, o)
        if grow:
            st.assume(eq(b.n, add(a.n, 1)))
        else:
            st.assume(eq(b.n, If(eq(a.n, 0), 0, sub(a.n, 1))))
        if front:
            for n, f, t in sp.posrel(a, b, 1 if grow else -1, hyp=True):
                st.assume(f)
        else:
            for n, f, t in sp.aligned(a, b):
                st.assume(f)
        if grow:
            i, j = fresh("i"), fresh("j")
            at = 0 if front else a.n
            st.assume(forall([i, j], Implies(And(b.inr(i, j), eq(b.p(i, j), at)), b.v(i, j) == zi(val)), [b.v(i, j)]))

    def target(st, p):
        if not isinstance(p, Ptr) or p.off != 0 or p.obj not in c.objs:
            return None
        return p.obj

    def push(front, how):
        def h(eng, st, fn, a, ins):
            o = target(st, a[0])
            if o is None:
                return "inline"
            unit = "push_" + ("front" if front else "back")
            if how == "none":
                val = fresh("defval") if eng.opts.get("defval") is None else eng.opts["defval"]
            else:
                s = eng.elem_loc(st, a[1], "element-source")
                se = eng.elem_get(st, s)
                eng.check(st, se.live, "source-element-alive-at-" + unit)
                val = se.val
                if how == "move":
                    unit += "_move"
                    eng.elem_set(st, s, Elem(True, fresh("moved")), False)
            apply(eng, st, o, unit, front, True, val)
            return None
        return h

    def pop(front):
        def h(eng, st, fn, a, ins):
            o = target(st, a[0])
            if o is None:
                return "inline"
            apply(eng, st, o, "pop_" + ("front" if front else "back"), front, False, None)
            return None
        return h
    def bounds(which, const):
        def h(eng, st, fn, a, ins):
            # sret: result storage, then the container
            if len(a) != 2 or not isinstance(a[0], Ptr):
                return "inline"
            o = target(st, a[1])
            if o is None or not c.sp.inv_known(st, o):
                return "inline"
            w = c.sp.view(st, o)
            out = []
            z = conc(eq(w.D, 0))
            if z is not False and eng.feasible(st, z):
                s2 = st.copy()
                s2.assume(z)
                out.append((s2, ("enter", fn, a)))
                st.assume(Not(z))
                if not eng.feasible(st):
                    return ("fork", out)
            eng.contracts_used.add("%s.iter_%s%s" % (c.kind, "c" if const else "", which))
            eng.check(st, True, "precondition-of-%s:invariant" % which)
            vi, off = fresh(which + ".slot"), fresh(which + ".off")
            st.assume(And(le(0, off), lt(off, c.bs), eq(w.p(vi, off), 0 if which == "begin" else w.n)))
            r, b = a[0].obj, a[0].off
            eng.clear_cells(st.mem[r], b, 24)
            st.mem[r][b] = (8, FPtr("slots", w.D, vi))
            st.mem[r][b + 8] = (8, FPtr("blk", w.blk(vi), off))
            st.mem[r][b + 16] = (4, off)
            out.append((st, None))
            return ("fork", out) if len(out) > 1 else None
        return h
    out = []
    base = r"^(void )?gmlc::containers::StableBlock(Vector|Deque)<.*>::"
    for sd in ("back", "front"):
        fr = sd == "front"
        out.append((rx(base + r"(push|emplace)_%s(<Elem const&>)?\(Elem const&\)$" % sd), push(fr, "copy")))
        out.append((rx(base + r"(push|emplace)_%s(<Elem>)?\(Elem&&\)$" % sd), push(fr, "move")))
        out.append((rx(base + r"emplace_%s<>\(\)$" % sd), push(fr, "none")))
        for q in ("", " const"):
            for w in ("begin", "end"):
                out.append((rx(base + r"%s\(\)%s$" % (w, q)), bounds(w, bool(q))))
        out.append((rx(base + r"pop_%s\(\)$" % sd), pop(fr)))
    return out


class Ctx:
    def __init__(self, kind, N, built, name, deadline, objs=(), opts=None):
        self.sp = BlockSpec(kind, N, built.layouts)
        self.bs = self.sp.bs
        self.kind = kind
        self.eng = new_engine(built, [SLOTS, BLK, SRC], intercepts(), name, dict(opts or {}), deadline)
        self.eng.opts.setdefault("consts", (self.bs,))
        self.eng.tags = ("core",)
        self.eng.assumptions.add("fewer than 2^29 block slots per container (int slot arithmetic)")
        self.eng.assumptions.add("element operations and allocation do not throw")
        self.st = State()
        self.eng.fam_init(self.st)
        ghosts(self.st)
        self.objs = []
        self.tags = []
        self.src = None
        self.initval = None
        self.srcseq = None
        self.loops = BlockLoops(self)
        self.eng.loopcands = self.loops.cands
        self.eng.extra_scalars = self.loops.scalars

    def container(self, name, tag):
        o = self.sp.sym(self.eng, self.st, name, tag)
        self.st.assume(self.sp.inv_hyp(self.st, o))
        self.objs.append(o)
        self.tags.append(tag)
        return o

    def raw(self, name, tag):
        o = self.sp.raw(self.st, name, tag)
        self.objs.append(o)
        self.tags.append(tag)
        return o

    def elem(self, name="arg"):
        e = Obj(name, 24)
        v = fresh(name)
        self.st.mem[e] = {0: (24, Elem(True, v))}
        return e, v

    def size_arg(self, name="n", lim=None):
        n = fresh(name)
        self.st.assume(n >= 0)
        if lim:
            self.st.assume(n < lim)
        return n

    def sequence_of(self, o):
        """the sequence of values of o at this point, as a function of the position"""
        v = self.sp.view(self.st, o)
        q = fresh_fn("seq", I, I)
        i, j = fresh("i"), fresh("j")
        self.st.assume(forall([i, j], Implies(v.inr(i, j), v.v(i, j) == q(zi(v.p(i, j)))), [v.v(i, j)]))
        self.srcseq = q
        return q

    def modular(self):
        """calls of element operations are replaced by their contracts (each proved by a unit of its own)"""
        self.eng.intercepts[:0] = contract_handlers(self)

    def go(self, fn, args, post, throws=False):
        self.pre = self.st.snap()
        self.fn = fn
        return drive(self.eng, self.st, fn, args, post, throws)

    # ---- standard postconditions
    def std(self, s, live_pre, live_post, tags=None, inv=True):
        """invariant, frame and accounting"""
        sp, pre = self.sp, self.pre
        tags = tags or self.tags
        g = []
        if inv:
            for o in live_post:
                if o.tag in tags:
                    g += [(n, f, ("core",)) for n, f in sp.inv_goal(s, o, pre, tags)]
        g += [(n, f, ("core",)) for n, f in sp.frame(s, pre, tags)]
        g += [(n, f, ("core",)) for n, f in sp.counts(s, pre, live_pre, live_post)]
        if len(live_post) > 1:
            g += [(n, f, ("core",)) for n, f in sp.disjoint(s, live_post)]
        return g

    def same_cells(self, s, o):
        a, b = self.pre.mem[o], s.mem[o]
        fs = []
        for k in a:
            fs.append(self.val_eq(a[k][1], b[k][1] if k in b else None))
        return And(fs)

    @staticmethod
    def val_eq(x, y):
        if y is None:
            return False
        if isinstance(x, FPtr) or isinstance(y, FPtr):
            return eq(x.oid, y.oid) if isinstance(x, FPtr) and isinstance(y, FPtr) else False
        return eq(x, y)

    def nothing_changed(self, s, objs, tag=("core",)):
        g = []
        for o in objs:
            g.append(("container-unchanged(%s)" % o.name, self.same_cells(s, o), tag))
        for k in sorted(self.pre.fam):
            if k.startswith(("blk.", "slots.", "src.")):
                a, b = self.pre.fam[k], s.fam[k]
                if not a.eq(b):
                    o = fresh("o")
                    g.append(("memory-unchanged(%s)" % k, forall([o], sel(b, o) == sel(a, o)), tag))
        for k in sorted(self.pre.gh):
            g.append(("nothing-allocated-or-freed(%s)" % k, eq(self.pre.gh[k], s.gh[k]), tag))
        return g

    def all_values(self, v, fn, lo=0, hi=None):
        """every element at position p in [lo,hi) equals fn(p)"""
        i, j = fresh("i"), fresh("j")
        return forall([i, j], Implies(And(v.inr(i, j), le(lo, v.p(i, j)), True if hi is None else lt(v.p(i, j), hi)),
                                      eq(v.v(i, j), fn(v.p(i, j)))))

    def same_sequence(self, a, b):
        """values of a at every position equal those of b"""
        i, j, i0, j0 = (fresh(x) for x in ("i", "j", "i0", "j0"))
        return forall([i, j, i0, j0], Implies(And(a.inr(i, j), b.inr(i0, j0), eq(a.p(i, j), b.p(i0, j0))),
                                              eq(a.v(i, j), b.v(i0, j0))))


def mk(kind, name, props, body, desc="", throws=False):
    def run(built, variant, deadline):
        c = Ctx(kind, variant, built, "%s::%s" % (kind, name), deadline)
        body(c)
        return c.eng
    u = Unit("%s.%s" % (kind, name), props, kind, (0, 1, 2, 3, 5), run, desc, quick=(0, 2))
    u.cost = 9 if name in ("assign_copy", "assign_move", "clear") else 7 if "dtor" in name or "assign" in name else 1
    return u


# ----------------------------------------------------------------- bodies
def u_ctor_default(c):
    o = c.raw("this", 1)

    def post(k, s, v):
        w = c.sp.view(s, o)
        return c.std(s, [], [o]) + [("starts-empty", eq(w.n, 0), SEQ)]
    c.go("vc_ctor_default", [Ptr(o)], post)


def u_ctor_size(c, dflt=False):
    o = c.raw("this", 1)
    n = c.size_arg("startSize", c.bs * 2 ** 28)
    if dflt:
        val = fresh("defval")
        c.eng.opts["defval"] = val
        args, fn = [Ptr(o), n], "vc_ctor_size_default"
    else:
        e, val = c.elem("init")
        args, fn = [Ptr(o), n, Ptr(e)], "vc_ctor_size"
    c.initval = val
    c.nterm = n

    def post(k, s, v):
        w = c.sp.view(s, o)
        return c.std(s, [], [o]) + [("has-the-requested-size", eq(w.n, n), SEQ),
                                    ("every-element-is-a-copy-of-init", c.all_values(w, lambda p: val), SEQ)]
    c.go(fn, args, post)


def u_ctor_copy(c):
    o = c.raw("this", 1)
    c.modular()
    p = c.container("other", 2)
    seq = c.sequence_of(p)

    def post(k, s, v):
        w, q, q0 = c.sp.view(s, o), c.sp.view(s, p), c.sp.view(c.pre, p)
        return c.std(s, [p], [o, p], [1]) + [("source-unchanged", c.same_cells(s, p), COPY),
                                             ("copy-has-the-same-size", eq(w.n, q0.n), COPY),
                                             ("copy-has-the-same-values", c.all_values(w, lambda x: seq(zi(x))), COPY)]
    c.go("vc_ctor_copy", [Ptr(o), Ptr(p)], post)


def count_limit(c, o):
    if c.kind == "sbd":
        c.st.assume(lt(c.sp.view(c.st, o).n, 2 ** 31))
        c.eng.assumptions.add("fewer than 2^31 elements in a deque that is assigned to (int count of extra elements)")


def u_assign_copy(c):
    o = c.container("this", 1)
    count_limit(c, o)
    c.modular()
    p = c.container("other", 2)
    seq = c.sequence_of(p)

    def post(k, s, v):
        w, q0 = c.sp.view(s, o), c.sp.view(c.pre, p)
        return c.std(s, [o, p], [o, p], [1]) + [("source-unchanged", c.same_cells(s, p), COPY),
                                                ("copy-has-the-same-size", eq(w.n, q0.n), COPY),
                                                ("copy-has-the-same-values", c.all_values(w, lambda x: seq(zi(x))), COPY)]
    c.go("vc_assign_copy", [Ptr(o), Ptr(p)], post)


def u_assign_self(c):
    o = c.container("this", 1)
    c.modular()
    seq = c.sequence_of(o)

    def post(k, s, v):
        w, q0 = c.sp.view(s, o), c.sp.view(c.pre, o)
        return c.std(s, [o], [o]) + [("self-assignment-keeps-size", eq(w.n, q0.n), COPY),
                                     ("self-assignment-keeps-values", c.all_values(w, lambda x: seq(zi(x))), COPY)]
    c.go("vc_assign_copy", [Ptr(o), Ptr(o)], post)


def moved(c, s, o, p):
    w, q, q0 = c.sp.view(s, o), c.sp.view(s, p), c.sp.view(c.pre, p)
    g = [("moved-to-has-the-source-size", eq(w.n, q0.n), COPY),
         ("moved-from-is-empty", eq(q.n, 0), COPY)]
    g += [("moved-" + n, f, COPY) for n, f, _ in c.sp.posrel(q0, w, 0)]
    return g


def u_ctor_move(c):
    o = c.raw("this", 1)
    p = c.container("other", 2)

    def post(k, s, v):
        return c.std(s, [p], [o, p]) + moved(c, s, o, p)
    c.go("vc_ctor_move", [Ptr(o), Ptr(p)], post)


def u_assign_move(c):
    o = c.container("this", 1)
    p = c.container("other", 2)

    def post(k, s, v):
        return c.std(s, [o, p], [o, p]) + moved(c, s, o, p)
    c.go("vc_assign_move", [Ptr(o), Ptr(p)], post)


def u_assign_move_self(c):
    o = c.container("this", 1)
    c.go("vc_assign_move", [Ptr(o), Ptr(o)], lambda k, s, v: c.std(s, [o], [o]))


def u_dtor(c):
    o = c.container("this", 1)
    c.go("vc_dtor", [Ptr(o)], lambda k, s, v: c.std(s, [o], [], inv=False))


def u_push(c, fn, how, front=False, alias=False):
    o = c.container("this", 1)
    args = [Ptr(o)]
    v0 = c.sp.view(c.st, o)
    if how == "none":
        val = fresh("defval")
        c.eng.opts["defval"] = val
    elif alias:
        i, j = fresh("ai"), fresh("aj")
        c.st.assume(And(Not(eq(v0.D, 0)), v0.inr(i, j), v0.used(i)))
        c.st.assume(sel(v0.live, v0.blk(i), j))
        val = v0.v(i, j)
        args.append(FPtr("blk", v0.blk(i), j, 0))
    else:
        e, val = c.elem()
        args.append(Ptr(e))

    def post(k, s, r):
        a, b = c.sp.view(c.pre, o), c.sp.view(s, o)
        at = 0 if front else a.n
        g = c.std(s, [o], [o])
        g.append(("size-grows-by-one", eq(b.n, add(a.n, 1)), SEQ))
        g += [(n, f, t if how != "move" or not alias else t) for n, f, t in c.sp.posrel(a, b, 1 if front else 0)]
        g.append(("new-element-has-the-value", c.all_values(b, lambda p: val, at, add(at, 1)), SEQ))
        if not front:
            g += c.sp.aligned(a, b)
        return [(x[0], x[1], (x[2],) if isinstance(x[2], str) else x[2]) for x in g]
    c.go(fn, args, post)


def u_pop(c, fn, front=False):
    o = c.container("this", 1)

    def post(k, s, r):
        a, b = c.sp.view(c.pre, o), c.sp.view(s, o)
        g = c.std(s, [o], [o])
        g.append(("size-shrinks-by-one", eq(b.n, If(eq(a.n, 0), 0, sub(a.n, 1))), SEQ))
        g += [(n, f, t) for n, f, t in c.sp.posrel(a, b, -1 if front else 0)]
        if not front:
            g += c.sp.aligned(a, b)
        return [(x[0], x[1], (x[2],) if isinstance(x[2], str) else x[2]) for x in g]
    c.go(fn, [Ptr(o)], post)


def u_assign_range(c, fn, move):
    o = c.container("this", 1)
    c.modular()
    st = c.st
    so, k0, m = fresh("so"), fresh("k0"), fresh("m")
    st.assume(And(m >= 0, m < 2 ** 31, k0 >= 0, so >= 1))
    c.eng.assumptions.add("the source range of assign lies outside the container and holds live elements")
    st.assume(And(sel(st.fam["src.alloc"], so), le(add(k0, m), sel(st.fam["src.size"], so))))
    k = fresh("k")
    lv = st.fam["src.e.live"]
    st.assume(forall([k], Implies(And(k0 <= k, k < k0 + m), sel(lv, so, k)), [sel(lv, so, k)]))
    c.src = (so, k0, m)
    count_limit(c, o)

    def post(kk, s, r):
        a, b = c.sp.view(c.pre, o), c.sp.view(s, o)
        sv = c.pre.fam["src.e.val"]
        g = c.std(s, [o], [o])
        g.append(("has-the-range-length", eq(b.n, m), SEQ))
        g.append(("has-the-range-values", c.all_values(b, lambda p: sel(sv, so, add(p, k0))), SEQ))
        al = c.sp.aligned(a, b)
        g.append(("kept-elements-keep-their-position", al[0][1], STAB))
        g.append(("kept-elements-keep-their-address", al[1][1], STAB))
        if not move:
            q = fresh("q")
            g.append(("source-range-unchanged", forall([q], sel(s.fam["src.e.val"], q) == sel(sv, q))
                      if not sv.eq(s.fam["src.e.val"]) else True, SEQ))
        return g
    c.go(fn, [Ptr(o), FPtr("src", so, k0), FPtr("src", so, add(k0, m))], post)


def u_clear(c):
    o = c.container("this", 1)

    def post(k, s, v):
        w = c.sp.view(s, o)
        return c.std(s, [o], [o]) + [("empty-after-clear", eq(w.n, 0), SEQ)]
    c.go("vc_clear", [Ptr(o)], post)


def u_shrink(c):
    o = c.container("this", 1)

    def post(k, s, v):
        a, b = c.sp.view(c.pre, o), c.sp.view(s, o)
        g = c.std(s, [o], [o]) + [("size-unchanged", eq(a.n, b.n), SEQ)]
        g += [(n, f, (t,)) for n, f, t in c.sp.posrel(a, b, 0)]
        return g
    c.go("vc_shrink", [Ptr(o)], post)


def elem_at(c, s, o, r, n):
    """r points at the element in position n"""
    w = c.sp.view(s, o)
    if not isinstance(r, FPtr) or r.fam != "blk":
        return False
    i = s.kv["pos"](zi(r.oid))
    return And(r.off == 0, w.used(i), eq(w.blk(i), r.oid), w.inr(i, r.idx), eq(w.p(i, r.idx), n))


def u_access(c, fn, which):
    o = c.container("this", 1)
    w = c.sp.view(c.st, o)
    args = [Ptr(o)]
    if which in ("index", "at"):
        n = fresh("n")
        if which == "index":
            c.st.assume(And(n >= 0, lt(n, w.n)))
        else:
            c.st.assume(And(n >= -2 ** 63, n < 2 ** 63))
        args.append(n)
    else:
        c.st.assume(lt(0, w.n))
        n = 0 if which == "front" else sub(w.n, 1)

    def post(k, s, r):
        g = c.nothing_changed(s, [o])
        inside = And(le(0, n), lt(n, w.n))
        if k == "throw":
            g.append(("throws-only-out-of-range", Not(inside), SEQ))
            g.append(("throws-out_of_range", "out_of_range" in str(r), SEQ))
        else:
            g.append(("returns-only-in-range", inside, SEQ))
            g.append(("is-the-element-at-the-position", elem_at(c, s, o, r, n), SEQ))
        return g
    c.go(fn, args, post, throws=(which == "at"))


def u_query(c, fn, what):
    o = c.container("this", 1)
    w = c.sp.view(c.st, o)

    def post(k, s, r):
        exp = w.n if what == "size" else eq(w.n, 0)
        if what == "empty":
            r = c.eng.as_bool(r) if not isinstance(r, bool) and not (isz(r) and z3.is_bool(r)) else r
        return c.nothing_changed(s, [o]) + [("reports-" + what, eq(r, exp), SEQ)]
    c.go(fn, [Ptr(o)], post)


# ---- iterators
IOFF = {"vec": 0, "ptr": 8, "offset": 16}


def it_fields(s, it):
    c = s.mem[it]
    return c[0][1], c[8][1], c[16][1]


def it_valid(c, s, o, it, pos):
    """iterator it of container o stands at position pos"""
    w = c.sp.view(s, o)
    try:
        vec, ptr, off = it_fields(s, it)
    except KeyError:
        return [("iterator-initialised", False)]
    if not isinstance(vec, FPtr) or not isinstance(ptr, FPtr):
        return [("iterator-into-the-table", False)]
    return [("iterator-in-this-table", eq(vec.oid, w.D)),
            ("iterator-offset-in-block", And(le(0, off), lt(off, c.bs))),
            ("iterator-position", eq(w.p(vec.idx, off), pos)),
            ("iterator-pointer", And(eq(ptr.oid, w.blk(vec.idx)), eq(ptr.idx, off), ptr.off == 0))]


def it_sym(c, o, name, pos):
    w = c.sp.view(c.st, o)
    it = Obj(name, 24, "it")
    vi, off = fresh(name + ".slot"), fresh(name + ".off")
    c.st.assume(And(Not(eq(w.D, 0)), le(0, off), lt(off, c.bs), eq(w.p(vi, off), pos), le(0, pos), le(pos, w.n)))
    c.st.mem[it] = {0: (8, FPtr("slots", w.D, vi)), 8: (8, FPtr("blk", w.blk(vi), off)), 16: (4, off)}
    return it


def u_bounds(c, fn, which):
    o = c.container("this", 1)
    it = Obj("result", 24, "it")
    c.st.mem[it] = {}

    def post(k, s, r):
        w = c.sp.view(s, o)
        g = c.nothing_changed(s, [o])
        if isinstance(s.mem[it].get(0, (0, None))[1], Ptr):
            # the shared placeholder of a container without table
            g.append(("placeholder-only-without-table", eq(w.D, 0), ITER))
            g.append(("placeholder-offset", eq(s.mem[it][16][1], 0), ITER))
        else:
            g.append(("table-present", Not(eq(w.D, 0)), ITER))
            g += [(n, f, ITER) for n, f in it_valid(c, s, o, it, 0 if which == "begin" else w.n)]
        return g
    c.go(fn, [Ptr(o), Ptr(it)], post)


def u_it_step(c, fn, delta, ret=None):
    """delta(m) positions; ret: what the function returns: None/'old'/'new' copy written to 3rd argument"""
    o = c.container("this", 1)
    w = c.sp.view(c.st, o)
    pos = fresh("pos")
    it = it_sym(c, o, "it", pos)
    args = [Ptr(it)]
    m = 1
    if "m" in delta:
        m = fresh("m")
        c.st.assume(And(m > -2 ** 30, m < 2 ** 30))
        c.eng.assumptions.add("iterator jumps by less than 2^30 positions, either way, within the container")
        args.append(m)
    new = add(pos, m) if delta[0] == "+" else sub(pos, m)
    c.st.assume(And(le(0, new), le(new, w.n)))
    out = None
    if ret:
        out = Obj("result", 24, "it")
        c.st.mem[out] = {}
        args.append(Ptr(out))

    def post(k, s, r):
        g = c.nothing_changed(s, [o])
        self_moves = ret != "copy"
        g += [("self:" + n, f, ITER) for n, f in it_valid(c, s, o, it, new if self_moves else pos)]
        if ret:
            g += [("result:" + n, f, ITER) for n, f in it_valid(c, s, o, out, {"old": pos, "new": new, "copy": new}[ret])]
        return g
    c.go(fn, args, post)


def u_it_cmp(c, fn, equal):
    o = c.container("this", 1)
    p1, p2 = fresh("p1"), fresh("p2")
    a, b = it_sym(c, o, "a", p1), it_sym(c, o, "b", p2)

    def post(k, s, r):
        r = r if isinstance(r, bool) or (isz(r) and z3.is_bool(r)) else c.eng.as_bool(r)
        want = eq(p1, p2) if equal else Not(eq(p1, p2))
        return c.nothing_changed(s, [o]) + [("comparison-is-by-position", eq(r, want), ITER)]
    c.go(fn, [Ptr(a), Ptr(b)], post)


def u_it_deref(c, fn):
    o = c.container("this", 1)
    w = c.sp.view(c.st, o)
    p1 = fresh("p1")
    a = it_sym(c, o, "a", p1)
    c.st.assume(lt(p1, w.n))
    c.st.assume(w.used(c.st.mem[a][0][1].idx))

    def post(k, s, r):
        return c.nothing_changed(s, [o]) + [("refers-to-its-element", elem_at(c, s, o, r, p1), ITER)]
    c.go(fn, [Ptr(a)], post)


def units():
    U = []
    for kind, SQ, ST in (("sbv", "C06", "C07"), ("sbd", "C08", "C09")):
        mut = (SQ, ST, "C10", "C11")

        def a(name, props, body, kind=kind):
            U.append(mk(kind, name, props, body))
        a("ctor_default", mut, u_ctor_default)
        a("ctor_size", mut, u_ctor_size)
        a("ctor_size_default", (SQ, ST), lambda c: u_ctor_size(c, True))
        a("ctor_copy", mut, u_ctor_copy)
        a("ctor_move", mut, u_ctor_move)
        a("assign_copy", mut, u_assign_copy)
        a("assign_self", ("C11",), u_assign_self)
        a("assign_move", mut, u_assign_move)
        a("assign_move_self", (ST, "C11"), u_assign_move_self)
        a("dtor", (ST, "C11"), u_dtor)
        sides = ("back",) if kind == "sbv" else ("back", "front")
        for sd in sides:
            fr = sd == "front"
            a("push_" + sd, mut, lambda c, f="vc_push_" + sd, fr=fr: u_push(c, f, "copy", fr))
            a("push_%s_move" % sd, mut, lambda c, f="vc_push_%s_move" % sd, fr=fr: u_push(c, f, "move", fr))
            a("push_%s_own_element" % sd, (SQ, ST), lambda c, f="vc_push_" + sd, fr=fr: u_push(c, f, "copy", fr, True))
            a("emplace_" + sd, mut, lambda c, f="vc_emplace_" + sd, fr=fr: u_push(c, f, "copy", fr))
            a("emplace_%s_move" % sd, (SQ, ST), lambda c, f="vc_emplace_%s_move" % sd, fr=fr: u_push(c, f, "move", fr))
            a("emplace_%s_none" % sd, (SQ, ST), lambda c, f="vc_emplace_%s_none" % sd, fr=fr: u_push(c, f, "none", fr))
            a("pop_" + sd, mut, lambda c, f="vc_pop_" + sd, fr=fr: u_pop(c, f, fr))
        a("assign_range", (SQ, ST, "C11"), lambda c: u_assign_range(c, "vc_assign_range", False))
        a("move_assign_range", (SQ, ST), lambda c: u_assign_range(c, "vc_move_assign_range", True))
        a("clear", mut, u_clear)
        a("shrink", mut, u_shrink)
        for n in ("back", "front", "index", "at"):
            for q in ("", "c"):
                a(q + n, (SQ, ST), lambda c, f="vc_" + q + n, n=n: u_access(c, f, n))
        a("size", (SQ,), lambda c: u_query(c, "vc_size", "size"))
        a("empty", (SQ,), lambda c: u_query(c, "vc_empty", "empty"))
        for n in ("begin", "end", "cbegin", "cend", "cbegin2", "cend2"):
            a("iter_" + n, ("C10", "C11") if n in ("cbegin", "cend") else ("C10",),
              lambda c, f="vc_" + n, n=n: u_bounds(c, f, "begin" if "begin" in n else "end"))
        for q in ("it", "cit"):
            a(q + "_preinc", ("C10", "C11"), lambda c, q=q: u_it_step(c, "vc_%s_preinc" % q, "+"))
            a(q + "_predec", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_predec" % q, "-"))
            a(q + "_postinc", ("C10", "C11"), lambda c, q=q: u_it_step(c, "vc_%s_postinc" % q, "+", "old"))
            a(q + "_postdec", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_postdec" % q, "-", "old"))
            a(q + "_addassign", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_addassign" % q, "+m"))
            a(q + "_subassign", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_subassign" % q, "-m"))
            a(q + "_plus", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_plus" % q, "+m", "copy"))
            a(q + "_minus", ("C10",), lambda c, q=q: u_it_step(c, "vc_%s_minus" % q, "-m", "copy"))
            a(q + "_eq", ("C10", "C11"), lambda c, q=q: u_it_cmp(c, "vc_%s_eq" % q, True))
            a(q + "_ne", ("C10", "C11"), lambda c, q=q: u_it_cmp(c, "vc_%s_ne" % q, False))
            a(q + "_deref", ("C10", "C11"), lambda c, q=q: u_it_deref(c, "vc_%s_deref" % q))
            a(q + "_arrow", ("C10",), lambda c, q=q: u_it_deref(c, "vc_%s_arrow" % q))
        for f, e in (("it_eq_cit", True), ("it_ne_cit", False), ("cit_eq_it", True), ("cit_ne_it", False)):
            a(f, ("C10",), lambda c, f=f, e=e: u_it_cmp(c, "vc_" + f, e))
    return U
