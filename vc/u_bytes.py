"""StackBuffer and CircularBuffer (raw and owning): contracts over byte memory.

Memory is a family `by` of byte arrays.  The abstract content is a ghost
sequence of blocks: StackBuffer: sizes S[k] and offsets O[k], k < count;
CircularBuffer: two chains of (position, size), A starting at the read
position and B starting at the front when the content wraps."""
import build
from engine import *
from lib import *
from units import *

BY = Family("by", 1, {0: ("b", "i8")})
MAXI = 2 ** 31
ARR = ARR1
STK, QUE, CPY, CORE, MEM = ("stack",), ("queue",), ("copy",), ("core",), ("mem",)


def sel(a, *ix):
    for i in ix:
        a = z3.Select(a, zi(i))
    return a


def arr(name):
    return fresh(name, ARR)


def i32(row, p):
    return Engine.PACK(*[sel(row, add(p, k)) for k in range(4)])


class NS:
    pass


class Bytes:
    """one unit's world"""

    def __init__(self, built, kind, owning, name, deadline):
        self.kind, self.owning = kind, owning
        if kind == "sb":
            raw, own, sub_, self.rawn = "StackBufferRaw", "StackBuffer", "stack", ["origin", "next", "nextIndex", "dataSize", "dataCount"]
            self.ownn = ["data", "statedSize", "actualCapacity", "stack"]
        else:
            raw, own, sub_, self.rawn = "CircularBufferRaw", "CircularBuffer", "buffer", ["origin", "next_write", "next_read", "capacity_", "isFull"]
            self.ownn = ["data", "actualSize", "actualCapacity", "buffer"]
        L = build.find_layout(built.layouts, r"^gmlc::containers::%s$" % raw)
        r = build.field_map(L, self.rawn)
        self.off = dict(r)
        if owning:
            L = build.find_layout(built.layouts, r"^gmlc::containers::%s$" % own)
            w = build.field_map(L, self.ownn)
            base = w[sub_]
            self.off = {k: v + base for k, v in r.items()}
            for k in self.ownn[:3]:
                self.off[k] = w[k]
        ic = self.intercepts()
        self.eng = new_engine(built, [BY], ic, name, {"rl": 1500000}, deadline=deadline)
        self.eng.tags = ("mem",)
        self.eng.loopcands = self.loopcands
        self.st = State()
        st = self.st
        self.eng.fam_init(st)
        st.fam["by.b"] = fresh("by.b", ARR2)
        self.eng.byte_axioms(st)
        self.objs = []

    # ---------------------------------------------------------------- library
    def intercepts(self):
        def reverse(eng, st, fn, a, ins):
            """std::reverse over index records (8 bytes each)"""
            eng.lib_used.add("std::reverse (records of 8 bytes)")
            f, l = a
            if not (isinstance(f, FPtr) and isinstance(l, FPtr)):
                raise Unsupported("reverse of %r" % (f,))
            n = eng.ptr_diff(st, l, f)
            m = eng.exact_div(st, n, 8)
            if m is None:
                raise Unsupported("reverse of a range that is not whole records")
            eng.check(st, le(0, m), "reverse-range-ordered")
            eng.check(st, Or(eq(m, 0), And(sel(st.fam["by.alloc"], f.oid), le(0, f.idx),
                                           le(add(f.idx, n), sel(st.fam["by.size"], f.oid)))), "memory-safe-reverse")
            row = sel(st.fam["by.b"], f.oid)
            nrow = arr("row")
            i = fresh("i")
            d = zi(i) - zi(f.idx)
            t, c = d / 8, d % 8
            st.assume(forall([i], sel(nrow, i) == z3.If(z3.And(d >= 0, d < zi(n)),
                                                        sel(row, zi(f.idx) + 8 * (zi(m) - 1 - t) + c), sel(row, i)), [sel(nrow, i)]))
            st.fam["by.b"] = z3.Store(st.fam["by.b"], zi(f.oid), nrow)
            return None
        return [(rx(r"^void std::reverse<gmlc::containers::dataIndex\*>\("), reverse)] + new_handlers("by") + exc_handlers()

    # ---------------------------------------------------------------- loops
    def loopcands(self, eng, st, info):
        """records of the index region exchanged pairwise from both ends"""
        e, out = info.entry, []
        if self.kind != "sb" or ("f", "by.b") not in info.mods:
            return out
        for o in self.objs:
            try:
                v = self.view(e, o)
            except (KeyError, AttributeError):
                continue
            if not isinstance(v.D, int) and not isz(v.D):
                continue
            D, l0, n8 = v.D, add(v.X, 8), mul(8, v.n)
            row0 = sel(e.fam["by.b"], D)
            x_ = fresh("o")
            out.append(("other-blocks-unchanged:" + o.name, lambda s, D=D, x_=x_: forall(
                [x_], Implies(Not(eq(x_, D)), sel(s.fam["by.b"], x_) == sel(e.fam["by.b"], x_)), [sel(s.fam["by.b"], x_)])))
            for nm, g, x0 in info.scalars():
                if nm.endswith(".oid"):
                    continue
                for sg in (1, -1):
                    for sc in (1, 8):
                        def pr(s, g=g, x0=x0, sg=sg, sc=sc):
                            d = sub(g(s), x0) if sg > 0 else sub(x0, g(s))
                            return mul(sc, d)

                        def bound(s, pr=pr, n8=n8):
                            p = zi(pr(s))
                            return z3.And(p >= 0, p % 8 == 0, 2 * p <= zi(n8))

                        def mirror(s, pr=pr, D=D, l0=l0, n8=n8, row0=row0):
                            p, j = pr(s), fresh("j")
                            row = sel(s.fam["by.b"], D)
                            d = zi(sub(j, l0))
                            done = Or(And(le(l0, j), lt(j, add(l0, p))),
                                      And(le(sub(add(l0, n8), p), j), lt(j, add(l0, n8))))
                            return forall([j], sel(row, j) == z3.If(zb(done), sel(row0, zi(l0) + zi(n8) - 8 - 8 * (d / 8) + d % 8),
                                                                    sel(row0, j)), [sel(row, j)])
                        k = "%s:%s:%+d" % (o.name, nm, sg * sc)
                        out += [("pairs-done-bound:" + k, bound), ("pairs-exchanged:" + k, mirror)]
        return out

    # ---------------------------------------------------------------- objects
    def raw(self, name):
        o = Obj(name, 64, "this")
        self.st.mem[o] = {}
        self.objs.append(o)
        return o

    def sym(self, name):
        st = self.st
        o = self.raw(name)
        D = fresh(name + ".D")
        oD = fresh(name + ".origin") if self.owning else D
        c = st.mem[o]
        for n in self.rawn[:3]:
            c[self.off[n]] = (8, FPtr("by", oD, 0 if n == "origin" else fresh(name + "." + n)))
        for n in self.rawn[3:]:
            c[self.off[n]] = (1 if n == "isFull" else 4, fresh(name + "." + n))
        if self.owning:
            c[self.off["data"]] = (8, FPtr("by", D, 0))
            for n in self.ownn[1:3]:
                c[self.off[n]] = (4, fresh(name + "." + n))
        return o

    def view(self, s, o):
        c = s.mem[o]

        def g(n):
            x = c.get(self.off[n])
            return None if x is None else x[1]
        v = NS()
        v.org = g(self.rawn[0])
        v.oD, v.oi = (v.org.oid, v.org.idx) if isinstance(v.org, FPtr) else (0, 0)
        v.D = v.oD
        pi = lambda n: (g(n).oid, g(n).idx) if isinstance(g(n), FPtr) else (0, 0)
        if self.kind == "sb":
            v.nD, v.W = pi("next")
            v.xD, v.X = pi("nextIndex")
            v.cap, v.n = g("dataSize"), g("dataCount")
        else:
            v.nD, v.W = pi("next_write")
            v.xD, v.R = pi("next_read")
            v.cap = g("capacity_")
            f = g("isFull")
            v.full = f if isinstance(f, bool) or (isz(f) and z3.is_bool(f)) else Not(eq(f, 0))
        v.alloc, v.size = s.fam["by.alloc"], s.fam["by.size"]
        if self.owning:
            v.data = g("data")
            v.dD, v.di = pi("data")
            v.stated, v.act = g(self.ownn[1]), g(self.ownn[2])
            v.D = v.dD
        v.row = sel(s.fam["by.b"], v.D)
        return v

    # ---------------------------------------------------------------- invariant
    def basics(self, v):
        ok = And(le(0, v.cap), lt(v.cap, MAXI), le(0, v.D), eq(v.oi, 0), eq(v.nD, v.oD), le(0, v.W), le(v.W, v.cap))
        r = [("pointers-into-own-block", ok),
             ("no-block-means-no-capacity", Implies(eq(v.D, 0), eq(v.cap, 0)))]
        own = [sel(v.alloc, v.D)]
        if self.owning:
            own.append(eq(sel(v.size, v.D), v.act))
            r.append(("controller-uses-the-owned-block", And(Or(eq(v.cap, 0), eq(v.oD, v.dD)), eq(v.di, 0), eq(v.stated, v.cap), le(v.cap, v.act), lt(v.act, MAXI),
                                                             Implies(eq(v.D, 0), eq(v.act, 0)))))
        else:
            own.append(eq(sel(v.size, v.D), v.cap))
        r.append(("block-allocated-with-its-capacity", Implies(Not(eq(v.D, 0)), And(own))))
        return r

    def inv(self, v, g):
        """v: view, g: ghost content -> named formulas"""
        r = self.basics(v)
        if self.kind == "sb":
            k, i, j = fresh("k"), fresh("i"), fresh("j")
            S, O = g.S, g.O
            r.append(("index-and-data-disjoint", And(le(0, v.n), le(add(v.W, mul(8, v.n)), v.cap), Implies(eq(v.n, 0), eq(v.W, 0)))))
            r.append(("index-position", Implies(lt(0, v.cap), And(eq(v.xD, v.D), eq(v.X, sub(v.cap, mul(8, add(v.n, 1))))))))
            rng = lambda a: And(le(0, a), lt(a, v.n))
            r.append(("records", forall([k], Implies(rng(k), And(
                lt(0, sel(S, k)), le(0, sel(O, k)), le(add(sel(O, k), sel(S, k)), v.W),
                eq(i32(v.row, sub(v.cap, mul(8, add(k, 1)))), sel(O, k)),
                eq(i32(v.row, add(sub(v.cap, mul(8, add(k, 1))), 4)), sel(S, k)))), [sel(S, k), sel(O, k)])))
            r.append(("blocks-disjoint", forall([i, j], Implies(And(rng(i), rng(j), Not(eq(i, j))), Or(
                le(add(sel(O, i), sel(S, i)), sel(O, j)), le(add(sel(O, j), sel(S, j)), sel(O, i)))),
                [z3.MultiPattern(sel(O, i), sel(O, j))])))
            return r
        wrap = Or(lt(v.W, v.R), v.full)
        r.append(("read-position", And(eq(v.xD, v.oD), le(0, v.R), le(v.R, v.cap), Or(eq(v.R, 0), le(5, sub(v.cap, v.R))),
                                       Implies(v.full, eq(v.W, v.R)))))
        a, b = g.A, g.B
        r += self.chain("A", v, a, v.R)
        r += self.chain("B", v, b, 0)
        E = sel(a.P, a.h)
        r.append(("unwrapped-content", Implies(Not(wrap), And(eq(E, v.W), eq(b.h, b.l), eq(sel(b.P, b.h), 0)))))
        r.append(("wrapped-content", Implies(wrap, And(
            le(E, v.cap), le(v.R, E), eq(sel(b.P, b.h), v.W), Or(lt(sub(v.cap, E), 5), eq(i32(v.row, E), -1)),
            Implies(eq(a.l, a.h), le(5, sub(v.cap, E))), Implies(eq(b.l, b.h), And(lt(sub(v.cap, E), 5), lt(a.l, a.h))),
            Or(lt(a.l, a.h), lt(b.l, b.h))))))
        return r

    def chain(self, nm, v, c, start):
        i, j = fresh("i"), fresh("j")
        rng = lambda x: And(le(c.l, x), lt(x, c.h))
        P, S = c.P, c.S
        E = sel(P, c.h)
        return [("chain-%s-start" % nm, And(le(c.l, c.h), eq(sel(P, c.l), start), le(start, E))),
                ("chain-%s-headers" % nm, forall([i], Implies(rng(i), And(
                    lt(0, sel(S, i)), le(start, sel(P, i)), le(add(add(sel(P, i), sel(S, i)), 4), E),
                    eq(sel(P, add(i, 1)), add(add(sel(P, i), sel(S, i)), 4)), eq(i32(v.row, sel(P, i)), sel(S, i)))),
                    [sel(S, i)])),
                ("chain-%s-ordered" % nm, forall([i, j], Implies(And(rng(i), lt(i, j), le(j, c.h)), le(add(add(sel(P, i), sel(S, i)), 4), sel(P, j))),
                                                 [z3.MultiPattern(sel(S, i), sel(P, j))]))]

    def ghost(self, name):
        g = NS()
        if self.kind == "sb":
            g.S, g.O = arr(name + ".S"), arr(name + ".O")
            return g
        for x in "AB":
            c = NS()
            c.P, c.S, c.l, c.h = arr(name + ".P" + x), arr(name + ".S" + x), fresh(name + ".l" + x), fresh(name + ".h" + x)
            setattr(g, x, c)
        return g

    def assume_inv(self, o, name):
        st = self.st
        v = self.view(st, o)
        g = self.ghost(name)
        if self.kind == "cb":
            f = st.mem[o][self.off["isFull"]][1]
            st.assume(And(le(0, f), le(f, 1)))
        for _, f in self.inv(v, g):
            st.assume(f)
        st.assume(lt(v.D, st.gh["by.ctr"]))
        for o2, v2, g2 in self.known():
            st.assume(Or(eq(v2.D, 0), eq(v.D, 0), Not(eq(v2.D, v.D))))
        o.g = g
        o.v = v
        o.name_ = name
        return o

    def known(self):
        return [(o, o.v, o.g) for o in self.objs if getattr(o, "g", None) is not None]

    def block(self, name, size, need=True):
        """a caller supplied range of `size` bytes that is not part of a buffer"""
        st = self.st
        X, xi = fresh(name), fresh(name + ".at")
        st.assume(And(lt(0, X), lt(X, st.gh["by.ctr"]), sel(st.fam["by.alloc"], X), le(0, xi), le(add(xi, size), sel(st.fam["by.size"], X))))
        for o, v, g in self.known():
            st.assume(Not(eq(v.D, X)))
        return FPtr("by", X, xi)

    # ---------------------------------------------------------------- posts
    def unchanged(self, s, o, tag):
        """the buffer object, its memory and its content are as before"""
        a, b = o.v, self.view(s, o)
        same = [eq(a.D, b.D), eq(a.oD, b.oD), eq(a.W, b.W), eq(a.cap, b.cap)]
        if self.kind == "sb":
            same += [eq(a.n, b.n), Implies(lt(0, a.cap), And(eq(a.xD, b.xD), eq(a.X, b.X)))]
        else:
            same += [eq(a.R, b.R), eq(a.full, b.full) if isz(a.full) else a.full == b.full]
        if self.owning:
            same += [eq(a.dD, b.dD), eq(a.stated, b.stated), eq(a.act, b.act)]
        j = fresh("j")
        return [("buffer-unchanged", And(same), tag),
                ("bytes-unchanged", Implies(Not(eq(a.D, 0)), forall([j], Implies(And(le(0, j), lt(j, b.cap)), eq(sel(b.row, j), sel(a.row, j))), [sel(b.row, j)])), tag)]

    def frame(self, s, objs, blocks=()):
        """no byte of another allocation changed, none allocated or freed except the buffers' own blocks"""
        pre = self.pre
        o, j = fresh("o"), fresh("j")
        mine = [eq(o, x.v.D) for x in objs if getattr(x, "v", None) is not None] + [eq(o, b.oid) for b in blocks]
        oth = And(lt(0, o), lt(o, pre.gh["by.ctr"]), Not(Or(mine)) if mine else True)
        r = [("other-memory-unchanged", forall([o], Implies(oth, eq2(sel(s.fam["by.b"], o), sel(pre.fam["by.b"], o)))), MEM),
             ("other-blocks-not-freed", forall([o], Implies(oth, sel(s.fam["by.alloc"], o) == sel(pre.fam["by.alloc"], o))), MEM)]
        for b in blocks:
            r.append(("caller-block-still-allocated", sel(s.fam["by.alloc"], b.oid), MEM))
        return r

    def owned(self, s, objs_pre, objs_post):
        """ownership: every block held before and not held now was freed, none leaked"""
        pre = self.pre
        r = []
        nb = sum_([If(eq(x.v.D, 0), 0, 1) for x in objs_pre])
        vs = [self.view(s, x) for x in objs_post]
        na = sum_([If(eq(v.D, 0), 0, 1) for v in vs])
        r.append(("no-block-leaked-or-double-freed", eq(sub(s.gh["by.n"], pre.gh["by.n"]), sub(na, nb)), MEM))
        for i, v in enumerate(vs):
            r.append(("owned-block-is-its-own", Or(eq(v.D, 0), le(pre.gh["by.ctr"], v.D), Or([eq(v.D, x.v.D) for x in objs_pre])), MEM))
            for w in vs[:i]:
                r.append(("blocks-not-shared", Or(eq(v.D, 0), Not(eq(v.D, w.D))), MEM))
        for x in objs_pre:
            r.append(("released-block-freed", Or(eq(x.v.D, 0), Not(sel(s.fam["by.alloc"], x.v.D)), Or([eq(v.D, x.v.D) for v in vs])), MEM))
        return r

    def invs(self, s, o, g, tag=CORE):
        v = self.view(s, o)
        b = {n for n, _ in self.basics(v)}
        return [("%s[%s]" % ("invariant", n), f, tag + ("block",) if n in b else tag) for n, f in self.inv(v, g)]

    def moved_bytes(self, s, o, n, tag, where):
        return []


def sum_(l):
    r = 0
    for x in l:
        r = add(r, x)
    return r


def eq2(a, b):
    return a == b


def store(a, i, v):
    return z3.Store(a, zi(i), zi(v))


def units():
    out = []

    def U(kind, owning, op, setup, post, throws=False):
        def run(built, variant, deadline):
            c = Bytes(built, kind, owning, "%s.%s" % (kind, op), deadline)
            args = setup(c)
            c.pre = c.st.snap()

            def pst(k, s, v):
                c.kindk = k
                return post(c, s, v)
            drive(c.eng, c.st, "vc_" + op, args, pst, throws)
            return c.eng
        props = {"sb": ["C01", "C02", "C03"], "cb": ["C03", "C04", "C05"]}[kind]
        out.append(Unit("%s%s.%s" % (kind, "" if owning else "raw", op), props, kind, [1 if owning else 0], run))

    def this(c):
        c.o = c.assume_inv(c.sym("this"), "this")
        return Ptr(c.o, 0)

    def plain(c):
        return [this(c)]

    def two(c):
        c.p = c.assume_inv(c.sym("other"), "other")
        return [this(c), Ptr(c.p, 0)]

    def i32arg(c, nm):
        n = fresh(nm)
        c.st.assume(And(le(-MAXI, n), lt(n, MAXI)))
        return n

    def own(c, s, a, b):
        return c.owned(s, a, b) if c.owning else []

    # ------------------------------------------------------------ push
    def s_push(c):
        t = this(c)
        c.n = i32arg(c, "n")
        c.q = i32arg(c, "q")
        # a null block, or one of at least n bytes
        c.b = c.block("src", c.n)
        isnull = fresh("null", B)
        X = fresh("blockarg")
        c.st.assume(eq(X, If(isnull, 0, c.b.oid)))
        c.isnull = isnull
        c.fits = Obj("fits", 1)
        c.st.mem[c.fits] = {}
        return [t, FPtr("by", X, c.b.idx), c.n, c.q, Ptr(c.fits, 0)]

    def fitsval(c, s):
        x = s.mem[c.fits][0][1]
        return x if isinstance(x, bool) or (isz(x) and z3.is_bool(x)) else Not(eq(x, 0))

    def bval(v):
        return v if isinstance(v, bool) or (isz(v) and z3.is_bool(v)) else Not(eq(v, 0))

    def content_new(c, a, v2, at, tag):
        j = fresh("j")
        src = sel(c.pre.fam["by.b"], c.b.oid)
        return ("pushed-bytes-stored", forall([j], Implies(And(le(0, j), lt(j, c.n)), eq(sel(v2.row, add(at, j)), sel(src, add(c.b.idx, j))))), tag)

    def kept(c, row0, row1, P, S, l, h, hdr, shift, tag, nm="stored-bytes-kept"):
        k, j = fresh("k"), fresh("j")
        return (nm, forall([k, j], Implies(And(le(l, k), lt(k, h), le(add(sel(P, k), hdr), j), lt(j, add(add(sel(P, k), sel(S, k)), hdr))),
                                           eq(sel(row1, add(j, shift)), sel(row0, j)))), tag)

    def p_push_sb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        r = bval(v)
        b = c.view(s, o)
        need = And(le(add(add(a.W, mul(8, add(a.n, 1))), c.q), a.cap))
        res = [("space-query-exact", eqb(fitsval(c, s), need), STK),
               ("accepted-exactly-when-the-query-says-it-fits", Implies(eq(c.q, c.n), eqb(r, And(lt(0, c.n), Not(c.isnull), fitsval(c, s)))), STK)]
        res += c.frame(s, [o]) + own(c, s, [o], [o])
        for acc in (True, False):
            z = r if acc else Not(r)
            s2 = s.copy()
            s2.assume(z)
            if not c.eng.feasible(s2):
                continue
            if not acc:
                chk(c, s2, [("refused-" + n, f, t) for n, f, t in c.unchanged(s2, o, STK)])
                continue
            g2 = NS()
            g2.S, g2.O = store(g.S, a.n, c.n), store(g.O, a.n, a.W)
            b = c.view(s2, o)
            chk(c, s2, [("one-block-added", And(eq(b.n, add(a.n, 1)), eq(b.cap, a.cap), eq(b.D, a.D)), STK)] + c.invs(s2, o, g2, CORE) +
                [kept(c, a.row, b.row, g.O, g.S, 0, a.n, 0, 0, STK), content_new(c, a, b, a.W, STK)])
        return res

    def eqb(a, b):
        return zb(a) == zb(b)

    def chk(c, s, goals):
        for nm, f, t in goals:
            c.eng.check(s, f, nm, t, assume=False)

    # ------------------------------------------------------------ pop
    def s_pop(c):
        t = this(c)
        c.m = i32arg(c, "max")
        c.b = c.block("dst", If(lt(c.m, 0), 0, c.m))
        isnull = fresh("null", B)
        c.st.assume(Implies(isnull, le(c.m, 0)))
        X = fresh("blockarg")
        c.st.assume(eq(X, If(isnull, 0, c.b.oid)))
        return [t, FPtr("by", X, c.b.idx), c.m]

    def target(c, s, b, at, size, row0, tag):
        j = fresh("j")
        d0, d1 = sel(c.pre.fam["by.b"], c.b.oid), sel(s.fam["by.b"], c.b.oid)
        return [("popped-bytes-exact", forall([j], Implies(And(le(0, j), lt(j, size)), eq(sel(d1, add(c.b.idx, j)), sel(row0, add(at, j))))), tag),
                ("target-otherwise-unchanged", forall([j], Implies(Or(lt(j, c.b.idx), le(add(c.b.idx, size), j)), eq(sel(d1, j), sel(d0, j)))), MEM)]

    def p_pop_sb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        top = sub(a.n, 1)
        sz = sel(g.S, top)
        res = c.frame(s, [o], [c.b]) + own(c, s, [o], [o])
        res.append(("result", eq(v, If(eq(a.n, 0), 0, If(le(sz, c.m), sz, sub(0, sz)))), STK))
        for acc in (True, False):
            s2 = s.copy()
            z = And(lt(0, a.n), le(sz, c.m))
            s2.assume(z if acc else Not(z))
            if not c.eng.feasible(s2):
                continue
            b = c.view(s2, o)
            if not acc:
                chk(c, s2, [("refused-" + n, f, t) for n, f, t in c.unchanged(s2, o, STK)] + target(c, s2, b, 0, 0, a.row, STK))
                continue
            chk(c, s2, [("one-block-removed", And(eq(b.n, top), eq(b.cap, a.cap), eq(b.D, a.D)), STK)] + c.invs(s2, o, g, CORE) +
                target(c, s2, b, sel(g.O, top), sz, a.row, STK) + [kept(c, a.row, b.row, g.O, g.S, 0, top, 0, 0, STK)])
        return res

    def p_reverse(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        b = c.view(s, o)
        g2 = NS()
        k = fresh("k")
        g2.S, g2.O = z3.Lambda([k], sel(g.S, sub(sub(a.n, 1), k))), z3.Lambda([k], sel(g.O, sub(sub(a.n, 1), k)))
        S2, O2 = arr("S2"), arr("O2")
        for x, y in ((S2, g.S), (O2, g.O)):
            s.assume(forall([k], sel(x, k) == sel(y, sub(sub(a.n, 1), k)), [sel(x, k)]))
        g2.S, g2.O = S2, O2
        return [("same-blocks", And(eq(b.n, a.n), eq(b.cap, a.cap), eq(b.D, a.D), eq(b.W, a.W)), STK)] + c.invs(s, o, g2, STK) + \
            [kept(c, a.row, b.row, g.O, g.S, 0, a.n, 0, 0, STK)] + c.frame(s, [o]) + own(c, s, [o], [o])

    def empty_now(c, s, o, cap, tag):
        b = c.view(s, o)
        return [("empty", And(eq(b.cap, cap), eq(b.n, 0) if c.kind == "sb" else And(eq(b.W, b.R), Not(b.full))), tag)]

    def ghost_for_empty(c, s, o, g):
        """for an empty buffer any ghost chains anchored at the read position do"""
        if c.kind == "sb":
            return g
        b = c.view(s, o)
        g2 = NS()
        for nm, at in (("A", b.R), ("B", 0)):
            ch = NS()
            ch.P, ch.S, ch.l, ch.h = store(arr("P"), 0, at), arr("S"), 0, 0
            setattr(g2, nm, ch)
        return g2

    def empties(c, s, o, cap, tag):
        g = getattr(o, "g", None) or c.ghost("none")
        return empty_now(c, s, o, cap, tag) + c.invs(s, o, ghost_for_empty(c, s, o, g))

    def p_clear(c, s, v):
        t = STK if c.kind == "sb" else QUE
        b = c.view(s, c.o)
        return empties(c, s, c.o, c.o.v.cap, t) + [("same-block", eq(b.D, c.o.v.D), t)] + c.frame(s, [c.o]) + own(c, s, [c.o], [c.o])

    def same_content(c, s, dst, a, row0, g, tag, nm):
        """dst holds exactly the content described by view a, ghost g (same layout)"""
        b = c.view(s, dst)
        f = [eq(b.cap, a.cap), eq(b.W, a.W)] + ([eq(b.n, a.n)] if c.kind == "sb" else [eq(b.R, a.R), eqb(b.full, a.full)])
        r = [(nm, And(f), tag)] + c.invs(s, dst, g, tag)
        if c.kind == "sb":
            r.append(kept(c, row0, b.row, g.O, g.S, 0, a.n, 0, 0, tag, nm + "-bytes"))
        else:
            for x in (g.A, g.B):
                r.append(kept(c, row0, b.row, x.P, x.S, x.l, x.h, 4, 0, tag, nm + "-bytes"))
        return r

    def p_swap(c, s, v):
        o, p = c.o, c.p
        return same_content(c, s, o, p.v, p.v.row, p.g, STK, "gets-the-other-content") + same_content(c, s, p, o.v, o.v.row, o.g, STK, "other-gets-this-content") + \
            c.frame(s, [o, p]) + own(c, s, [o, p], [o, p])

    def query(f):
        def post(c, s, v):
            o = c.o
            t = STK if c.kind == "sb" else QUE
            return f(c, s, v, t) + c.unchanged(s, o, t) + c.frame(s, [o]) + own(c, s, [o], [o])
        return post

    def q_next(c, s, v, t):
        a, g = c.o.v, c.o.g
        if c.kind == "sb":
            return [("next-size", eq(v, If(eq(a.n, 0), 0, sel(g.S, sub(a.n, 1)))), t)]
        em, sz, at = head(c)
        return [("next-size", eq(v, If(em, 0, sz)), t)]

    def head(c):
        a, g = c.o.v, c.o.g
        em = And(eq(g.A.l, g.A.h), eq(g.B.l, g.B.h))
        ha = lt(g.A.l, g.A.h)
        return em, If(ha, sel(g.A.S, g.A.l), sel(g.B.S, g.B.l)), If(ha, sel(g.A.P, g.A.l), sel(g.B.P, g.B.l))

    def s_space(c):
        t = this(c)
        c.n = i32arg(c, "n")
        return [t, c.n]

    def q_space(c, s, v, t):
        a = c.o.v
        if c.kind == "sb":
            return [("space-query-exact", eqb(bval(v), le(add(add(a.W, mul(8, add(a.n, 1))), c.n), a.cap)), t)]
        return []

    # ------------------------------------------------------------ StackBuffer
    for own_ in (False, True):
        U("sb", own_, "push", s_push, p_push_sb)
        U("sb", own_, "pop", s_pop, p_pop_sb)
        U("sb", own_, "reverse", plain, p_reverse)
        U("sb", own_, "swap", two, p_swap)
        U("sb", own_, "count", plain, query(lambda c, s, v, t: [("count", eq(v, c.o.v.n), t)]))
        U("sb", own_, "empty", plain, query(lambda c, s, v, t: [("empty-query", eqb(bval(v), eq(c.o.v.n, 0)), t)]))
        for kind in ("sb", "cb"):
            U(kind, own_, "clear", plain, p_clear)
            U(kind, own_, "next", plain, query(q_next))
            U(kind, own_, "capacity", plain, query(lambda c, s, v, t: [("capacity", eq(v, c.o.v.cap), t)]))
            U(kind, own_, "space", s_space, query(q_space))
    U("sb", True, "rawcap", plain, query(lambda c, s, v, t: [("block-capacity", And(eq(v, c.o.v.act), le(c.o.v.cap, v)), t)]))
    U("cb", True, "empty", plain, query(lambda c, s, v, t: [("empty-query", eqb(bval(v), head(c)[0]), t)]))
    U("cb", False, "empty", plain, query(lambda c, s, v, t: [("empty-query", eqb(bval(v), head(c)[0]), t)]))

    # ------------------------------------------------------------ constructors, assignment, destruction
    def s_ctor(c):
        c.o = c.raw("this")
        return [Ptr(c.o, 0)]

    def tg(c):
        return CPY

    def p_ctor(c, s, v):
        return empties(c, s, c.o, 0, CPY) + c.frame(s, []) + own(c, s, [], [c.o])

    def s_ctor_size(c):
        c.o = c.raw("this")
        c.n = i32arg(c, "n")
        c.st.assume(le(0, c.n))
        return [Ptr(c.o, 0), c.n]

    def p_ctor_size(c, s, v):
        return empties(c, s, c.o, c.n, CPY) + c.frame(s, []) + own(c, s, [], [c.o])

    def s_ctor_block(c):
        c.n = i32arg(c, "n")
        c.st.assume(le(0, c.n))
        c.b = c.block("mem", c.n)
        c.st.assume(And(eq(c.b.idx, 0), eq(sel(c.st.fam["by.size"], c.b.oid), c.n)))
        c.o = c.raw("this")
        return [Ptr(c.o, 0), FPtr("by", c.b.oid, 0), c.n]

    def p_ctor_block(c, s, v):
        b = c.view(s, c.o)
        return empties(c, s, c.o, c.n, CPY) + [("uses-the-given-block", eq(b.D, c.b.oid), CPY)] + c.frame(s, [])

    def s_ctor_from(c):
        c.p = c.assume_inv(c.sym("other"), "other")
        c.o = c.raw("this")
        return [Ptr(c.o, 0), Ptr(c.p, 0)]

    def p_copy(assign):
        def post(c, s, v):
            o, p = c.o, c.p
            objs = ([o] if assign else []) + [p]
            save, c.o = c.o, p
            r = [("source-" + n, f, t) for n, f, t in c.unchanged(s, p, CPY)]
            c.o = save
            return r + same_content(c, s, o, p.v, p.v.row, p.g, CPY, "copy-equals-source") + c.frame(s, objs) + c.owned(s, objs, [o, p])
        return post

    def p_move(assign):
        def post(c, s, v):
            o, p = c.o, c.p
            objs = ([o] if assign else []) + [p]
            return same_content(c, s, o, p.v, p.v.row, p.g, CPY, "content-transferred") + \
                [("source-left-" + n, f, t) for n, f, t in empties(c, s, p, 0, CPY)] + c.frame(s, objs) + c.owned(s, objs, [o, p])
        return post

    def p_dtor(c, s, v):
        return c.frame(s, [c.o]) + c.owned(s, [c.o], [])

    # ------------------------------------------------------------ resize
    def s_resize(c):
        t = this(c)
        c.n = i32arg(c, "newsize")
        if c.kind == "cb":
            c.st.assume(le(0, c.n))
        return [t, c.n]

    def p_resize_sb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        if c.kindk == "throw":
            return [("throws-only-when-the-blocks-cannot-fit", lt(c.n, add(a.W, mul(8, a.n))), CPY)] + \
                [("throw-" + n, f, t) for n, f, t in c.unchanged(s, o, CPY)] + c.frame(s, [o]) + own(c, s, [o], [o])
        b = c.view(s, o)
        r = [("result", eqb(bval(v), le(0, c.n)), CPY), ("capacity-is-the-new-size", eq(b.cap, If(lt(c.n, 0), a.cap, c.n)), CPY),
             ("blocks-and-used-space-kept", And(eq(b.n, a.n), eq(b.W, a.W)), CPY)]
        r += c.invs(s, o, g, CPY) + [kept(c, a.row, b.row, g.O, g.S, 0, a.n, 0, 0, CPY)]
        return r + c.frame(s, [o]) + own(c, s, [o], [o])

    for kind in ("sb", "cb"):
        U(kind, False, "ctor_block", s_ctor_block, p_ctor_block)
        U(kind, True, "ctor", s_ctor, p_ctor)
        U(kind, True, "ctor_size", s_ctor_size, p_ctor_size)
        U(kind, True, "ctor_copy", s_ctor_from, p_copy(False))
        U(kind, True, "ctor_move", s_ctor_from, p_move(False))
        U(kind, True, "assign_copy", two, p_copy(True))
        U(kind, True, "assign_move", two, p_move(True))
        U(kind, True, "dtor", plain, p_dtor)
    U("sb", False, "ctor", s_ctor, p_ctor)
    U("sb", True, "resize", s_resize, p_resize_sb, throws=True)

    # ------------------------------------------------------------ CircularBuffer push / pop / resize
    def mkchain(P, S, l, h):
        x = NS()
        x.P, x.S, x.l, x.h = P, S, l, h
        return x

    def mk(A, Bc):
        g = NS()
        g.A, g.B = A, Bc
        return g

    def nochain(at):
        return mkchain(store(arr("P"), 0, at), arr("S"), 0, 0)

    def wrapped(v):
        return Or(lt(v.W, v.R), v.full)

    def cases(c, s, lst):
        """proof by cases; the cases must be exhaustive"""
        c.eng.check(s, Or([z for z, _ in lst]), "result-state-is-one-of-the-specified", QUE, assume=False)
        for z, f in lst:
            if conc(z) is False:
                continue
            s2 = s.copy()
            s2.assume(z)
            if c.eng.feasible(s2):
                chk(c, s2, f(s2))

    def p_push_cb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        r = bval(v)
        A, Bc = g.A, g.B
        res = [("accepted-exactly-when-the-query-says-it-fits", Implies(eq(c.q, c.n), eqb(r, And(lt(0, c.n), Not(c.isnull), fitsval(c, s)))), QUE)]
        res += c.frame(s, [o]) + own(c, s, [o], [o])
        b = c.view(s, o)
        w0, w1 = wrapped(a), wrapped(b)

        def keep(s2):
            b = c.view(s2, o)
            return [kept(c, a.row, b.row, x.P, x.S, x.l, x.h, 4, 0, QUE) for x in (A, Bc)] + \
                [("same-memory", And(eq(b.cap, a.cap), eq(b.D, a.D), eq(b.R, a.R)), QUE)]

        def refused(s2):
            return [("refused-" + n, f, t) for n, f, t in c.unchanged(s2, o, QUE)]

        def atA(s2):
            E = sel(A.P, A.h)
            A2 = mkchain(store(A.P, add(A.h, 1), add(add(E, c.n), 4)), store(A.S, A.h, c.n), A.l, add(A.h, 1))
            return c.invs(s2, o, mk(A2, Bc)) + keep(s2) + [content_new(c, a, c.view(s2, o), add(E, 4), QUE)]

        def atB(s2):
            E = sel(Bc.P, Bc.h)
            B2 = mkchain(store(Bc.P, add(Bc.h, 1), add(add(E, c.n), 4)), store(Bc.S, Bc.h, c.n), Bc.l, add(Bc.h, 1))
            return c.invs(s2, o, mk(A, B2)) + keep(s2) + [content_new(c, a, c.view(s2, o), add(E, 4), QUE)]
        end = Or(Not(w1), eq(b.W, 0))
        cases(c, s, [(Not(r), refused), (And(r, Not(w0), end), atA), (And(r, Not(w0), Not(end)), atB), (And(r, w0), atB)])
        return res

    def p_pop_cb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        A, Bc = g.A, g.B
        em, sz, at = head(c)
        res = c.frame(s, [o], [c.b]) + own(c, s, [o], [o])
        res.append(("result", eq(v, If(em, 0, If(le(sz, c.m), sz, sub(0, sz)))), QUE))
        b = c.view(s, o)
        got = And(Not(em), le(sz, c.m))
        hasA = lt(A.l, A.h)
        same = And(eq(b.R, a.R), eq(b.W, a.W), eqb(b.full, a.full))

        def mem(s2):
            b = c.view(s2, o)
            return [("same-memory", And(eq(b.cap, a.cap), eq(b.D, a.D)), QUE)]

        def keep(s2, chains):
            b = c.view(s2, o)
            return [kept(c, a.row, b.row, x.P, x.S, x.l, x.h, 4, 0, QUE) for x in chains] + mem(s2)

        def refused(g2):
            def f(s2):
                return [("refused-" + n, f, t) for n, f, t in c.invs(s2, o, g2, QUE)] + keep(s2, [A, Bc]) + target(c, s2, None, 0, 0, a.row, QUE)
            return f

        def removed(g2):
            def f(s2):
                return c.invs(s2, o, g2) + keep(s2, [g2.A, g2.B]) + target(c, s2, None, add(at, 4), sz, a.row, QUE)
            return f
        A1 = mkchain(A.P, A.S, add(A.l, 1), A.h)
        B1 = mkchain(Bc.P, Bc.S, add(Bc.l, 1), Bc.h)
        lastA = eq(add(A.l, 1), A.h)
        adv = eq(b.R, sel(A.P, add(A.l, 1)))
        cases(c, s, [
            (And(Not(got), same), refused(g)),
            # the reader moved to the front without taking anything
            (And(Not(got), Not(same), Not(hasA)), refused(mk(Bc, nochain(0)))),
            (And(got, hasA, adv), removed(mk(A1, Bc))),
            (And(got, hasA, Not(adv), lastA, Not(wrapped(a))), removed(mk(nochain(0), nochain(0)))),
            (And(got, hasA, Not(adv), lastA, wrapped(a)), removed(mk(Bc, nochain(0)))),
            (And(got, Not(hasA)), removed(mk(B1, nochain(0)))),
        ])
        return res

    def shifted(A, l, h, d, s):
        P2 = arr("Pshift")
        k = fresh("k")
        s.assume(forall([k], sel(P2, k) == add(sel(A.P, k), d), [sel(P2, k)]))
        return mkchain(P2, A.S, l, h)

    def p_resize_cb(c, s, v):
        o, a, g = c.o, c.o.v, c.o.g
        A, Bc = g.A, g.B
        fr = c.frame(s, [o]) + own(c, s, [o], [o])
        if c.kindk == "throw":
            return [("throw-" + n, f, t) for n, f, t in c.unchanged(s, o, CPY)] + fr
        b = c.view(s, o)
        em = head(c)[0]

        def full(s2):
            d = sub(b.R, a.R)
            A2 = shifted(A, A.l, A.h, d, s2)
            return c.invs(s2, o, mk(A2, Bc), CPY) + [kept(c, a.row, b.row, A.P, A.S, A.l, A.h, 4, d, CPY),
                                                     kept(c, a.row, b.row, Bc.P, Bc.S, Bc.l, Bc.h, 4, 0, CPY)]

        def empty_(s2):
            return empties(c, s2, o, c.n, CPY)
        cases(c, s, [(em, empty_), (Not(em), full)])
        return [("capacity-is-the-new-size", eq(b.cap, c.n), CPY)] + fr

    for own_ in (False, True):
        U("cb", own_, "push", s_push, p_push_cb)
        U("cb", own_, "pop", s_pop, p_pop_cb)
    U("cb", True, "resize", s_resize, p_resize_cb, throws=True)
    return out
