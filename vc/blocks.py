"""Contracts of StableBlockVector and StableBlockDeque.

One shared representation: a table of block pointers D (object of family
`slots`), used slots f..b, elements at linear positions; a free list F of
blocks.  For the vector f=0 and fj=-1."""
import build
from engine import *
from lib import *

SLOTS = Family("slots", 8, {0: ("p", ("ptr", "blk"))})
BLK = Family("blk", 24, {0: ("e", "elem")})
SRC = Family("src", 24, {0: ("e", "elem")})

MAXSLOTS = 2 ** 30


class NS:
    pass


def sel(a, *ix):
    for i in ix:
        a = z3.Select(a, zi(i))
    return a


class BlockSpec:
    def __init__(self, kind, N, layouts):
        self.kind = kind
        self.N = N
        self.bs = 1 << N
        cls = "StableBlockVector" if kind == "sbv" else "StableBlockDeque"
        self.cls = cls
        lay = build.find_layout(layouts, r"^gmlc::containers::%s<" % cls)
        if kind == "sbv":
            self.names = ["csize", "dataptr", "dataSlotsAvailable", "dataSlotIndex", "bsize", "freeSlotsAvailable",
                          "freeIndex", "freeblocks"]
        else:
            self.names = ["csize", "dataptr", "dataSlotsAvailable", "dataSlotBack", "dataSlotFront", "bsize", "fsize",
                          "freeSlotsAvailable", "freeIndex", "freeblocks"]
        self.off = build.field_map(lay, self.names)
        self.size = 48 if kind == "sbv" else 64

    # ------------------------------------------------------------ objects
    def sym(self, eng, st, name, tag):
        """symbolic container object"""
        o = Obj(name, self.size, "this")
        o.tag = tag
        c = {}
        for n in self.names:
            if n in ("dataptr", "freeblocks"):
                c[self.off[n]] = (8, FPtr("slots", fresh(name + "." + n)))
                st.assume(c[self.off[n]][1].oid >= 0)
            elif n == "csize":
                c[self.off[n]] = (8, fresh(name + "." + n))
            else:
                v = fresh(name + "." + n)
                st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31))
                c[self.off[n]] = (4, v)
        st.mem[o] = c
        return o

    def raw(self, st, name, tag):
        """uninitialised storage for a constructor"""
        o = Obj(name, self.size, "this")
        o.tag = tag
        st.mem[o] = {}
        return o

    def view(self, s, o):
        c = s.mem[o]
        g = lambda n: c[self.off[n]][1]
        v = NS()
        v.n = g("csize")
        v.D = g("dataptr").oid
        v.avail = g("dataSlotsAvailable")
        v.bj = g("bsize")
        if self.kind == "sbv":
            v.f, v.fj = 0, -1
            v.b = g("dataSlotIndex")
        else:
            v.f, v.fj = g("dataSlotFront"), g("fsize")
            v.b = g("dataSlotBack")
        v.favail = g("freeSlotsAvailable")
        v.fidx = g("freeIndex")
        v.F = g("freeblocks").oid
        v.S = s.fam["slots.p"]
        v.val = s.fam["blk.e.val"]
        v.live = s.fam["blk.e.live"]
        v.alloc = s.fam["blk.alloc"]
        v.size = s.fam["blk.size"]
        v.salloc = s.fam["slots.alloc"]
        v.ssize = s.fam["slots.size"]
        v.ctr = s.gh["blk.ctr"]
        v.sctr = s.gh["slots.ctr"]
        v.bn = s.gh["blk.n"]
        v.sn = s.gh["slots.n"]
        v.tag = o.tag
        bs = self.bs
        v.blk = lambda i: sel(v.S, v.D, i)
        v.v = lambda i, j: sel(v.val, v.blk(i), j)
        v.p = lambda i, j: sub(sub(add(mul(bs, sub(i, v.f)), j), v.fj), 1)
        v.inr = lambda i, j: And(le(0, j), lt(j, bs), le(0, v.p(i, j)), lt(v.p(i, j), v.n))
        # block in slot i holds at least one element
        v.occ = lambda i: And(le(0, v.p(i, bs - 1)), lt(v.p(i, 0), v.n))
        v.used = lambda i: And(Not(eq(v.D, 0)), le(v.f, i), le(i, v.b))
        v.owned = add(If(eq(v.D, 0), 0, add(sub(v.b, v.f), 1)), v.fidx)
        v.sowned = add(If(eq(v.D, 0), 0, 1), If(eq(v.F, 0), 0, 1))
        return v

    # ------------------------------------------------------------ invariant
    def struct(self, v):
        """quantifier free part of the invariant"""
        bs = self.bs
        empty = [eq(v.n, 0), eq(v.avail, 0), eq(v.bj, bs), eq(v.F, 0)]
        if self.kind == "sbd":
            empty.append(eq(v.fj, -1))
            empty.append(eq(v.f, v.b))
        full = [sel(v.salloc, v.D), eq(sel(v.ssize, v.D), v.avail), le(0, v.f), le(v.f, v.b), lt(v.b, v.avail),
                lt(v.avail, MAXSLOTS), le(0, v.bj), le(v.bj, bs), le(-1, v.fj), le(v.fj, bs - 1),
                eq(v.n, sub(add(mul(bs, sub(v.b, v.f)), v.bj), add(v.fj, 1))),
                # the slot one past the last block exists whenever an iterator to the end refers to it
                lt(add(v.b, 1), v.avail)]
        if self.kind == "sbv":
            full.append(le(2, v.avail))
        else:
            full.append(le(64, v.avail))
        r = [("size-bounds", And(le(0, v.n), le(0, v.D), le(0, v.F))),
             ("no-table-state", Implies(eq(v.D, 0), And(empty))),
             ("table-state", Implies(Not(eq(v.D, 0)), And(full))),
             ("free-list-state", And(le(0, v.fidx), le(v.fidx, v.favail), lt(v.favail, MAXSLOTS),
                                     Implies(eq(v.F, 0), eq(v.favail, 0)),
                                     Implies(Not(eq(v.F, 0)), And(sel(v.salloc, v.F), eq(sel(v.ssize, v.F), v.favail),
                                                                  lt(0, v.favail), Not(eq(v.F, v.D))))))]
        return r

    def inv_hyp(self, st, o):
        """assume the invariant of container o; uses the current ownership functions"""
        v = self.view(st, o)
        own, pos, sown = st.kv["own"], st.kv["pos"], st.kv["sown"]
        t = o.tag
        out = [f for _, f in self.struct(v)]
        # resource assumption: tables stay far below the range of int
        out.append(And(lt(v.avail, MAXSLOTS // 2), lt(v.favail, MAXSLOTS // 2)))
        i, j, k = fresh("i"), fresh("j"), fresh("k")
        bi = v.blk(i)
        out.append(forall([i], Implies(v.used(i), And(sel(v.alloc, bi), eq(sel(v.size, bi), self.bs), own(bi) == 2 * t,
                                                     pos(bi) == i)), [bi]))
        fk = sel(v.S, v.F, k)
        out.append(forall([k], Implies(And(le(0, k), lt(k, v.fidx)),
                                       And(sel(v.alloc, fk), eq(sel(v.size, fk), self.bs), own(fk) == 2 * t + 1,
                                           pos(fk) == k)), [fk]))
        out.append(forall([i, j], Implies(v.used(i), sel(v.live, bi, j) == And(le(0, j), lt(j, self.bs), le(0, v.p(i, j)),
                                                                               lt(v.p(i, j), v.n))),
                          [sel(v.live, bi, j)]))
        out.append(forall([k, j], Implies(And(le(0, k), lt(k, v.fidx)), z3.Not(sel(v.live, fk, j))), [sel(v.live, fk, j)]))
        out.append(Implies(Not(eq(v.D, 0)), sown(zi(v.D)) == t))
        out.append(Implies(Not(eq(v.F, 0)), sown(zi(v.F)) == t))
        # owned table entries are instantiated at the ends
        st.kv[("inv", o)] = self.signature(st, o)
        return out

    def signature(self, st, o):
        """everything the invariant of o depends on"""
        r = [c for _, (_, v) in sorted(st.mem[o].items()) for c in ((v.oid,) if isinstance(v, FPtr) else (v,))]
        r += [st.fam[k] for k in ("slots.p", "slots.alloc", "slots.size", "blk.alloc", "blk.size", "blk.e.live")]
        r += [st.gh["blk.ctr"], st.gh["slots.ctr"]]
        return tuple(r)

    def inv_known(self, st, o):
        """the invariant was assumed or proved for exactly this state"""
        a = st.kv.get(("inv", o))
        b = self.signature(st, o)
        return a is not None and len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))

    def inv_goal(self, st, o, pre, tags):
        """obligations establishing the invariant of o in st (ownership confined to tags and to new memory)"""
        v = self.view(st, o)
        own = st.kv["own"]
        out = [("inv:" + n, f) for n, f in self.struct(v)]
        i, i2, j, k, k2 = (fresh(x) for x in ("i", "i2", "j", "k", "k2"))
        bi, fk = v.blk(i), sel(v.S, v.F, k)
        pctr = st.kv["ctr0"]
        psctr = st.kv["sctr0"]
        isown = lambda b: Or([own(b) == 2 * t for t in tags] + [own(b) == 2 * t + 1 for t in tags] + [b >= zi(pctr)])
        ink = And(le(0, k), lt(k, v.fidx))
        out.append(("inv:used-blocks-allocated",
                    forall([i], Implies(v.used(i), And(sel(v.alloc, bi), eq(sel(v.size, bi), self.bs), isown(bi), bi > 0)))))
        out.append(("inv:free-blocks-allocated",
                    forall([k], Implies(ink, And(sel(v.alloc, fk), eq(sel(v.size, fk), self.bs), isown(fk), fk > 0)))))
        out.append(("inv:used-blocks-distinct",
                    forall([i, i2], Implies(And(v.used(i), v.used(i2), i < i2), Not(eq(bi, v.blk(i2)))))))
        out.append(("inv:free-blocks-distinct",
                    forall([k, k2], Implies(And(ink, k < k2, lt(k2, v.fidx)), Not(eq(fk, sel(v.S, v.F, k2)))))))
        out.append(("inv:free-blocks-not-in-use", forall([i, k], Implies(And(v.used(i), ink), Not(eq(bi, fk))))))
        out.append(("inv:exactly-the-elements-are-alive",
                    forall([i, j], Implies(v.used(i), sel(v.live, bi, j) == And(le(0, j), lt(j, self.bs), le(0, v.p(i, j)),
                                                                                lt(v.p(i, j), v.n))))))
        out.append(("inv:free-blocks-hold-no-element", forall([k, j], Implies(ink, z3.Not(sel(v.live, fk, j))))))
        sown = st.kv["sown"]
        for nm, d in (("table", v.D), ("free-list", v.F)):
            out.append(("inv:%s-storage-owned" % nm,
                        Or(eq(d, 0), le(psctr, d), And(Or([sown(zi(d)) == t for t in tags])))))
        return out

    def frame(self, st, pre, tags):
        """nothing outside the containers with these tags is touched"""
        own, sown = pre.kv["own"], pre.kv["sown"]
        o = fresh("o")
        foreign = And(sel(pre.fam["blk.alloc"], o), [own(o) != 2 * t for t in tags], [own(o) != 2 * t + 1 for t in tags],
                      lt(o, pre.kv["ctr0"]))
        sforeign = And(sel(pre.fam["slots.alloc"], o), [sown(o) != t for t in tags], lt(o, pre.kv["sctr0"]))
        out = []
        for key in ("blk.alloc", "blk.size", "blk.e.live", "blk.e.val"):
            a, b = pre.fam[key], st.fam[key]
            if not a.eq(b):
                out.append(("frame:" + key, forall([o], Implies(foreign, sel(b, o) == sel(a, o)), [sel(b, o)])))
        for key in ("slots.alloc", "slots.size", "slots.p"):
            a, b = pre.fam[key], st.fam[key]
            if not a.eq(b):
                out.append(("frame:" + key, forall([o], Implies(sforeign, sel(b, o) == sel(a, o)), [sel(b, o)])))
        return out

    def install(self, st, pre, objs):
        """assume the invariant of objs in st after their memory changed: new ownership functions"""
        tags = [o.tag for o in objs]
        own, sown = pre.kv["own"], pre.kv["sown"]
        c0, s0 = pre.kv["ctr0"], pre.kv["sctr0"]
        ghosts(st)
        o = fresh("o")
        own1, sown1, pos, pos1 = st.kv["own"], st.kv["sown"], pre.kv["pos"], st.kv["pos"]
        foreign = And(sel(pre.fam["blk.alloc"], o), [own(o) != 2 * t for t in tags], [own(o) != 2 * t + 1 for t in tags],
                      lt(o, c0))
        sforeign = And(sel(pre.fam["slots.alloc"], o), [sown(o) != t for t in tags], lt(o, s0))
        st.assume(forall([o], Implies(foreign, And(own1(o) == own(o), pos1(o) == pos(o))), [own(o)]))
        st.assume(forall([o], Implies(foreign, And(own1(o) == own(o), pos1(o) == pos(o))), [own1(o)]))
        st.assume(forall([o], Implies(sforeign, sown1(o) == sown(o)), [sown(o)]))
        st.assume(forall([o], Implies(sforeign, sown1(o) == sown(o)), [sown1(o)]))
        b = fresh("b")
        st.assume(forall([b], Implies(Or([own1(b) == 2 * t for t in tags] + [own1(b) == 2 * t + 1 for t in tags]),
                                      Not(foreign_at(b, pre, own, tags, c0))), [own1(b)]))
        for ob in objs:
            st.assume(self.inv_hyp(st, ob))

    def disjoint(self, st, objs):
        """no two containers share a block or a table"""
        out = []
        i, k = fresh("i"), fresh("k")
        for x in range(len(objs)):
            for y in range(x + 1, len(objs)):
                a, b = self.view(st, objs[x]), self.view(st, objs[y])
                for (ta, ina) in ((a.D, a.used), (a.F, lambda q, a=a: And(le(0, q), lt(q, a.fidx)))):
                    for (tb, inb) in ((b.D, b.used), (b.F, lambda q, b=b: And(le(0, q), lt(q, b.fidx)))):
                        out.append(("blocks-not-shared", forall([i, k], Implies(And(ina(i), inb(k)),
                                                                                 sel(a.S, ta, i) != sel(b.S, tb, k)))))
                        out.append(("tables-not-shared", Or(eq(ta, 0), Not(eq(ta, tb)))))
        return out

    def counts(self, st, pre, objs_pre, objs_post):
        a = sub(pre.gh["blk.n"], sum_([self.view(pre, o).owned for o in objs_pre]))
        b = sub(st.gh["blk.n"], sum_([self.view(st, o).owned for o in objs_post]))
        c = sub(pre.gh["slots.n"], sum_([self.view(pre, o).sowned for o in objs_pre]))
        d = sub(st.gh["slots.n"], sum_([self.view(st, o).sowned for o in objs_post]))
        return [("no-block-leaked-or-lost", eq(a, b)), ("no-table-leaked-or-lost", eq(c, d))]

    # ------------------------------------------------------------ relations
    def posrel(self, a, b, delta, hyp=False):
        """element at position p of a is at p+delta of b: same address, same value (where both exist)"""
        i, j, i0, j0 = (fresh(x) for x in ("i", "j", "i0", "j0"))
        guard = And(b.inr(i, j), a.inr(i0, j0), eq(b.p(i, j), add(a.p(i0, j0), delta)))
        pats = [(b.v(i, j), a.v(i0, j0))]
        addr = forall([i, j, i0, j0], Implies(guard, And(eq(b.blk(i), a.blk(i0)), j == j0)))
        val = forall([i, j, i0, j0], Implies(guard, eq(b.v(i, j), a.v(i0, j0))))
        return [("stable-address", addr, "stab"), ("kept-value", val, "seq")]


    def aligned(self, a, b):
        """b continues a at the back: the slots keep their distance from the front"""
        i, j = fresh("i"), fresh("j")
        ia = sub(add(i, a.f), b.f)
        addr = forall([i], Implies(And(b.occ(i), a.occ(ia)), b.blk(i) == a.blk(ia)), [b.blk(i)])
        val = forall([i, j], Implies(And(b.inr(i, j), a.inr(ia, j)), b.v(i, j) == a.v(ia, j)), [b.v(i, j)])
        return [("front-position-kept", Or(eq(a.D, 0), And(eq(a.fj, b.fj), Not(eq(b.D, 0)))), "core"),
                ("kept-blocks-stay-in-place", addr, "stab"),
                ("kept-block-contents", val, "seq")]


def foreign_at(o, pre, own, tags, c0):
    return And(sel(pre.fam["blk.alloc"], o), [own(o) != 2 * t for t in tags], [own(o) != 2 * t + 1 for t in tags],
               lt(o, c0))


def sum_(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def ghosts(st):
    st.kv["own"] = fresh_fn("own", I, I)
    st.kv["pos"] = fresh_fn("pos", I, I)
    st.kv["sown"] = fresh_fn("sown", I, I)
    st.kv["ctr0"] = st.gh["blk.ctr"]
    st.kv["sctr0"] = st.gh["slots.ctr"]


def intercepts():
    return elem_handlers() + alloc_handlers("blk") + new_handlers("slots") + exc_handlers()
