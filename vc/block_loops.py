"""Loop invariant candidates for the block containers.

Candidates are guesses: each one is an obligation at loop entry and must be
preserved by the body; those that are not are dropped (Houdini).  None is
trusted."""
from blocks import *


class BlockLoops:
    def __init__(self, ctx):
        self.c = ctx

    # ------------------------------------------------------------ helpers
    def view(self, s, o):
        try:
            return self.c.sp.view(s, o)
        except KeyError:
            return None

    def iters(self, s):
        """iterator objects: (obj, base offset) holding (slot pointer, element pointer, int)"""
        out = []
        for o, cells in s.mem.items():
            if o.kind not in ("alloca", "it"):
                continue
            for off in cells:
                v = cells[off][1]
                if isinstance(v, FPtr) and v.fam == "slots" and off + 8 in cells and off + 16 in cells and \
                   isinstance(cells[off + 8][1], FPtr) and cells[off + 8][1].fam == "blk" and cells[off + 16][0] == 4:
                    out.append((o, off))
        return out

    def counters(self, info, xs):
        """integer quantities that count iterations: (name, getter, entry value, step)"""
        out = []
        for (n, g, x0) in xs:
            if n.endswith(".oid") or n.startswith(("blk.", "slots.", "src.")):
                continue
            st = info.step(g)
            if st:
                out.append((n, g, x0, st))
        for (o, off) in self.iters(info.entry):
            if not any(m[0] == "m" and m[1] is o for m in info.mods):
                continue

            def pos(s, o=o, off=off):
                c = s.mem[o]
                return add(mul(self.c.bs, c[off][1].idx), c[off + 16][1])
            st = None
            # position of an iterator: linear in slot and offset
            try:
                a = pos(info.hs)
                ds = set()
                for s in info.found:
                    d = sub(pos(s), a)
                    ds.add(next((k for k in (1, -1, 0) if self.c.eng.entails_ground(s, eq(d, k))), None))
                if len(ds) == 1:
                    st = ds.pop()
            except KeyError:
                pass
            if st:
                out.append(("pos(%s.%d)" % (o.name, o.id), pos, pos(info.entry), st))
        return out

    # ------------------------------------------------------------ scalars
    def scalars(self, eng, st, info):
        out = []
        its = self.iters(info.entry)
        mod = [i for i in its if any(m[0] == "m" and m[1] is i[0] for m in info.mods)]
        if not mod:
            return out

        def pos(o, off):
            return lambda s: add(mul(self.c.bs, s.mem[o][off][1].idx), s.mem[o][off + 16][1])
        e = info.entry
        xs = info.scalars()
        its = mod + [i for i in its if i not in mod and info.recent(i[0])]
        for n, (o, off) in enumerate(its):
            p = pos(o, off)
            if (o, off) not in mod:
                continue
            nm = "pos(%s.%d)" % (o.name, o.id)
            out.append((nm + ".offset>=0", lambda s, o=o, off=off: le(0, s.mem[o][off + 16][1])))
            out.append((nm + ".offset<bs", lambda s, o=o, off=off: lt(s.mem[o][off + 16][1], self.c.bs)))
            out.append((nm + "=entry", lambda s, p=p: eq(p(e), p(s))))
            out.append((nm + ">=entry", lambda s, p=p: le(p(e), p(s))))
            for (o2, off2) in its:
                if o2 is o:
                    continue
                q = pos(o2, off2)
                k = "pos(%s.%d)" % (o2.name, o2.id)
                out.append((nm + "-" + k, lambda s, p=p, q=q: eq(sub(p(s), q(s)), sub(p(e), q(e)))))
                out.append((nm + "<=" + k, lambda s, p=p, q=q: le(p(s), q(s))))
            for (nx, g, x0) in xs:
                if nx.endswith(".oid"):
                    continue
                out.append((nm + "-" + nx, lambda s, p=p, g=g, x0=x0: eq(sub(p(s), g(s)), sub(p(e), x0))))
                out.append((nm + "+" + nx, lambda s, p=p, g=g, x0=x0: eq(add(p(s), g(s)), add(p(e), x0))))
        return out

    # ------------------------------------------------------------ candidates
    def cands(self, eng, st, info):
        c, sp, e = self.c, self.c.sp, info.entry
        fm = {m[1] for m in info.mods if m[0] == "f"}
        gm = {m[1] for m in info.mods if m[0] == "g"}
        cellmods = {(m[1], m[2]) for m in info.mods if m[0] == "m"}
        cs = self.counters(info, info.scalars())
        out = []
        views = [(o, self.view(e, o)) for o in c.objs]
        views = [(o, v) for o, v in views if v is not None]
        self.rows(info, fm, cs, out, views)
        if "slots.p" in info.opaque:
            # the body calls contracts only
            for o, v in views:
                if (o, sp.off["csize"]) in cellmods:
                    self.growing(info, o, v, out, cs)
            self.source_rest(info, out)
            self.iterators(info, out)
            return out
        if {"blk.e.live", "blk.alloc"} & fm & info.varying and "blk.ctr" not in gm:
            self.tables(info, fm & info.varying, cs, views, out)
        if "slots.p" in fm and "blk.ctr" not in gm:
            for o, v in views:
                if (o, sp.off["freeblocks"]) in cellmods or (o, sp.off["freeIndex"]) in cellmods:
                    self.freelist(info, cs, o, v, out)
        if "blk.ctr" in gm:
            for o, v in views:
                self.fresh_blocks(info, fm, cs, o, v, out)
        for o, v in views:
            if (o, sp.off["csize"]) in cellmods:
                self.growing(info, o, v, out, cs)
        if "blk.e.val" in fm and "blk.e.live" not in fm:
            for o, v in views:
                self.assigning(info, cs, o, v, out)
        self.source_rest(info, out)
        self.iterators(info, out)
        return out

    def source_rest(self, info, out):
        """the part of a source range that was not read yet is unchanged"""
        c = self.c
        if c.src is None or ("f", "src.e.val") not in info.mods:
            return
        so, k0, m = c.src
        k = fresh("k")
        for o, cells in info.entry.mem.items():
            for off, (sz, v) in cells.items():
                if isinstance(v, FPtr) and v.fam == "src" and ("m", o, off) in info.mods:
                    out.append(("source-not-yet-read:%s+%d" % (o.name, off),
                                lambda s, o=o, off=off: forall([k], Implies(le(s.mem[o][off][1].idx, k),
                                                                            sel(s.fam["src.e.val"], so, k) ==
                                                                            sel(c.pre.fam["src.e.val"], so, k)),
                                                               [sel(s.fam["src.e.val"], so, k)])))

    @staticmethod
    def spans(x, x0, step):
        """index ranges already processed by a counter"""
        r = []
        for d in (0, 1, -1):
            if step > 0:
                r.append((d, lambda s, d=d: (add(x0, d), add(x(s), d))))
            else:
                r.append((d, lambda s, d=d: (add(x(s), d), add(x0, d))))
        return r

    def rows(self, info, fm, cs, out, views=()):
        e = info.entry
        for key in sorted(info.written):
            lst = info.written[key]
            if key not in fm or key.endswith((".alloc", ".size")) or not lst:
                continue
            oids = []
            for o, w in lst:
                if not any(o.eq(q) for q in oids):
                    oids.append(o)
            q = fresh("q")
            out.append(("only-rows:%s" % key,
                        lambda s, key=key, oids=oids, q=q: forall([q], Implies(And([q != x for x in oids]),
                                                                               sel(s.fam[key], q) == sel(e.fam[key], q)),
                                                                  [sel(s.fam[key], q)])))
            j = fresh("j")
            for n, o in enumerate(oids):
                ws = [w for (q2, w) in lst if w is not None and q2.eq(o)]
                for (nx, g, x0, step) in cs:
                    for d, span in self.spans(g, x0, step):
                        for k, w in enumerate(ws):
                            def f(s, key=key, o=o, w=w, span=span):
                                lo, hi = span(s)
                                return forall([j], sel(s.fam[key], o, j) == If(And(le(lo, j), lt(j, hi)), w,
                                                                              sel(e.fam[key], o, j)), [sel(s.fam[key], o, j)])
                            out.append(("row:%s:%d:%s:%d:%d" % (key, n, nx, d, k), f))
                        if not ws:
                            def f(s, key=key, o=o, span=span):
                                lo, hi = span(s)
                                return forall([j], Or(And(le(lo, j), lt(j, hi)), eq(sel(s.fam[key], o, j),
                                                                                   sel(e.fam[key], o, j))),
                                              [sel(s.fam[key], o, j)])
                            out.append(("row-outside:%s:%d:%s:%d" % (key, n, nx, d), f))
                            if key != "slots.p":
                                continue
                            # a pointer table copied from another table
                            for ob, v in views:
                                for tn, T in (("D", v.D), ("F", v.F)):
                                    if isc(T) and T == 0:
                                        continue

                                    def f(s, key=key, o=o, span=span, T=T):
                                        lo, hi = span(s)
                                        return forall([j], sel(s.fam[key], o, j) == If(And(le(lo, j), lt(j, hi)), sel(e.fam[key], T, j),
                                                                                      sel(e.fam[key], o, j)), [sel(s.fam[key], o, j)])
                                    out.append(("table-copied:%s.%s:%d:%s:%d" % (ob.name, tn, n, nx, d), f))

    def tables(self, info, fm, cs, views, out):
        e = info.entry
        pos = e.kv["pos"]
        Se = e.fam["slots.p"]
        for ob, v in views:
            for tn, T in (("D", v.D), ("F", v.F)):
                if isc(T) and T == 0:
                    continue
                for (nx, g, x0, step) in cs:
                    for d, span in self.spans(g, x0, step):
                        for key in ("blk.e.live", "blk.alloc"):
                            if key not in fm:
                                continue
                            q, i, j = fresh("q"), fresh("i"), fresh("j")

                            def keep(s, key=key, T=T, span=span, q=q):
                                lo, hi = span(s)
                                ino = And(le(lo, pos(q)), lt(pos(q), hi), eq(sel(Se, T, pos(q)), q))
                                return forall([q], Implies(Not(ino), sel(s.fam[key], q) == sel(e.fam[key], q)),
                                              [sel(s.fam[key], q)])

                            def gone(s, key=key, T=T, span=span, i=i, j=j):
                                lo, hi = span(s)
                                b = sel(Se, T, i)
                                if key == "blk.alloc":
                                    return forall([i], Implies(And(le(lo, i), lt(i, hi)), z3.Not(sel(s.fam[key], b))), [b])
                                return forall([i, j], Implies(And(le(lo, i), lt(i, hi)), z3.Not(sel(s.fam[key], b, j))),
                                              [sel(s.fam[key], b, j)])
                            nm = "%s:%s.%s:%s:%d" % (key, ob.name, tn, nx, d)
                            out.append(("only-slots:" + nm, keep))
                            out.append(("slots-done:" + nm, gone))

    def freelist(self, info, cs, ob, v, out):
        e, sp = info.entry, self.c.sp
        k, q = fresh("k"), fresh("q")

        def base(s):
            w = sp.view(s, ob)
            r = [f for n, f in sp.struct(w) if n == "free-list-state"]
            r.append(Or(eq(w.F, v.F), le(v.sctr, w.F)))
            r.append(le(v.fidx, w.fidx))
            r.append(eq(sub(w.sn, If(eq(w.F, 0), 0, 1)), sub(v.sn, If(eq(v.F, 0), 0, 1))))
            r.append(lt(w.F, w.sctr))
            for key in ("slots.p", "slots.alloc", "slots.size"):
                r.append(forall([q], Implies(And(lt(q, v.sctr), Not(eq(q, v.F))), sel(s.fam[key], q) == sel(e.fam[key], q)),
                                [sel(s.fam[key], q)]))
            r.append(forall([k], Implies(And(le(0, k), lt(k, v.fidx)), sel(w.S, w.F, k) == sel(v.S, v.F, k)), [sel(w.S, w.F, k)]))
            return r

        def hyp(s):
            w = sp.view(s, ob)
            s.assume([conc(x) for x in base(s)])
            s.assume(And(lt(w.favail, MAXSLOTS // 2)))
        out.append(("free-list-grows:" + ob.name, base, hyp))
        for (nx, g, x0, step) in cs:
            for d in (0, 1, -1):
                def f(s, g=g, x0=x0, step=step, d=d):
                    w = sp.view(s, ob)
                    at = add(add(x0, d), mul(step, sub(k, v.fidx)))
                    return forall([k], Implies(And(le(v.fidx, k), lt(k, w.fidx)), eq(sel(w.S, w.F, k), sel(v.S, v.D, at))),
                                  [sel(w.S, w.F, k)])
                out.append(("freed-in-order:%s:%s:%d" % (ob.name, nx, d), f))

    def fresh_blocks(self, info, fm, cs, ob, v, out):
        e, c = info.entry, self.c
        ce = v.ctr
        q, i, j = fresh("q"), fresh("i"), fresh("j")
        for key in ("blk.alloc", "blk.size", "blk.e.live", "blk.e.val"):
            if key in fm:
                out.append(("old-blocks-kept:" + key,
                            lambda s, key=key: forall([q], Implies(lt(q, ce), sel(s.fam[key], q) == sel(e.fam[key], q)),
                                                      [sel(s.fam[key], q)])))
        new = lambda s: And(le(ce, q), lt(q, s.gh["blk.ctr"]))
        out.append(("new-blocks-allocated", lambda s: forall([q], Implies(new(s), sel(s.fam["blk.alloc"], q)),
                                                             [sel(s.fam["blk.alloc"], q)])))
        out.append(("new-blocks-size", lambda s: forall([q], Implies(new(s), eq(sel(s.fam["blk.size"], q), c.bs)),
                                                        [sel(s.fam["blk.size"], q)])))
        for (nx, g, x0, step) in cs:
            if step < 0 or nx.startswith("blk."):
                continue
            out.append(("slots-hold-new-blocks:" + nx,
                        lambda s, g=g, x0=x0: forall([i], sel(s.fam["slots.p"], v.D, i) ==
                                                     If(And(le(x0, i), lt(i, g(s))), add(ce, sub(i, x0)),
                                                        sel(e.fam["slots.p"], v.D, i)), [sel(s.fam["slots.p"], v.D, i)])))
        inblk = And(le(0, j), lt(j, c.bs))
        lin = add(mul(c.bs, sub(q, ce)), j)
        lives = [("full", lambda s: inblk)]
        if isz(v.n):
            lives.append(("linear", lambda s: And(inblk, lt(lin, v.n))))
        lives.append(("none", lambda s: False))
        for nm, f in lives:
            out.append(("new-blocks-live:" + nm,
                        lambda s, f=f: forall([q, j], Implies(new(s), sel(s.fam["blk.e.live"], q, j) == zb(f(s))),
                                              [sel(s.fam["blk.e.live"], q, j)])))
        if c.initval is not None:
            out.append(("new-blocks-value",
                        lambda s: forall([q, j], Implies(And(new(s), sel(s.fam["blk.e.live"], q, j)),
                                                         sel(s.fam["blk.e.val"], q, j) == c.initval),
                                         [sel(s.fam["blk.e.val"], q, j)])))

    def growing(self, info, ob, v, out, cs):
        """loops of pushes and pops: the whole invariant holds at every iteration"""
        e, c, sp = info.entry, self.c, self.c.sp

        def inv(s):
            return (sp.inv_goal(s, ob, e, [ob.tag]) + sp.frame(s, e, [ob.tag]) + sp.counts(s, e, [ob], [ob]))

        def hyp(s):
            for n, f in sp.frame(s, e, [ob.tag]) + sp.counts(s, e, [ob], [ob]):
                s.assume(f)
            sp.install(s, e, [ob])
        out.append(("invariant:" + ob.name, inv, hyp))
        for k in range(3):
            out.append(("aligned%d:%s" % (k, ob.name), lambda s, k=k: sp.aligned(v, sp.view(s, ob))[k][1]))
        self.from_source(ob, out, lambda s: sp.view(s, ob).n, "size")
        for (nx, g, x0, step) in cs:
            if step > 0 and "pos(" not in nx:
                self.from_source(ob, out, lambda s, g=g, x0=x0: sub(g(s), x0), nx)

    def from_source(self, ob, out, limit, nm):
        """elements at positions below limit already equal the source sequence"""
        c, sp = self.c, self.c.sp
        i, j = fresh("i"), fresh("j")
        if c.src is not None:
            so, k0, m = c.src
            sv = c.pre.fam["src.e.val"]

            def f(s):
                w = sp.view(s, ob)
                return forall([i, j], Implies(And(w.inr(i, j), lt(w.p(i, j), limit(s))),
                                              eq(w.v(i, j), sel(sv, so, add(k0, w.p(i, j))))), [w.v(i, j)])
            out.append(("copied-below:" + nm, f))
        if c.srcseq is not None:
            def f2(s):
                w = sp.view(s, ob)
                return forall([i, j], Implies(And(w.inr(i, j), lt(w.p(i, j), limit(s))),
                                              eq(w.v(i, j), c.srcseq(zi(w.p(i, j))))), [w.v(i, j)])
            out.append(("copied-below:" + nm, f2))

    def assigning(self, info, cs, ob, v, out):
        e, c, sp = info.entry, self.c, self.c.sp
        own = e.kv["own"]
        q, i, j = fresh("q"), fresh("i"), fresh("j")
        out.append(("only-own-values:" + ob.name,
                    lambda s: forall([q], Implies(And(own(q) != 2 * ob.tag, lt(q, e.kv["ctr0"])),
                                                  sel(s.fam["blk.e.val"], q) == sel(e.fam["blk.e.val"], q)),
                                     [sel(s.fam["blk.e.val"], q)])))
        out.append(("values-kept:" + ob.name,
                    lambda s: forall([i, j], Implies(v.inr(i, j), sel(s.fam["blk.e.val"], v.blk(i), j) == v.v(i, j)),
                                     [sel(s.fam["blk.e.val"], v.blk(i), j)])))
        for (nx, g, x0, step) in cs:
            if step < 0:
                continue
            lim = lambda s, g=g, x0=x0: sub(g(s), x0)
            self.from_source(ob, out, lim, nx)

            def rest(s, lim=lim):
                w = sp.view(s, ob)
                return forall([i, j], Implies(And(w.inr(i, j), le(lim(s), w.p(i, j))), eq(w.v(i, j), v.v(i, j))), [w.v(i, j)])
            out.append(("not-yet-assigned:%s:%s" % (ob.name, nx), rest))

    def iterators(self, info, out):
        e = info.entry
        for (o, off) in self.iters(e):
            if not any(m[0] == "m" and m[1] is o for m in info.mods):
                continue

            def f(s, o=o, off=off):
                cl = s.mem[o]
                vec, ptr, k = cl[off][1], cl[off + 8][1], cl[off + 16][1]
                return And(eq(vec.oid, e.mem[o][off][1].oid), eq(ptr.oid, sel(s.fam["slots.p"], vec.oid, vec.idx)),
                           eq(ptr.idx, k))

            def h(s, o=o, off=off):
                cl = s.mem[o]
                vec, k = cl[off][1], cl[off + 16][1]
                vec = FPtr("slots", e.mem[o][off][1].oid, vec.idx, vec.off)
                cl[off] = (8, vec)
                cl[off + 8] = (8, FPtr("blk", sel(s.fam["slots.p"], vec.oid, vec.idx), k, 0))
            out.append(("iterator-valid:%s.%d" % (o.name, o.id), f, h))
