"""Units: MappedVector, StringMappedVector, MappedPointerVector, DualMappedVector, DualStringMappedVector,
DualMappedPointerVector and the mapFind helpers."""
import re
from mapmodel import *
from units import *

KINDS = {   # kind: (driver, VKIND, class, fields, data family, maps)
    "mv": ("mv", None, r"::MappedVector<", ["dataStorage", "lookup"], "vs", [("lookup", "mk", 1)]),
    "smv": ("smv", None, r"::StringMappedVector<", ["dataStorage", "names", "lookup"], "vs", [("lookup", "ms", 1)]),
    "mpv": ("mpv", None, r"::MappedPointerVector<", ["dataStorage", "lookup"], "pv", [("lookup", "mk", 1)]),
    "dmv": ("dmv", 0, r"::DualMappedVector<", ["dataStorage", "lookup1", "lookup2"], "vs", [("lookup1", "mk", 1), ("lookup2", "mk", 2)]),
    "dsv": ("dmv", 1, r"::DualStringMappedVector<", ["dataStorage", "lookup1", "names", "lookup2"], "vs", [("lookup1", "ms", 1), ("lookup2", "mk", 2)]),
    "fn": ("mapops", None, None, [], "vs", []),
    "dpv": ("dmv", 2, r"::DualMappedPointerVector<", ["dataStorage", "lookup1", "lookup2"], "pv", [("lookup1", "mk", 1), ("lookup2", "mk", 2)]),
}
LAST_FN = {}
fm = z3.Function("modified", I, I)
ft = z3.Function("transformed", I, I)
MAPS, DEL, COPY = ("map",), ("del",), ("map",)
OBJF = "obj.e.val"


def DEFS(drv, variant):
    d = ["VN=%d" % (variant % 10)]
    if drv == "dmv":
        d.append("VKIND=%d" % (variant // 10))
    return d


class View:
    """abstract value of one container"""

    def __init__(self, sp, s, o):
        self.sp, self.s = sp, s
        c = s.mem[o]
        b, e = c[sp.off["dataStorage"]][1], c[sp.off["dataStorage"] + 8][1]
        self.sid, self.n = b.oid, sub(e.idx, b.idx)
        self.fam = b.fam
        self.row = "vs.e.val" if self.fam == "vs" else "pv.p"
        self.maps = [(c[sp.off[x]][1].fam, c[sp.off[x]][1].oid) for x, f, k in sp.maps]
        self.nsid = c[sp.off["names"]][1].oid if "names" in sp.off else None

    def val(self, j):
        return sel(self.s.fam[self.row], self.sid, j)

    def cont(self, j):
        """content of element j"""
        return self.val(j) if self.fam == "vs" else sel(self.s.fam[OBJF], self.val(j), 0)

    def inr(self, j):
        return And(le(0, j), lt(j, self.n))

    def b(self, i, k):
        f, m = self.maps[i]
        return sel(self.s.fam[f + ".b"], m, k)

    def v(self, i, k):
        f, m = self.maps[i]
        return sel(self.s.fam[f + ".v"], m, k)


class Spec:
    def __init__(self, kind, stab, built, name, deadline):
        self.kind, self.stab = kind, stab
        drv, vk, cls, fields, self.data, self.maps = KINDS[kind]
        self.off = build.field_map(build.find_layout(built.layouts, cls), fields) if cls else {}
        self.eng = new_engine(built, FAMS, [], name, dict(Model.opts()), deadline)
        self.eng.tags = ("core",)
        self.eng.assumptions |= {"element and key operations and allocation do not throw", "fewer than 2^58 elements",
                                 "hashing, comparison and equality of keys are pure and consistent",
                                 "assignment and construction from a distinct object"}
        self.st = State()
        self.eng.fam_init(self.st)
        self.m = Model(self.st, self.eng)
        self.eng.intercepts[:0] = self.functors() + self.m.handlers()
        self.st.gh["vis.n"] = 0
        self.objs = []
        self.H, self.S = arr("holder"), arr("slot")
        self.idxs = []
        self.vec = not stab
        self.eng.loopcands = self.cands

    # ------------------------------------------------------------ functors
    def functors(self):
        def loc(eng, st, p, what):
            v = View(self, st, self.this)
            if not isinstance(p, FPtr):
                raise Unsupported("functor applied to %r" % (p,))
            i = st.gh["vis.n"]
            if v.fam == "vs":
                eng.check(st, And(p.fam == "vs", eq(p.oid, v.sid), eq(p.idx, i)), "functor-applied-in-order", MAPS)
            else:
                eng.check(st, eq(v.val(i), p.oid), "functor-applied-in-order", MAPS)
            st.gh["vis.n"] = add(i, 1)
            if v.fam == "pv":
                return None
            e = eng.elem_get(st, eng.elem_loc(st, p, what))
            eng.check(st, e.live, "functor-sees-a-live-element", MAPS)
            return e.val

        def visit(eng, st, fn, a, ins):
            loc(eng, st, a[0], "visit")
            return None

        def modify(eng, st, fn, a, ins):
            x = loc(eng, st, a[0], "modify")
            eng.elem_set(st, eng.elem_loc(st, a[0], "modify"), Elem(True, fm(zi(x))), False)
            return None

        def transform(eng, st, fn, a, ins):
            x = loc(eng, st, a[1], "transform")
            eng.elem_set(st, eng.elem_loc(st, a[0], "transform"), Elem(True, ft(zi(x))))
            return None
        return [(rx(r"^vc_visit\("), visit), (rx(r"^vc_visit_ptr\("), visit), (rx(r"^vc_modify\("), modify), (rx(r"^vc_transform\("), transform)]

    # ----------------------------------------------------------- pre-states
    def raw(self, name):
        o = Obj(name, None)
        self.st.mem[o] = {}
        return o

    def container(self, name):
        st, m = self.st, self.m
        o = self.raw(name)
        c = st.mem[o]
        n = fresh(name + ".n")
        st.assume(And(le(0, n), lt(n, 2 ** 57)))
        f = self.data

        def ident(fam):
            k = fresh(name + "." + fam)
            st.assume(And(sel(st.fam[fam + ".alloc"], k), lt(0, k), lt(k, st.gh[fam + ".ctr"])))
            for o2 in self.objs:
                for off, (sz, v) in st.mem[o2].items():
                    if isinstance(v, FPtr) and v.fam == fam:
                        st.assume(Not(eq(v.oid, k)))
            for off, (sz, v) in c.items():
                if isinstance(v, FPtr) and v.fam == fam:
                    st.assume(Not(eq(v.oid, k)))
            return k
        sid = ident(f)
        m.put(self.eng, st, Ptr(o, self.off["dataStorage"]), f, sid, n, self.vec)
        st.assume(eq(sel(st.fam[f + ".size"], sid), n))
        if "names" in self.off:
            nn = fresh(name + ".names")
            st.assume(And(le(0, nn), lt(nn, 2 ** 57)))
            ns = ident("nm")
            m.put(self.eng, st, Ptr(o, self.off["names"]), "nm", ns, nn, False)
            st.assume(eq(sel(st.fam["nm.size"], ns), nn))
        for x, mf, kt in self.maps:
            k = ident(mf)
            c[self.off[x]] = (8, FPtr(mf, k, 0))
            m.reorder(st, mf, k)
            st.assume(Not(sel(st.fam[mf + ".b"], k, END)))
        self.objs.append(o)
        v = View(self, st, o)
        for nm, g in self.inv(st, o, True):
            st.assume(g)
        if f == "pv":
            j, q = fresh("j"), fresh("o")
            p = v.val(j)
            al = st.fam["obj.alloc"]
            H, S = self.H, self.S
            st.assume(forall([j], Implies(And(v.inr(j), Not(eq(p, 0))), And(eq(sel(H, p), sid), eq(sel(S, p), j))), [p]))
            st.assume(forall([q], Implies(And(sel(al, q), eq(sel(H, q), sid)), And(v.inr(sel(S, q)), eq(v.val(sel(S, q)), q))), [sel(H, q)]))
        return o

    def inv(self, s, o, hyp=False):
        """class invariant"""
        v = View(self, s, o)
        j, k, i = fresh("j"), fresh("k"), fresh("i")
        f = v.fam
        out = [("storage-alive", And(sel(s.fam[f + ".alloc"], v.sid), eq(sel(s.fam[f + ".size"], v.sid), v.n), le(0, v.n)))]
        if f == "vs":
            lv = sel(s.fam["vs.e.live"], v.sid, j)
            out.append(("elements-alive-exactly-inside", forall([j], lv == v.inr(j), [lv])))
        else:
            p = v.val(j)
            out.append(("owned-elements-alive", forall([j], Implies(And(v.inr(j), Not(eq(p, 0))), And(
                sel(s.fam["obj.alloc"], p), sel(s.fam["obj.e.live"], p, 0), eq(sel(s.fam["obj.size"], p), 1))), [p])))
            if not hyp:
                q = v.val(i)
                out.append(("owned-elements-distinct", forall([i, j], Implies(And(v.inr(i), v.inr(j), Not(eq(i, j)), Not(eq(p, 0))), Not(eq(p, q))), [z3.MultiPattern(p, q)])))
        if v.nsid is not None:
            out.append(("names-alive", sel(s.fam["nm.alloc"], v.nsid)))
        for x, (mf, m) in enumerate(v.maps):
            b = v.b(x, k)
            out.append(("keys%d-resolve-inside" % (x + 1), And(sel(s.fam[mf + ".alloc"], m), forall([k], Implies(b, v.inr(v.v(x, k))), [b]))))
            if mf == "ms":
                p = sel(s.fam["ms.p"], m, k)
                out.append(("keys%d-name-own-strings" % (x + 1), forall([k], Implies(b, And(
                    sel(s.fam["chr.alloc"], p), eq(sel(self.m.C, p), k), eq(sel(self.m.OWN, p), v.nsid), eq(sel(s.fam["ms.len"], m, k), sel(self.m.L, p)))), [b])))
        return out

    def key(self, i):
        """a key argument of key space i -> (argument list, key id)"""
        st = self.st
        if self.maps[i][1] == "ms":
            b = fresh("sv")
            ln = sel(self.m.L, b)
            st.assume(And(sel(st.fam["chr.alloc"], b), le(0, ln), lt(ln, 2 ** 62)))
            k = sel(self.m.C, b)
            st.assume(Not(eq(k, END)))
            return [ln, FPtr("chr", b, 0)], k
        o = Obj("key", 24)
        k = fresh("key")
        st.assume(Not(eq(k, END)))
        st.mem[o] = {0: (24, Elem(True, k))}
        return [Ptr(o, 0)], k

    def elem(self, name="arg"):
        e = Obj(name, 24)
        x = fresh(name)
        self.st.mem[e] = {0: (24, Elem(True, x))}
        return e, x

    def uptr(self):
        st = self.st
        q = fresh("ptr")
        o = Obj("up", 8)
        st.mem[o] = {0: (8, FPtr("obj", q, 0))}
        st.assume(Or(eq(q, 0), And(sel(st.fam["obj.alloc"], q), sel(st.fam["obj.e.live"], q, 0), eq(sel(st.fam["obj.size"], q), 1))))
        for o2 in self.objs:
            st.assume(Implies(Not(eq(q, 0)), Not(eq(sel(self.H, q), View(self, st, o2).sid))))
        return o, q

    def size_arg(self):
        n = fresh("index")
        self.st.assume(And(le(-2 ** 63, n), lt(n, 2 ** 63)))
        return n

    def out(self, name):
        o = Obj(name, None)
        self.st.mem[o] = {}
        return o

    # ---------------------------------------------------------------- goals
    def go(self, fn, args, post, throws=False):
        self.pre = self.st.snap()

        def p2(kind, s, v):
            g = list(post(kind, s, v))
            for o in self.alive(kind):
                g += [(n, f, ("core",)) for n, f in self.inv(s, o)]
            return g
        return drive(self.eng, self.st, fn, args, p2, throws)

    def alive(self, kind):
        return self.live_post

    def same_data(self, a, b, upto=None):
        j = fresh("j")
        g = [("elements-unchanged", And(eq(a.n, b.n), forall([j], Implies(a.inr(j), eq(a.val(j), b.val(j))), [b.val(j)])))]
        if a.fam == "pv":
            g.append(("element-contents-unchanged", forall([j], Implies(And(a.inr(j), Not(eq(a.val(j), 0))), eq(sel(a.s.fam[OBJF], a.val(j), 0), sel(b.s.fam[OBJF], a.val(j), 0))), [a.val(j)])))
        return g

    def same_map(self, a, b, i, except_=()):
        k = fresh("k")
        ex = [Not(eq(k, x)) for x in except_]
        return [("bindings%d-%sunchanged" % (i + 1, "others-" if ex else ""), forall([k], Implies(And(*ex) if ex else True, And(a.b(i, k) == b.b(i, k), Implies(a.b(i, k), eq(a.v(i, k), b.v(i, k))))), [b.b(i, k)]))]

    def unchanged(self, a, b):
        g = self.same_data(a, b)
        for i in range(len(a.maps)):
            g += self.same_map(a, b, i)
        if a.fam == "pv":
            g += self.objs_rel(a.s, b.s, lambda o: a_alloc(a.s, o))
        g += self.stays(a, b)
        return g

    def stays(self, a, b):
        """element addresses: stable storage keeps its sequence"""
        if self.stab and a.fam == "vs":
            return [("elements-stay-in-place", eq(a.sid, b.sid))]
        return []

    def objs_rel(self, s0, s, rhs):
        o = fresh("o")
        al = sel(s.fam["obj.alloc"], o)
        return [("owned-elements-neither-lost-nor-leaked", forall([o], al == rhs(o), [al]))]

    def bound(self, b, i, k, n):
        return [("key%d-bound-to-the-element" % (i + 1), And(b.b(i, k), eq(b.v(i, k), n)))]

    def engaged(self, s, r):
        c = s.mem[r]
        if 8 not in c:
            raise Unsupported("optional layout")
        e = c[8][1]
        return self.eng.as_bool(e)

    def tagged(self, gs, tags):
        return [(n, f, tags) for n, f in gs]

    # ------------------------------------------------------------ candidates
    def cands(self, eng, st, info):
        E = info.entry
        out = []
        cur = []
        for m in info.mods:
            if m[0] == "m" and m[1] in E.mem and m[2] in E.mem[m[1]]:
                x = E.mem[m[1]][m[2]][1]
                if isinstance(x, FPtr) and x.fam in ("mk", "ms", "me"):
                    cur.append((m[1], m[2], x))
        cur.sort(key=lambda q: (q[0].id, q[1]))
        maps = []      # (object, offset, family, mid)
        lists = []
        for o, cells in E.mem.items():
            for off, (sz, x) in cells.items():
                if isinstance(x, FPtr) and isc(x.idx) and x.idx == 0 and not (off - 8 in cells and isinstance(cells[off - 8][1], FPtr) and cells[off - 8][1].fam == x.fam):
                    if x.fam in ("mk", "ms"):
                        maps.append((o, off, x.fam, x.oid))
                    if x.fam in ("kl", "vl") and off + 8 in cells and isinstance(cells[off + 8][1], FPtr):
                        lists.append((o, off, x.fam, x.oid))
        modf = {m[1] for m in info.mods if m[0] == "f"}

        def same_row(name, oid):
            return lambda s: z3.Select(s.fam[name], zi(oid)) == z3.Select(E.fam[name], zi(oid))

        for (o, off, f, mid) in maps:
            tag = "%s%d+%d" % (o.name, o.id, off)
            for q in {"mk": ("b", "v", "rk"), "ms": ("b", "v", "rk", "p", "len")}[f]:
                if f + "." + q in modf:
                    out.append(("%s.%s-row-unchanged" % (tag, q), same_row(f + "." + q, mid)))
        for (o, off, f, lid) in lists:
            for q in {"kl": ("pos", "e.val", "e.live", "size", "alloc"), "vl": ("pos", "p", "len", "size", "alloc")}[f]:
                if f + "." + q in modf:
                    out.append(("%s%d+%d.%s-row-unchanged" % (o.name, o.id, off, q), same_row(f + "." + q, lid)))
        for (o, off, x) in cur:
            f, mid = x.fam, x.oid
            rk = z3.Select(E.fam[f + ".rk"], zi(mid))
            bE, vE = z3.Select(E.fam[f + ".b"], zi(mid)), z3.Select(E.fam[f + ".v"], zi(mid))
            nm = "%s%d+%d" % (o.name, o.id, off)

            def at(s, o=o, off=off):
                return s.mem[o][off][1]

            def proc(s, k, at=at, rk=rk):
                c = at(s).idx
                return Or(eq(c, END), lt(sel(rk, k), sel(rk, c)))
            out.append((nm + ".in-map", lambda s, at=at, mid=mid: eq(at(s).oid, mid)))
            out.append((nm + ".denotes-entry", lambda s, at=at, f=f, mid=mid: Or(eq(at(s).idx, END), sel(s.fam[f + ".b"], mid, at(s).idx))))
            k = fresh("k")
            b, v = f + ".b", f + ".v"
            for ix, idx in enumerate(self.idxs):
                if v in modf:
                    for shift in (True, False):
                        def shifted(s, proc=proc, mid=mid, vE=vE, v=v, bE=bE, idx=idx, shift=shift, both=b in modf):
                            w = sel(vE, k)
                            return forall([k], Implies(sel(bE, k), sel(s.fam[v], mid, k) == (zi(If(And(proc(s, k), lt(idx, w)), sub(w, 1), w)) if shift else w)),
                                          [sel(s.fam[v], mid, k)] + ([sel(bE, k)] if both else []))
                        out.append(("%s.positions-%s-%d" % (nm, "shifted" if shift else "kept", ix), shifted))
                if b in modf:
                    def erased(s, proc=proc, mid=mid, vE=vE, bE=bE, b=b, idx=idx):
                        return forall([k], sel(s.fam[b], mid, k) == And(sel(bE, k), Not(And(proc(s, k), eq(sel(vE, k), idx)))), [sel(s.fam[b], mid, k), sel(bE, k)])
                    out.append(("%s.entries-erased-%d" % (nm, ix), erased))
                for (lo, loff, lf, lid) in lists:
                    if lf + ".pos" not in modf:
                        continue
                    ln = "%s<-%s%d" % (nm, lo.name, lo.id)
                    pos = lf + ".pos"

                    def coll(s, proc=proc, vE=vE, bE=bE, idx=idx, lid=lid, pos=pos):
                        return forall([k], le(0, sel(s.fam[pos], lid, k)) == And(sel(bE, k), proc(s, k), eq(sel(vE, k), idx)), [sel(s.fam[pos], lid, k)])
                    out.append(("%s.collected-%d" % (ln, ix), coll))
            # copies into another map
            for (o2, off2, f2, mid2) in maps:
                if f2 != f or f + ".b" not in modf:
                    continue
                nn = "%s->%s%d+%d" % (nm, o2.name, o2.id, off2)

                def copied(s, proc=proc, mid2=mid2, bE=bE, b=b):
                    return forall([k], sel(s.fam[b], mid2, k) == And(sel(bE, k), proc(s, k)), [sel(s.fam[b], mid2, k)])

                def cvals(s, proc=proc, mid2=mid2, bE=bE, vE=vE, v=v, b=b):
                    return forall([k], Implies(sel(s.fam[b], mid2, k), eq(sel(s.fam[v], mid2, k), sel(vE, k))), [sel(s.fam[b], mid2, k)])
                out.append((nn + ".copied", copied))
                out.append((nn + ".values-copied", cvals))
        # strings named by a map that is being filled
        for (o, off, f, mid) in maps:
            if f != "ms" or "ms.b" not in modf:
                continue
            for (o3, off3) in [(q, y) for q, cs in E.mem.items() for y, (sz, x) in cs.items() if isinstance(x, FPtr) and x.fam == "nm" and isc(x.idx) and x.idx == 0
                               and not (y - 8 in cs and isinstance(cs[y - 8][1], FPtr) and cs[y - 8][1].fam == x.fam)]:
                k = fresh("k")

                def named(s, mid=mid, o3=o3, off3=off3):
                    p = sel(s.fam["ms.p"], mid, k)
                    b = sel(s.fam["ms.b"], mid, k)
                    return forall([k], Implies(b, And(sel(s.fam["chr.alloc"], p), eq(sel(self.m.C, p), k), eq(sel(self.m.OWN, p), s.mem[o3][off3][1].oid),
                                                      eq(sel(s.fam["ms.len"], mid, k), sel(self.m.L, p)))), [b])
                out.append(("%s%d+%d.names-in-%s+%d" % (o.name, o.id, off, o3.name, off3), named))
        if "chr.alloc" in modf:
            def strs(s):
                p = fresh("p")
                return forall([p], Implies(sel(E.fam["chr.alloc"], p), sel(s.fam["chr.alloc"], p)), [sel(s.fam["chr.alloc"], p)], )
            def strs2(s):
                p = fresh("p")
                return forall([p], Implies(sel(E.fam["chr.alloc"], p), sel(s.fam["chr.alloc"], p)), [sel(E.fam["chr.alloc"], p)], )
            out.append(("strings-kept", strs))
            out.append(("strings-kept-2", strs2))
        # lists
        for (o, off, f, lid) in lists:
            nm = "%s%d" % (o.name, o.id)
            k, j = fresh("k"), fresh("j")

            def n(s, o=o, off=off):
                return s.mem[o][off + 8][1].idx

            def at(s, f=f, lid=lid):
                return lambda j: sel(s.fam["kl.e.val"], lid, j) if f == "kl" else sel(self.m.C, sel(s.fam["vl.p"], lid, j))
            pos = f + ".pos"
            trig = (lambda s, f=f, lid=lid: sel(s.fam["kl.e.val"], lid, j) if f == "kl" else sel(s.fam["vl.p"], lid, j))
            if {pos, f + ".e.val", "vl.p"} & modf:
                def inside(s, lid=lid, pos=pos, n=n, at=at):
                    p = sel(s.fam[pos], lid, k)
                    return forall([k], Implies(le(0, p), And(lt(p, n(s)), eq(at(s)(p), k))), [p])

                def dist(s, lid=lid, pos=pos, n=n, at=at, trig=trig):
                    x = at(s)(j)
                    return forall([j], Implies(And(le(0, j), lt(j, n(s))), eq(sel(s.fam[pos], lid, x), j)), [trig(s)])
                out.append((nm + ".list-positions", inside))
                out.append((nm + ".list-distinct", dist))
                if f == "kl":
                    def live(s, lid=lid, n=n):
                        l = sel(s.fam["kl.e.live"], lid, j)
                        return forall([j], l == And(le(0, j), lt(j, n(s))), [l])
                    out.append((nm + ".list-alive", live))
                    out.append((nm + ".list-no-end", lambda s, lid=lid, n=n: forall([j], Implies(And(le(0, j), lt(j, n(s))), Not(eq(sel(s.fam["kl.e.val"], lid, j), END))), [sel(s.fam["kl.e.val"], lid, j)])))
                else:
                    def live(s, lid=lid, n=n):
                        p = sel(s.fam["vl.p"], lid, j)
                        return forall([j], Implies(And(le(0, j), lt(j, n(s))), And(sel(s.fam["chr.alloc"], p), eq(sel(s.fam["vl.len"], lid, j), sel(self.m.L, p)), Not(eq(sel(self.m.C, p), END)))), [p])
                    out.append((nm + ".list-alive", live))
                out.append((nm + ".list-size", lambda s, lid=lid, n=n, f=f: And(eq(sel(s.fam[f + ".size"], lid), n(s)), sel(s.fam[f + ".alloc"], lid))))
            # erasing the listed keys
            for (mo, moff, mf, mid) in maps:
                if mf + ".b" not in modf or (f == "kl") != (mf == "mk"):
                    continue
                bE = z3.Select(E.fam[mf + ".b"], zi(mid))
                for (nx, gx, x0) in info.scalars():
                    if nx.endswith(".oid"):
                        continue

                    def er(s, lid=lid, pos=pos, mid=mid, mf=mf, bE=bE, gx=gx):
                        p = sel(E.fam[pos], lid, k)
                        b = sel(s.fam[mf + ".b"], mid, k)
                        return forall([k], b == And(sel(bE, k), Not(And(le(0, p), lt(p, gx(s))))), [b])
                    out.append(("%s%d+%d.listed-erased-%s-%s" % (mo.name, mo.id, moff, nm, nx), er))
        # element loops
        if "vs.e.val" in modf:
            for o in self.objs:
                v = View(self, E, o)
                j = fresh("j")
                a0 = z3.Select(E.fam["vs.e.val"], zi(v.sid))
                for (nx, gx, x0) in info.scalars():
                    if nx.endswith(".oid"):
                        continue
                    for fn, fl in ((fm, "modified"), (ft, "transformed")):
                        def md(s, v=v, a0=a0, gx=gx, fn=fn):
                            x = sel(s.fam["vs.e.val"], v.sid, j)
                            return forall([j], Implies(v.inr(j), x == z3.If(zb(lt(j, gx(s))), fn(sel(a0, j)), sel(a0, j))), [x])
                        out.append(("%s.%s-below-%s" % (o.name, fl, nx), md))
                if "vs.e.live" in modf:
                    def lv(s, v=v):
                        l = sel(s.fam["vs.e.live"], v.sid, j)
                        return forall([j], l == v.inr(j), [l])
                    out.append(("%s.elements-alive" % o.name, lv))
        return out


def a_alloc(s, o):
    return sel(s.fam["obj.alloc"], o)


# --------------------------------------------------------------------- units
def mk(kind, fn, body, variants, desc, tags):
    def run(built, variant, deadline):
        st = (variant & 1) == 1 if kind not in ("mpv", "dpv") else False
        sp = Spec(kind, st, built, "%s.%s" % (kind, fn), deadline)
        sp.tag = tags
        body(sp)
        return sp.eng
    props = {"smap": ("C12",), "sdel": ("C13",), "dmap": ("C14",), "ddel": ("C15",), "mapfind": ("C24",)}[tags[0]]
    return Unit("%s.%s" % (kind, fn), props, KINDS[kind][0], variants, run, desc)


def keys_of(sp, which):
    args, ks = [], {}
    for i in which:
        a, k = sp.key(i)
        args += a
        ks[i] = k
    return args, ks


def b_insert(fn, which, src, assign):
    """insert / insert_or_assign"""
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        dual = len(sp.maps) == 2
        pv = sp.data == "pv"
        kargs, ks = keys_of(sp, which)
        if src == "ptr":
            e, x = sp.uptr()
        else:
            e, x = sp.elem()
        args = [Ptr(o, 0)] + kargs + [Ptr(e, 0)]
        r = None
        if not assign:
            r = sp.out("result")
            args.append(Ptr(r, 0))
        a = View(sp, sp.st.snap(), o)
        T = sp.tag

        # which existing element the operation refers to, by the documented behaviour of the class
        hit, at = False, None
        if len(which) == 1:
            i = which[0]
            hit, at = a.b(i, ks[i]), a.v(i, ks[i])
        elif len(which) == 2:
            both = And(a.b(0, ks[0]), a.b(1, ks[1]))
            if not assign:
                hit = both
            elif pv:
                hit, at = And(both, eq(a.v(0, ks[0]), a.v(1, ks[1]))), a.v(0, ks[0])
            else:
                hit, at = a.b(0, ks[0]), a.v(0, ks[0])

        def post(kind, s, ret):
            b = View(sp, s, o)
            al0 = a.s.fam["obj.alloc"]
            if src == "ptr":
                up = s.mem[e][0][1]
                upq = 0 if is_null(up) else up.oid
            else:
                el = s.mem[e][0][1] if 0 in s.mem[e] else Elem(False, 0)
            g = []
            if src == "copy":
                g.append(("argument-unchanged", And(el.live, eq(el.val, x)), ("core",)))
            elif src == "move":
                g.append(("argument-alive", el.live, ("core",)))

            def case(c, gs):
                for n, f in gs:
                    g.append((n, Implies(c, f), T))
            ret_ix = None
            if assign:
                ret_ix = ret
            else:
                en = sp.engaged(s, r)
                g.append(("refused-exactly-when-bound", en == Not(hit), T))
                ret_ix = s.mem[r][0][1] if 0 in s.mem[r] else 0
            # ---- key already bound
            if hit is not False:
                if not assign:
                    case(hit, [("refused-" + n, f) for n, f in sp.unchanged(a, b)])
                    if src == "ptr":
                        case(hit, [("refused-pointer-kept", eq(upq, x))])
                    elif src == "move":
                        case(hit, [("refused-argument-kept", eq(el.val, x))])
                else:
                    j = fresh("j")
                    gs = [("assigned-size-unchanged", eq(a.n, b.n)),
                          ("assigned-others-unchanged", forall([j], Implies(And(a.inr(j), Not(eq(j, at))), eq(a.val(j), b.val(j))), [b.val(j)])),
                          ("assigned-index", eq(ret_ix, at))] + sp.stays(a, b)
                    if pv:
                        if src == "ptr":
                            gs.append(("assigned-element", eq(b.val(at), x)))
                            gs.append(("argument-emptied", eq(upq, 0)))
                        else:
                            gs.append(("assigned-element", And(Not(eq(b.val(at), 0)), Not(sel(al0, b.val(at))), eq(b.cont(at), x))))
                        gs.append(("element-contents-unchanged", forall([j], Implies(And(a.inr(j), Not(eq(j, at)), Not(eq(a.val(j), 0))), eq(
                            sel(a.s.fam[OBJF], a.val(j), 0), sel(s.fam[OBJF], a.val(j), 0))), [a.val(j)])))
                        gs += sp.objs_rel(a.s, s, lambda q: And(Or(And(sel(al0, q), Or(Not(eq(q, a.val(at))))), eq(q, b.val(at))), Not(eq(q, 0))))
                    else:
                        gs.append(("assigned-element", eq(b.val(at), x)))
                    for i in range(len(a.maps)):
                        if i in ks and i == 1 and len(which) == 2:
                            gs += sp.same_map(a, b, i, [ks[i]]) + sp.bound(b, i, ks[i], at)
                        else:
                            gs += sp.same_map(a, b, i)
                    case(hit, gs)
            # ---- new element
            j = fresh("j")
            n = a.n
            gs = [("appended-size", eq(b.n, add(n, 1))), ("appended-index", eq(ret_ix, n)),
                  ("appended-others-unchanged", forall([j], Implies(a.inr(j), eq(a.val(j), b.val(j))), [b.val(j)]))] + sp.stays(a, b)
            if pv:
                if src == "ptr":
                    gs += [("appended-element", eq(b.val(n), x)), ("argument-emptied", eq(upq, 0))]
                else:
                    gs.append(("appended-element", And(Not(eq(b.val(n), 0)), Not(sel(al0, b.val(n))), eq(b.cont(n), x))))
                gs.append(("element-contents-unchanged", forall([j], Implies(And(a.inr(j), Not(eq(a.val(j), 0))), eq(
                    sel(a.s.fam[OBJF], a.val(j), 0), sel(s.fam[OBJF], a.val(j), 0))), [a.val(j)])))
                gs += sp.objs_rel(a.s, s, lambda q: And(Or(sel(al0, q), eq(q, b.val(n))), Not(eq(q, 0))))
            else:
                gs.append(("appended-element", eq(b.val(n), x)))
            for i in range(len(a.maps)):
                if i not in ks:
                    gs += sp.same_map(a, b, i)
                    continue
                # an insertion that was accepted although one key was bound: the class's own rule
                keeps = not assign and dual and len(which) == 2 and (pv or (sp.kind == "dsv" and i == 0))
                gs += sp.same_map(a, b, i, [ks[i]])
                to = If(a.b(i, ks[i]), a.v(i, ks[i]), n) if keeps else n
                gs += sp.bound(b, i, ks[i], to)
            case(Not(hit), gs)
            return g
        sp.go(fn, args, post)
    return body


def b_find(fn, i, ptr=False):
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        kargs, ks = keys_of(sp, [i])
        k = ks[i]
        r = sp.out("result")
        a = View(sp, sp.st.snap(), o)

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = sp.tagged(sp.unchanged(a, b), sp.tag)
            want = a.v(i, k)
            if a.fam == "vs":
                it = s.mem[r][0][1]
                g.append(("finds-the-bound-element-or-end", And(eq(it.oid, a.sid), eq(it.idx, If(a.b(i, k), want, a.n))), sp.tag))
            else:
                g.append(("finds-the-bound-element-or-null", eq(0 if is_null(ret) else ret.oid, If(a.b(i, k), a.val(want), 0)), sp.tag))
                if not is_null(ret):
                    g.append(("finds-the-element-itself", And(eq(ret.idx, 0), ret.off == 0), sp.tag))
            return g
        args = [Ptr(o, 0)] + kargs
        if sp.data == "vs":
            args.append(Ptr(r, 0))
        sp.go(fn, args, post)
    return body


def b_access(fn, mode):
    """operator[], at, back"""
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        a = View(sp, sp.st.snap(), o)
        args = [Ptr(o, 0)]
        if mode == "back":
            sp.st.assume(lt(0, a.n))
            ix = sub(a.n, 1)
        else:
            ix = sp.size_arg()
            args.append(ix)
            if mode == "index" and a.fam == "vs":
                sp.st.assume(a.inr(ix))

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = sp.tagged(sp.unchanged(a, b), sp.tag)
            if kind == "throw":
                return g + [("throws-only-outside", Not(a.inr(ix)), sp.tag)]
            if a.fam == "vs":
                g.append(("refers-to-the-element", And(eq(ret.oid, a.sid), eq(ret.idx, ix), a.inr(ix)), sp.tag))
            elif mode == "index":
                g.append(("points-to-the-element-or-null", eq(0 if is_null(ret) else ret.oid, If(a.inr(ix), a.val(ix), 0)), sp.tag))
            else:
                g.append(("points-to-the-element", And(a.inr(ix), eq(0 if is_null(ret) else ret.oid, a.val(ix))), sp.tag))
            return g
        sp.go(fn, args, post, throws=mode == "at")
    return body


def b_add_index(fn, i):
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        kargs, ks = keys_of(sp, [i])
        k = ks[i]
        ix = sp.size_arg()
        a = View(sp, sp.st.snap(), o)

        def post(kind, s, ret):
            b = View(sp, s, o)
            ok = And(a.inr(ix), Not(a.b(i, k)))
            g = [("added-exactly-when-possible", sp.eng.as_bool(ret) == ok, sp.tag)]
            g += sp.tagged(sp.same_data(a, b) + sp.stays(a, b), sp.tag)
            for x in range(len(a.maps)):
                g += sp.tagged(sp.same_map(a, b, x, [k] if x == i else []), sp.tag)
            g.append(("term-resolves", And(Implies(ok, And(b.b(i, k), eq(b.v(i, k), ix))), Implies(Not(ok), And(b.b(i, k) == a.b(i, k), Implies(
                a.b(i, k), eq(a.v(i, k), b.v(i, k)))))), sp.tag))
            return g
        sp.go(fn, [Ptr(o, 0)] + kargs + [ix], post)
    return body


def b_add_term(fn, new, old):
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        a1, k = sp.key(new)
        a2, x = sp.key(old)
        a = View(sp, sp.st.snap(), o)

        def post(kind, s, ret):
            b = View(sp, s, o)
            ok = And(a.b(old, x), Not(a.b(new, k)))
            g = [("added-exactly-when-possible", sp.eng.as_bool(ret) == ok, sp.tag)]
            g += sp.tagged(sp.same_data(a, b) + sp.stays(a, b), sp.tag)
            for y in range(len(a.maps)):
                g += sp.tagged(sp.same_map(a, b, y, [k] if y == new else []), sp.tag)
            g.append(("term-resolves", And(Implies(ok, And(b.b(new, k), eq(b.v(new, k), a.v(old, x)))), Implies(Not(ok), And(
                b.b(new, k) == a.b(new, k), Implies(a.b(new, k), eq(a.v(new, k), b.v(new, k)))))), sp.tag))
            return g
        sp.go(fn, [Ptr(o, 0)] + a1 + a2, post)
    return body


def b_remove(fn, i):
    """removal by index (i None) or through key space i"""
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        if i is None:
            args = [sp.size_arg()]
            idx = args[0]
        else:
            args, ks = keys_of(sp, [i])
        a = View(sp, sp.st.snap(), o)
        if i is None:
            present = a.inr(idx)
        else:
            present, idx = a.b(i, ks[i]), a.v(i, ks[i])
        sp.idxs = [idx]

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = []
            T = sp.tag
            g += [("absent-" + n, Implies(Not(present), f), T) for n, f in sp.unchanged(a, b)]
            j, k = fresh("j"), fresh("k")
            shrinks = True if not sp.stab else eq(idx, sub(a.n, 1))
            here = And(present, shrinks)
            g.append(("size-drops-by-one", Implies(here, eq(b.n, sub(a.n, 1))), T))
            g.append(("order-of-the-rest-unchanged", Implies(here, forall([j], Implies(b.inr(j), eq(b.val(j), sel(a.s.fam[a.row], a.sid, If(lt(j, idx), j, add(j, 1))))), [b.val(j)])), T))
            for x in range(len(a.maps)):
                w = a.v(x, k)
                nb = And(a.b(x, k), Not(eq(w, idx)))
                g.append(("keys%d-of-the-removed-element-gone" % (x + 1), Implies(present, forall([k], b.b(x, k) == nb, [b.b(x, k)])), T))
                g.append(("other-keys%d-resolve-as-before" % (x + 1), Implies(here, forall([k], Implies(nb, eq(b.v(x, k), If(lt(idx, w), sub(w, 1), w))), [b.v(x, k)])), T))
                if sp.stab:
                    g.append(("other-keys%d-resolve-as-before-in-place" % (x + 1), Implies(And(present, Not(shrinks)), forall([k], Implies(nb, eq(b.v(x, k), w)), [b.v(x, k)])), T))
            if sp.stab:
                g += [("in-place-" + n, Implies(And(present, Not(shrinks)), f), T) for n, f in sp.same_data(a, b)]
            if a.fam == "pv":
                al0 = a.s.fam["obj.alloc"]
                g += [(n, Implies(present, f), T) for n, f in sp.objs_rel(a.s, s, lambda q: And(sel(al0, q), Not(eq(q, a.val(idx)))))]
                g.append(("element-contents-unchanged", forall([j], Implies(And(a.inr(j), Not(eq(a.val(j), 0)), Not(eq(j, idx))), eq(
                    sel(a.s.fam[OBJF], a.val(j), 0), sel(s.fam[OBJF], a.val(j), 0))), [a.val(j)]), T))
            g += sp.tagged(sp.stays(a, b), T)
            return g
        sp.go(fn, [Ptr(o, 0)] + args, post)
    return body


def b_loop(fn, what):
    """apply, modify, transform"""
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        a = View(sp, sp.st.snap(), o)

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = [("applied-to-every-element-once", eq(s.gh["vis.n"], a.n), sp.tag)]
            if what == "apply":
                g += sp.tagged(sp.unchanged(a, b), sp.tag)
            else:
                j = fresh("j")
                f = fm if what == "modify" else ft
                g.append(("every-element-replaced", And(eq(a.n, b.n), forall([j], Implies(a.inr(j), eq(b.val(j), f(a.val(j)))), [b.val(j)])), sp.tag))
                for x in range(len(a.maps)):
                    g += sp.tagged(sp.same_map(a, b, x), sp.tag)
                g += sp.tagged(sp.stays(a, b), sp.tag)
            return g
        sp.go(fn, [Ptr(o, 0)], post)
    return body


def b_obs(fn, what):
    """begin, end, size"""
    def body(sp):
        o = sp.container("this")
        sp.this = o
        sp.live_post = [o]
        r = sp.out("result")
        a = View(sp, sp.st.snap(), o)

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = sp.tagged(sp.unchanged(a, b), sp.tag)
            if what == "size":
                g.append(("size", eq(ret, a.n), sp.tag))
            else:
                it = s.mem[r][0][1]
                g.append((what, And(eq(it.oid, a.sid), eq(it.idx, 0 if what == "begin" else a.n)), sp.tag))
            return g
        sp.go(fn, [Ptr(o, 0)] + ([] if what == "size" else [Ptr(r, 0)]), post)
    return body


def empty_goals(sp, s, o, tag):
    b = View(sp, s, o)
    k = fresh("k")
    return [("no-elements", eq(b.n, 0), tag)] + [("no-keys%d" % (i + 1), forall([k], Not(b.b(i, k)), [b.b(i, k)]), tag) for i in range(len(b.maps))]


def b_clear(sp):
    o = sp.container("this")
    sp.this = o
    sp.live_post = [o]
    a = View(sp, sp.st.snap(), o)

    def post(kind, s, ret):
        g = empty_goals(sp, s, o, sp.tag)
        if a.fam == "pv":
            g += sp.tagged(sp.objs_rel(a.s, s, lambda q: And(sel(a.s.fam["obj.alloc"], q), Not(eq(sel(sp.H, q), a.sid)))), sp.tag)
        return g
    sp.go("vc_clear", [Ptr(o, 0)], post)


def b_ctor(sp):
    o = sp.raw("this")
    sp.this = o
    sp.live_post = [o]

    def post(kind, s, ret):
        return empty_goals(sp, s, o, sp.tag)
    sp.go("vc_ctor", [Ptr(o, 0)], post)


def b_dtor(sp):
    o = sp.container("this")
    sp.this = o
    sp.live_post = []
    a = View(sp, sp.st.snap(), o)

    def post(kind, s, ret):
        g = [("storage-released", Not(sel(s.fam[a.fam + ".alloc"], a.sid)), sp.tag)]
        for (f, m) in a.maps:
            g.append(("lookup-released", Not(sel(s.fam[f + ".alloc"], m)), sp.tag))
        if a.nsid is not None:
            g.append(("names-released", Not(sel(s.fam["nm.alloc"], a.nsid)), sp.tag))
        if a.fam == "pv":
            g += sp.tagged(sp.objs_rel(a.s, s, lambda q: And(sel(a.s.fam["obj.alloc"], q), Not(eq(sel(sp.H, q), a.sid)))), sp.tag)
        return g
    sp.go("vc_dtor", [Ptr(o, 0)], post)


def b_copy(fn, move, assign):
    def body(sp):
        o = sp.container("this") if assign else sp.raw("this")
        sp.this = o
        o2 = sp.container("other")
        sp.live_post = [o] if move else [o, o2]
        pre = sp.st.snap()
        a2 = View(sp, pre, o2)
        a1 = View(sp, pre, o) if assign else None

        def post(kind, s, ret):
            b = View(sp, s, o)
            g = sp.tagged(sp.same_data(a2, b), sp.tag)
            for x in range(len(b.maps)):
                g += sp.tagged(sp.same_map(a2, b, x), sp.tag)
            if not move:
                c = View(sp, s, o2)
                g += [("source-" + n, f, sp.tag) for n, f in sp.unchanged(a2, c)]
                g.append(("copy-is-independent", And(Not(eq(b.sid, c.sid)), *[Not(eq(x[1], y[1])) for x, y in zip(b.maps, c.maps)],
                                                     *([Not(eq(b.nsid, c.nsid))] if b.nsid is not None else [])), sp.tag))
            else:
                if a2.fam == "vs" and sp.stab:
                    g.append(("moved-elements-stay-in-place", eq(b.sid, a2.sid), sp.tag))
                if a2.fam == "pv":
                    al0 = pre.fam["obj.alloc"]
                    g += sp.tagged(sp.objs_rel(pre, s, lambda q: And(sel(al0, q), Not(eq(sel(sp.H, q), a1.sid)) if assign else True)), sp.tag)
            return g
        sp.go(fn, [Ptr(o, 0), Ptr(o2, 0)], post)
    return body


def b_mapfind(fn, opt):
    def body(sp):
        st, m = sp.st, sp.m
        o = sp.raw("map")
        mid = fresh("map.id")
        st.assume(And(sel(st.fam["me.alloc"], mid), Not(sel(st.fam["me.b"], mid, END))))
        st.mem[o][0] = (8, FPtr("me", mid, 0))
        ko, k = Obj("key", 24), fresh("key")
        st.assume(Not(eq(k, END)))
        st.mem[ko] = {0: (24, Elem(True, k))}
        r = sp.out("result")
        d, x = sp.elem("default")
        sp.live_post = []
        pre = sp.st.snap()
        b, v = sel(pre.fam["me.b"], mid, k), sel(pre.fam["me.x.val"], mid, k)

        def post(kind, s, ret):
            j = fresh("j")
            g = [("map-unchanged", And(eq(s.mem[o][0][1].oid, mid), sel(s.fam["me.alloc"], mid), forall([j], And(
                sel(s.fam["me.b"], mid, j) == sel(pre.fam["me.b"], mid, j), sel(s.fam["me.x.val"], mid, j) == sel(pre.fam["me.x.val"], mid, j)),
                [sel(s.fam["me.b"], mid, j)])), sp.tag)]
            c = s.mem[r]
            if opt:
                if 24 not in c:
                    raise Unsupported("optional layout")
                en = sp.eng.as_bool(c[24][1])
                g.append(("engaged-exactly-when-present", en == b, sp.tag))
                el = c[0][1] if 0 in c and isinstance(c[0][1], Elem) else Elem(False, 0)
                g.append(("holds-the-stored-value", Implies(b, And(el.live, eq(el.val, v) if el.val is not None else False)), sp.tag))
            else:
                el = c[0][1] if 0 in c and isinstance(c[0][1], Elem) else Elem(False, 0)
                g.append(("returns-the-stored-value-or-the-default", And(el.live, eq(el.val, If(b, v, x))), sp.tag))
                e = s.mem[d][0][1]
                g.append(("default-unchanged", And(e.live, eq(e.val, x)), sp.tag))
            return g
        sp.go(fn, [Ptr(o, 0), Ptr(ko, 0)] + ([] if opt else [Ptr(d, 0)]) + [Ptr(r, 0)], post)
    return body


# variants: DEFS number; bit 0 stable storage, bit 1 swaps which key type is hashable, tens digit VKIND
VAR = {"mv": [0, 1, 2, 3], "smv": [1, 0], "mpv": [0, 2], "dmv": [0, 1, 2, 3], "dsv": [11, 10, 13], "dpv": [20, 22]}
RMVAR = {"smv": [1], "dsv": [11, 13]}


def units():
    out = []
    for f in ("find_default", "find_optional", "ufind_default", "ufind_optional"):
        out.append(mk("fn", f, b_mapfind("vc_" + f, f.endswith("optional")), [0], "mapFind", ("mapfind",)))
    for kind in KINDS:
        if kind == "fn":
            continue
        dual = len(KINDS[kind][5]) == 2
        pv = KINDS[kind][4] == "pv"
        t = ("dmap",) if dual else ("smap",)
        td = ("ddel",) if dual else ("sdel",)
        V = VAR[kind]
        RV = RMVAR.get(kind, V)
        two = V[:1] + [v for v in V[1:] if (v & 1) != (V[0] & 1)][:1]     # one per storage kind
        all_ = [0, 1] if dual else [0]

        def u(fn, body, variants=V, desc="", tags=t):
            out.append(mk(kind, fn[3:], body, variants, desc, tags))
        srcs = [("", "copy"), ("_move", "move")]
        for sfx, src in srcs:
            u("vc_insert" + sfx, b_insert("vc_insert" + sfx, all_, src, False))
            u("vc_ioa" + sfx, b_insert("vc_ioa" + sfx, all_, src, True))
        if pv:
            u("vc_insert_ptr", b_insert("vc_insert_ptr", all_, "ptr", False))
            u("vc_ioa_ptr", b_insert("vc_ioa_ptr", all_, "ptr", True))
        if dual:
            for i in (0, 1):
                u("vc_insert_k%d" % (i + 1), b_insert("vc_insert_k%d" % (i + 1), [i], "copy", False))
                u("vc_ioa_k%d" % (i + 1), b_insert("vc_ioa_k%d" % (i + 1), [i], "copy", True))
        if not (dual and pv):
            u("vc_insert_nokey", b_insert("vc_insert_nokey", [], "copy", False), two)
        # lookup
        if pv:
            if dual:
                u("vc_find1", b_find("vc_find1", 0))
                u("vc_find2", b_find("vc_find2", 1))
                u("vc_at", b_access("vc_at", "at"), two)
            else:
                u("vc_find", b_find("vc_find", 0))
            u("vc_index", b_access("vc_index", "index"), two)
            u("vc_back", b_access("vc_back", "back"), two)
            u("vc_apply", b_loop("vc_apply", "apply"), two)
            u("vc_apply_const", b_loop("vc_apply_const", "apply"), two)
        else:
            for i in all_:
                for c in ("", "_const"):
                    f = "vc_find%s%s" % (i + 1 if dual else "", c)
                    u(f, b_find(f, i))
            for c in ("", "_const"):
                u("vc_index" + c, b_access("vc_index" + c, "index"), two)
                u("vc_at" + c, b_access("vc_at" + c, "at"), two)
                u("vc_back" + c, b_access("vc_back" + c, "back"), two)
            u("vc_apply", b_loop("vc_apply", "apply"), two)
            u("vc_modify_all", b_loop("vc_modify_all", "modify"), two)
            u("vc_transform_all", b_loop("vc_transform_all", "transform"), two)
        # additional terms
        if dual and not pv:
            for i in (0, 1):
                u("vc_add_index%d" % (i + 1), b_add_index("vc_add_index%d" % (i + 1), i))
                for x in (0, 1):
                    f = "vc_add_term%d%d" % (i + 1, x + 1)
                    u(f, b_add_term(f, i, x))
        elif not dual and kind != "smv":
            u("vc_add_term", b_add_index("vc_add_term", 0))
        # removal
        u("vc_remove_index", b_remove("vc_remove_index", None), RV, tags=td)
        for i in all_:
            f = "vc_remove" + (str(i + 1) if dual else "")
            u(f, b_remove(f, i), RV, tags=td)
        u("vc_begin", b_obs("vc_begin", "begin"), two)
        u("vc_end", b_obs("vc_end", "end"), two)
        u("vc_size", b_obs("vc_size", "size"), two)
        u("vc_clear", b_clear, two)
        u("vc_ctor", b_ctor, two)
        u("vc_dtor", b_dtor, two)
        u("vc_move", b_copy("vc_move", True, False), two)
        u("vc_assign_move", b_copy("vc_assign_move", True, True), two)
        if not pv:
            u("vc_copy", b_copy("vc_copy", False, False), V)
            u("vc_assign_copy", b_copy("vc_assign_copy", False, True), V)
    return out
