"""Units: SimpleQueue, BlockingQueue, BlockingPriorityQueue, AirLock.

Monitor contracts.  Every operation is verified for an arbitrary environment of
other threads: at each synchronisation point (lock, unlock, atomic access, wait,
notify, callback) the shared state the thread does not own is replaced by an
arbitrary state that the guarantees of the other operations allow, and at each
release and at each change of an atomic the operation proves its own guarantee.
The abstract queue is  E ++ U  (E = part behind the pull lock, oldest first;
U = part behind the push lock) plus the priority part Q."""
import re
import build
from engine import *
from lib import *
from units import *

VS = Family("vs", 24, {0: ("e", "elem")})
PQ = Family("pq", 24, {0: ("e", "elem")})
RACE = ("race",)
LIN = ("lin",)
WAKE = ("wake",)
CORE = ("core",)
MAXLEN = 2 ** 40


def sel(a, *ix):
    for i in ix:
        a = z3.Select(a, zi(i))
    return a


class Base:
    """lock bookkeeping shared by the queues and the air lock"""

    locks = {}          # offset in the object -> lock name

    def __init__(self, kind, built, name, deadline):
        self.kind = kind
        self.lay = None
        self.eng = new_engine(built, self.FAMS, [], name, {}, deadline)
        self.eng.tags = CORE
        self.eng.intercepts = self.handlers()
        self.eng.hooks = self
        self.eng.opts["elemlive"] = True
        self.eng.loopcands = self.loopcands
        self.eng.assumptions |= {
            "element operations and allocation do not throw",
            "std::atomic operations are sequentially consistent, lock/unlock/wait/notify behave as the C++ standard says",
            "the queues are not moved from or destroyed while other threads use them"}
        self.st = State()
        self.eng.fam_init(self.st)
        self.obj = None
        self.excl = set()
        self.locals = []

    # -- lock handlers
    def which(self, st, p):
        if isinstance(p, Ptr) and p.obj is self.obj and p.off in self.locks:
            return self.locks[p.off]
        return None

    def do_lock(self, eng, st, p, trying=False):
        w = self.which(st, p)
        if w is None:
            if isinstance(p, Ptr) and p.obj in self.excl:
                return
            raise Unsupported("lock of an unknown mutex")
        eng.check(st, not st.gh["h." + w], "lock-not-taken-twice", RACE)
        for v in self.locks.values():
            if self.order(w) < self.order(v) and not trying:
                eng.check(st, not st.gh["h." + v], "locks-taken-in-global-order", RACE)
        if st.gh["h." + w]:
            raise PathEnd()
        if not self.exempt:
            self.acquire(eng, st, w)
        st.gh["h." + w] = True

    def do_unlock(self, eng, st, p):
        st.rel += 1
        w = self.which(st, p)
        if w is None:
            if isinstance(p, Ptr) and p.obj in self.excl:
                return
            raise Unsupported("unlock of an unknown mutex")
        eng.check(st, bool(st.gh["h." + w]), "unlock-of-a-held-lock", RACE)
        if not st.gh["h." + w]:
            raise PathEnd()
        if self.exempt:
            st.gh["h." + w] = False
            return
        out = []
        for s in self.split(eng, st, w):
            self.release(eng, s, w)
            s.gh["h." + w] = False
            out.append((s, None))
        return ("fork", out)

    def split(self, eng, st, w):
        """one state per decidable combination of the case conditions of a release"""
        states = [st]
        for cond in self.cases(st, w):
            nxt = []
            for s in states:
                cnd = conc(cond)
                if isinstance(cnd, bool):
                    nxt.append(s)
                    continue
                t, f = eng.feasible(s, cnd), eng.feasible(s, Not(cnd))
                if t and f:
                    s2 = s.copy()
                    s2.assume(Not(cnd))
                    nxt.append(s2)
                    s.assume(cnd)
                nxt.append(s)
            states = nxt
        return states

    def cases(self, st, w):
        return []

    def order(self, w):
        return 0

    def wait_lock(self, eng, st, a):
        """the unique_lock handed to a wait: its mutex"""
        st.rel += 1
        u = a[1]
        dev = st.mem[u.obj].get(u.off, (8, None))[1]
        own = st.mem[u.obj].get(u.off + 8, (1, 0))[1]
        w = self.which(st, dev) if isinstance(dev, Ptr) else None
        eng.check(st, And(w is not None, eq(own, 1)), "wait-with-the-lock-held", RACE)
        if w is None:
            raise PathEnd()
        for v in self.locks.values():
            if v != w:
                eng.check(st, not st.gh["h." + v], "no-other-lock-held-while-waiting", RACE)
        return w

    def lock_handlers(self):
        def lock(eng, st, fn, a, ins):
            self.do_lock(eng, st, a[0])

        def unlock(eng, st, fn, a, ins):
            return self.do_unlock(eng, st, a[0])

        def try_lock(eng, st, fn, a, ins):
            s2 = st.copy()
            self.do_lock(eng, st, a[0], True)
            return ("fork", [(st, 1), (s2, 0)])

        def wait(eng, st, fn, a, ins):
            return ("fork", [(s, None) for s in self.do_wait(eng, st, self.wait_lock(eng, st, a))])

        def twait(eng, st, fn, a, ins):
            out = []
            for s in self.do_wait(eng, st, self.wait_lock(eng, st, a), True):
                b = fresh("timedout", B)
                s.gh["timedout"] = Or(s.gh["timedout"], b)
                out.append((s, If(b, 1, 0)))
            return ("fork", out)

        def notify(all_):
            def h(eng, st, fn, a, ins):
                self.do_notify(eng, st, all_)
            return h

        def callback(eng, st, fn, a, ins):
            for v in self.locks.values():
                eng.check(st, not st.gh["h." + v], "no-lock-held-during-callback", RACE)
            self.interfere(eng, st)

        def syserr(eng, st, fn, a, ins):
            eng.check(st, False, "no-lock-error", RACE, assume=False)
            raise PathEnd()

        def nop(eng, st, fn, a, ins):
            return None

        return [
            (rx(r"^VMutex::lock\(\)$"), lock),
            (rx(r"^VMutex::unlock\(\)$"), unlock),
            (rx(r"^VMutex::try_lock\(\)$"), try_lock),
            (rx(r"^VCond::wait\(std::unique_lock<VMutex>&\)$"), wait),
            (rx(r"^VCond::vwait_timed\(std::unique_lock<VMutex>&\)$"), twait),
            (rx(r"^VCond::notify_one\(\)$"), notify(False)),
            (rx(r"^VCond::notify_all\(\)$"), notify(True)),
            (rx(r"^vc_callback\(\)$"), callback),
            (rx(r"^std::__throw_system_error\(int\)$"), syserr),
        ]

    # -- access hooks
    def region(self, off):
        """lock name, 'atomic', or None (not shared data)"""
        raise NotImplementedError

    def guard(self, eng, st, off, write, atomic):
        r = self.region(off)
        if r is None:
            return
        if r == "atomic":
            eng.check(st, False, "flag-accessed-atomically", RACE, assume=False)
            raise PathEnd()
        eng.check(st, bool(st.gh["h." + r]), "shared-data-only-under-its-lock", RACE)
        if not st.gh["h." + r]:
            raise PathEnd()

    def on_load(self, eng, st, p, t, atomic):
        if p.obj is not self.obj or self.exempt:
            return None
        if self.region(p.off) == "atomic" and atomic:
            return [self.flag_load(eng, st)]
        self.guard(eng, st, p.off, False, atomic)
        return None

    def on_store(self, eng, st, p, t, v, atomic):
        if p.obj is not self.obj or self.exempt:
            return False
        if self.region(p.off) == "atomic" and atomic:
            self.flag_store(eng, st, eng.as_bool(v))
            return True
        self.guard(eng, st, p.off, True, atomic)
        return False

    def on_elem(self, eng, st, obj, off, write):
        if obj is self.obj and not self.exempt:
            self.guard(eng, st, off, write, False)

    def on_copy(self, eng, st, p, n, write):
        if isinstance(p, Ptr) and p.obj is self.obj and not self.exempt:
            self.guard(eng, st, p.off, write, False)

    def on_cmpxchg(self, eng, st, p, t, exp, new, work, ins):
        if p.obj is not self.obj or self.exempt:
            return None
        if self.region(p.off) != "atomic":
            raise Unsupported("compare-exchange on a non-flag")
        return self.flag_cas(eng, st, eng.as_bool(exp), eng.as_bool(new), work, ins)

    exempt = False

    def loopcands(self, eng, st, info):
        return self.opt_cands(eng, st, info) + self.more_cands(eng, st, info)

    def more_cands(self, eng, st, info):
        return []

    def opt_cands(self, eng, st, info):
        """local optionals that hold the taken element"""
        out = []
        for m in info.mods:
            if m[0] != "l":
                continue
            o, off = m[1], m[2]
            nm = "%s.%d" % (o.name, off)

            def g(s, o=o, off=off):
                c = s.mem[o].get(off)
                f = s.mem[o].get(off + 24)
                return (c[1] if c is not None and isinstance(c[1], Elem) else Elem(False, 0),
                        eng.as_bool(f[1]) if f is not None and f[0] == 1 else None)
            if g(st)[1] is None:
                out.append(("element-alive-as-at-entry:" + nm, lambda s, g=g, l=g(st)[0].live: zb(g(s)[0].live) == zb(l)))
                continue

            def f1(s, g=g):
                e, b = g(s)
                return zb(e.live) == zb(b)

            def f2(s, g=g):
                e, b = g(s)
                return If(b, And(eq(s.gh["deq"], 1), eq(e.val, s.gh["ret"])), eq(s.gh["deq"], 0))

            def f3(s, g=g):
                e, b = g(s)
                return Or(b, s.gh["seen"])
            out += [("optional-alive:" + nm, f1), ("optional-holds-the-taken-element:" + nm, f2),
                    ("nothing-taken-means-seen-empty:" + nm, f3)]
        return out


class Queue(Base):
    FAMS = [VS, PQ]

    def __init__(self, kind, built, name, deadline, mode="shared", nws=0, target="ord"):
        cls = {"sq": "SimpleQueue", "bq": "BlockingQueue", "bpq": "BlockingPriorityQueue"}[kind]
        lay = build.find_layout(built.layouts, r"^gmlc::containers::%s<" % cls)
        names = ["m_pushLock", "m_pullLock", "pushElements", "pullElements", "queueEmptyFlag"]
        if kind == "bpq":
            names.append("priorityQueue")
        if kind != "sq":
            names.append("condition")
        self.off = build.field_map(lay, names)
        self.PUSH, self.PULL, self.FLAG = self.off["pushElements"], self.off["pullElements"], self.off["queueEmptyFlag"]
        self.PRIO = self.off.get("priorityQueue")
        self.locks = {self.off["m_pushLock"]: "push", self.off["m_pullLock"]: "pull"}
        super().__init__(kind, built, name, deadline)
        self.exempt = mode != "shared"
        self.target = target
        st, eng = self.st, self.eng
        o = self.obj = Obj("this", None, "this")
        st.mem[o] = {}
        g = st.gh
        g.update({"h.push": False, "h.pull": False, "deq": 0, "ret": 0, "nvec": 0, "app": 0, "seen": False, "seenP": False, "uempty": False,
                  "timedout": False, "pendI": 0, "pendN": 0, "nt": False, "flagobs": False, "szobs": -1, "cleared": False,
                  "anch": False, "Uz": False, "peekok": False, "peekval": 0, "ins": 0})
        self.ws = fresh("ws", ARR1)
        self.n = nws
        if mode == "shared":
            g["flag"] = fresh("flag", B)
            for k in ("lenU", "lenP", "lenQ", "pend", "pendIO", "W"):
                g[k] = fresh(k)
                st.assume(g[k] >= 0)
            g["Ev"], g["eh"], g["et"] = fresh("Ev", ARR1), 0, fresh("et")
            g["first"] = True
            self.interfere(eng, st)
        self.init_layout = lay

    def order(self, w):
        return {"pull": 0, "push": 1}[w]

    def region(self, off):
        if off == self.FLAG:
            return "atomic"
        if self.PUSH <= off < self.PUSH + 24:
            return "push"
        if self.PULL <= off < self.PULL + 24:
            return "pull"
        if self.PRIO is not None and self.PRIO <= off < self.PRIO + 80:
            return "pull"
        return None

    def append_cands(self, eng, st, info):
        """loops that append to a vector one element at a time"""
        e, out = info.entry, []
        locs = []
        for m in info.mods:
            if m[0] == "m" and ("m", m[1], m[2] + 8) in info.mods and m[1] in e.mem:
                c = e.mem[m[1]]
                if all(isinstance(c.get(m[2] + k, (0, None))[1], FPtr) and c[m[2] + k][1].fam == "vs" for k in (0, 8, 16)):
                    locs.append((m[1], m[2]))
        if not locs or ("g", "vs.ctr") not in info.mods:
            return out
        ctr0 = e.gh["vs.ctr"]
        own0 = [self.vec(e, Ptr(*l))[0] for l in locs]
        cells = {(o, off + k) for o, off in locs for k in (0, 8, 16)}
        its = [(m[1], m[2]) for m in info.mods if m[0] == "m" and (m[1], m[2]) not in cells and m[1] in e.mem and
               m[2] in e.mem[m[1]] and isinstance(e.mem[m[1]][m[2]][1], FPtr) and e.mem[m[1]][m[2]][1].fam == "vs"]
        srcs = []
        for o, c in e.mem.items():
            for off in list(c):
                v = [c.get(off + k, (0, None))[1] for k in (0, 8, 16)]
                if (o, off) not in cells and all(isinstance(x, FPtr) and x.fam == "vs" for x in v) and eq(v[0].idx, 0) is True:
                    srcs.append((o, off) + self.vec(e, Ptr(o, off)))
        o_ = fresh("o")
        for key in ("vs.e.val", "vs.e.live", "vs.alloc", "vs.size"):
            out.append(("older-storage:" + key, lambda s, key=key: forall(
                [o_], Implies(And(lt(o_, ctr0), [Not(eq(o_, x)) for x in own0]), sel(s.fam[key], o_) == sel(e.fam[key], o_)),
                [sel(s.fam[key], o_)])))
        for n, l in enumerate(locs):
            p = Ptr(*l)
            nm = "%s.%d+%d" % (l[0].name, l[0].id, l[1])
            oid0, n0 = self.vec(e, p)

            def ok(s, p=p, oid0=oid0, n0=n0):
                oid, k = self.vec(s, p)
                return And(le(1, oid), lt(oid, s.gh["vs.ctr"]), sel(s.fam["vs.alloc"], oid), le(n0, k),
                           Or(eq(oid, oid0), le(ctr0, oid)), eq(s.mem[p.obj][p.off][1].idx, 0))

            def live(s, p=p):
                oid, k = self.vec(s, p)
                j = fresh("j")
                return forall([j], sel(s.fam["vs.e.live"], oid, j) == And(le(0, j), lt(j, k)), [sel(s.fam["vs.e.live"], oid, j)])

            def prefix(s, p=p, oid0=oid0, n0=n0):
                oid, k = self.vec(s, p)
                j = fresh("j")
                return forall([j], Implies(And(le(0, j), lt(j, n0)), sel(s.fam["vs.e.val"], oid, j) ==
                                           sel(e.fam["vs.e.val"], oid0, j)), [sel(s.fam["vs.e.val"], oid, j)])
            out += [("vector-storage:" + nm, ok), ("vector-live:" + nm, live), ("vector-prefix:" + nm, prefix)]
            for so, soff, sid, sn in srcs:
                for rev in (False, True):
                    def whole(s, p=p, n0=n0, sid=sid, sn=sn, rev=rev):
                        oid, k = self.vec(s, p)
                        j = fresh("j")
                        at = sub(sub(sn, 1), sub(j, n0)) if rev else sub(j, n0)
                        return forall([j], Implies(And(le(n0, j), lt(j, k)), sel(s.fam["vs.e.val"], oid, j) ==
                                                   sel(e.fam["vs.e.val"], sid, at)), [sel(s.fam["vs.e.val"], oid, j)])
                    out.append(("appended-%s:%s:%s.%d+%d" % ("back-to-front" if rev else "front-to-back", nm, so.name, so.id, soff), whole))
            for o, off in its:
                i0 = e.mem[o][off][1]
                for rev in (False, True):
                    def copied(s, p=p, n0=n0, i0=i0, rev=rev):
                        oid, k = self.vec(s, p)
                        j = fresh("j")
                        at = sub(i0.idx, add(sub(j, n0), 1)) if rev else add(i0.idx, sub(j, n0))
                        return forall([j], Implies(And(le(n0, j), lt(j, k)), sel(s.fam["vs.e.val"], oid, j) ==
                                                   sel(e.fam["vs.e.val"], i0.oid, at)), [sel(s.fam["vs.e.val"], oid, j)])
                    out.append(("appended-%s:%s:%s.%d" % ("reversed" if rev else "in-order", nm, o.name, o.id), copied))
        return out

    # ------------------------------------------------------------ vectors
    def vec(self, st, p):
        """(oid, length) of the vector object at p"""
        c = st.mem[p.obj]
        b, e = c[p.off][1], c[p.off + 8][1]
        if is_null(b) and b.fam is None:
            return 0, 0
        return b.oid, sub(e.idx, b.idx)

    def set_vec(self, eng, st, p, oid, n, null=False):
        c = st.mem[p.obj]
        eng.clear_cells(c, p.off, 24)
        if null:
            for k in (0, 8, 16):
                c[p.off + k] = (8, NULL)
            return
        cap = fresh("cap")
        st.assume(And(le(n, cap), eq(sel(st.fam["vs.size"], oid), cap)))
        c[p.off] = (8, FPtr("vs", oid, 0))
        c[p.off + 8] = (8, FPtr("vs", oid, n))
        c[p.off + 16] = (8, FPtr("vs", oid, cap))

    def new_vec(self, eng, st, n, val=None):
        """fresh storage holding n live elements; returns (oid, values)"""
        k = st.gh["vs.ctr"]
        st.gh["vs.ctr"] = add(k, 1)
        st.fam["vs.alloc"] = z3.Store(st.fam["vs.alloc"], zi(k), z3.BoolVal(True))
        st.fam["vs.size"] = z3.Store(st.fam["vs.size"], zi(k), fresh("cap"))
        lv = fresh("liverow", z3.ArraySort(I, B))
        j = fresh("j")
        st.assume(forall([j], sel(lv, j) == And(le(0, j), lt(j, n)), [sel(lv, j)]))
        st.fam["vs.e.live"] = z3.Store(st.fam["vs.e.live"], zi(k), lv)
        row = val if val is not None else fresh("row", ARR1)
        st.fam["vs.e.val"] = z3.Store(st.fam["vs.e.val"], zi(k), row)
        st.assume(And(le(1, k), le(0, n), lt(n, MAXLEN)))
        st.gh["nvec"] = add(st.gh.get("nvec", 0), 1)
        return k, row

    def drop_vec(self, st, oid):
        if isc(oid) and oid == 0:
            return
        st.gh["nvec"] = sub(st.gh.get("nvec", 0), 1)
        st.fam["vs.alloc"] = z3.Store(st.fam["vs.alloc"], zi(oid), z3.BoolVal(False))

    def row(self, st, oid):
        return sel(st.fam["vs.e.val"], oid)

    def vec_ok(self, eng, st, p):
        """the vector at p is consistent: its length is not negative and exactly its elements are alive"""
        oid, n = self.vec(st, p)
        if isc(oid) and oid == 0:
            return [("length", eq(n, 0))]
        j = fresh("j")
        return [("length", And(le(0, n), sel(st.fam["vs.alloc"], oid))),
                ("live", forall([j], sel(st.fam["vs.e.live"], oid, j) == And(le(0, j), lt(j, n))))]

    def handlers(self):
        V = r"std::vector<Elem, std::allocator<Elem>>::"

        def guard(eng, st, p):
            if not isinstance(p, Ptr):
                raise Unsupported("vector at %r" % (p,))
            if p.obj is self.obj and not self.exempt:
                self.guard(eng, st, p.off, True, False)

        def append(how):
            def h(eng, st, fn, a, ins):
                eng.lib_used.add("std::vector::" + ("push_back" if how != "default" else "emplace_back"))
                guard(eng, st, a[0])
                oid, n = self.vec(st, a[0])
                if how == "default":
                    v = fresh("defval")
                else:
                    s = eng.elem_loc(st, a[1], "element-source")
                    se = eng.elem_get(st, s)
                    eng.check(st, se.live, "source-element-alive-at-append")
                    v = se.val
                    if how == "move":
                        eng.elem_set(st, s, Elem(True, fresh("moved")), False)
                self.vec_pre(eng, st, a[0])
                old = self.row(st, oid)
                no, _ = self.new_vec(eng, st, add(n, 1), z3.Store(old, zi(n), zi(v)))
                self.drop_vec(st, oid)
                self.set_vec(eng, st, a[0], no, add(n, 1))
                return FPtr("vs", no, n)
            return h

        def iter_of(eng, st, x):
            """FPtr an iterator argument (by value pointer, struct or byval object) denotes"""
            if isinstance(x, list):
                return iter_of(eng, st, x[0])
            if isinstance(x, FPtr):
                return x
            if isinstance(x, Ptr):
                return iter_of(eng, st, st.mem[x.obj][x.off][1])
            raise Unsupported("iterator %r" % (x,))

        def insert(rev):
            def h(eng, st, fn, a, ins):
                eng.lib_used.add("std::vector::insert(range at end)")
                guard(eng, st, a[0])
                pos, f, l = (iter_of(eng, st, x) for x in a[1:4])
                oid, n = self.vec(st, a[0])
                at_end = eq(n, 0) if is_null(pos) else And(eq(pos.oid, oid), eq(pos.idx, n))
                if conc(at_end) is not True and not eng.entails_ground(st, at_end):
                    raise Unsupported("vector insert not at the end")
                self.vec_pre(eng, st, a[0])
                if is_null(f) and is_null(l):
                    m, src, lo = 0, fresh("row", ARR1), 0
                else:
                    lo, hi = (l.idx, f.idx) if rev else (f.idx, l.idx)
                    m = sub(hi, lo)
                    eng.check(st, And(le(0, m), eq(f.oid, l.oid)), "valid-iterator-range")
                    src = self.row(st, f.oid)
                    j = fresh("j")
                    eng.check(st, forall([j], Implies(And(le(lo, j), lt(j, hi)), sel(st.fam["vs.e.live"], f.oid, j))),
                              "source-elements-alive-at-insert")
                    eng.check(st, Not(eq(f.oid, oid)), "inserted-range-not-inside-the-vector")
                old = self.row(st, oid)
                new = fresh("row", ARR1)
                j = fresh("j")
                st.assume(forall([j], Implies(And(le(0, j), lt(j, n)), sel(new, j) == sel(old, j)), [sel(new, j)]))
                k = sub(j, n)
                at = sub(sub(add(lo, m), 1), k) if rev else add(lo, k)
                st.assume(forall([j], Implies(And(le(n, j), lt(j, add(n, m))), sel(new, j) == sel(src, at)), [sel(new, j)]))
                no, _ = self.new_vec(eng, st, add(n, m), new)
                self.drop_vec(st, oid)
                self.set_vec(eng, st, a[0], no, add(n, m))
                return FPtr("vs", no, n)
            return h

        def reserve(eng, st, fn, a, ins):
            eng.lib_used.add("std::vector::reserve")
            guard(eng, st, a[0])
            oid, n = self.vec(st, a[0])
            self.vec_pre(eng, st, a[0])
            no, _ = self.new_vec(eng, st, n, self.row(st, oid))
            self.drop_vec(st, oid)
            self.set_vec(eng, st, a[0], no, n)

        def clear(eng, st, fn, a, ins):
            eng.lib_used.add("std::vector::clear")
            guard(eng, st, a[0])
            oid, n = self.vec(st, a[0])
            self.vec_pre(eng, st, a[0])
            no, _ = self.new_vec(eng, st, 0)
            self.drop_vec(st, oid)
            self.set_vec(eng, st, a[0], no, 0)

        def massign(eng, st, fn, a, ins):
            eng.lib_used.add("std::vector::operator=(vector&&)")
            guard(eng, st, a[0])
            if a[0].obj is a[1].obj and a[0].off == a[1].off:
                raise Unsupported("self move of a vector")
            oid, n = self.vec(st, a[0])
            so, sn = self.vec(st, a[1])
            self.vec_pre(eng, st, a[0])
            self.drop_vec(st, oid)
            c, s = st.mem[a[0].obj], st.mem[a[1].obj]
            for k in (0, 8, 16):
                c[a[0].off + k] = s[a[1].off + k]
            self.set_vec(eng, st, a[1], 0, 0, True)
            return a[0]

        def dtor(eng, st, fn, a, ins):
            eng.lib_used.add("std::vector::~vector")
            guard(eng, st, a[0])
            oid, n = self.vec(st, a[0])
            self.vec_pre(eng, st, a[0])
            self.drop_vec(st, oid)
            self.set_vec(eng, st, a[0], 0, 0, True)

        def reverse(eng, st, fn, a, ins):
            eng.lib_used.add("std::reverse")
            f, l = iter_of(eng, st, a[0]), iter_of(eng, st, a[1])
            if is_null(f) and is_null(l):
                return
            eng.check(st, And(eq(f.oid, l.oid), le(f.idx, l.idx)), "valid-iterator-range")
            j = fresh("j")
            eng.check(st, forall([j], Implies(And(le(f.idx, j), lt(j, l.idx)), sel(st.fam["vs.e.live"], f.oid, j))),
                      "elements-alive-at-reverse")
            eng.check(st, Or(eq(f.idx, l.idx), sel(st.fam["vs.alloc"], f.oid)), "memory-safe-reverse")
            old = self.row(st, f.oid)
            new = fresh("row", ARR1)
            mir = sub(sub(add(f.idx, l.idx), 1), j)
            inr = And(le(f.idx, j), lt(j, l.idx))
            st.assume(forall([j], sel(new, j) == z3.If(zb(inr), sel(old, mir), sel(old, j)), [sel(new, j)]))
            st.fam["vs.e.val"] = z3.Store(st.fam["vs.e.val"], zi(f.oid), new)

        out = self.lock_handlers() + [
            (rx(r"^(void |Elem& )?" + V + r"(push_back\(Elem const&\)|emplace_back<Elem const&>\(Elem const&\)|emplace_back<Elem&>\(Elem&\))$"), append("copy")),
            (rx(r"^(void |Elem& )?" + V + r"(push_back\(Elem&&\)|emplace_back<Elem>\(Elem&&\))$"), append("move")),
            (rx(r"^(void |Elem& )?" + V + r"emplace_back<>\(\)$"), append("default")),
            (rx(r".*" + V + r"insert<std::reverse_iterator<.*"), insert(True)),
            (rx(r".*" + V + r"insert<__gnu_cxx::__normal_iterator<.*"), insert(False)),
            (rx(r"^" + V + r"reserve\(unsigned long\)$"), reserve),
            (rx(r"^" + V + r"clear\(\)$"), clear),
            (rx(r"^" + V + r"operator=\(std::vector<Elem, std::allocator<Elem>>&&\)$"), massign),
            (rx(r"^" + V + r"~vector\(\)$"), dtor),
            (rx(r"^void std::reverse<.*>\(.*\)$"), reverse),
        ]
        out += self.queue_handlers() + elem_handlers() + exc_handlers()
        return out

    def vec_pre(self, eng, st, p):
        for n, f in self.vec_ok(eng, st, p):
            eng.check(st, f, "vector-consistent:" + n)

    # ------------------------------------------------------------ std::queue
    def q(self, st, o=None, off=None):
        c = st.mem[o or self.obj]
        off = self.PRIO if off is None else off
        h, t = c[off][1], c[off + 8][1]
        return h.oid, h.idx, t.idx

    def set_q(self, st, p, oid, h, t):
        st.mem[p.obj][p.off] = (8, FPtr("pq", oid, h))
        st.mem[p.obj][p.off + 8] = (8, FPtr("pq", oid, t))

    def new_q(self, eng, st, h, t):
        k = st.gh["pq.ctr"]
        st.gh["pq.ctr"] = add(k, 1)
        st.fam["pq.alloc"] = z3.Store(st.fam["pq.alloc"], zi(k), z3.BoolVal(True))
        st.fam["pq.size"] = z3.Store(st.fam["pq.size"], zi(k), z3.IntVal(2 ** 62))
        lv = fresh("qlive", z3.ArraySort(I, B))
        j = fresh("j")
        st.assume(forall([j], sel(lv, j) == And(le(h, j), lt(j, t)), [sel(lv, j)]))
        st.fam["pq.e.live"] = z3.Store(st.fam["pq.e.live"], zi(k), lv)
        st.fam["pq.e.val"] = z3.Store(st.fam["pq.e.val"], zi(k), fresh("qrow", ARR1))
        st.assume(And(le(1, k), le(0, h), le(h, t), lt(t, MAXLEN)))
        return k

    def queue_handlers(self):
        Q = r"std::queue<Elem, std::deque<Elem, std::allocator<Elem>>>::"

        def pre(eng, st, p):
            if p.obj is self.obj and not self.exempt:
                self.guard(eng, st, p.off, True, False)
            eng.lib_used.add("std::queue")
            return self.q(st, p.obj, p.off)

        def ctor(eng, st, fn, a, ins):
            self.set_q(st, a[0], self.new_q(eng, st, 0, 0), 0, 0)

        def mctor(eng, st, fn, a, ins):
            o, h, t = self.q(st, a[1].obj, a[1].off)
            self.set_q(st, a[0], o, h, t)
            self.set_q(st, a[1], self.new_q(eng, st, 0, 0), 0, 0)

        def massign(eng, st, fn, a, ins):
            pre(eng, st, a[0])
            mctor(eng, st, fn, a, ins)
            return a[0]

        def dtor(eng, st, fn, a, ins):
            o, h, t = self.q(st, a[0].obj, a[0].off)
            st.fam["pq.alloc"] = z3.Store(st.fam["pq.alloc"], zi(o), z3.BoolVal(False))

        def push(how):
            def hd(eng, st, fn, a, ins):
                o, h, t = pre(eng, st, a[0])
                s = eng.elem_loc(st, a[1], "element-source")
                se = eng.elem_get(st, s)
                eng.check(st, se.live, "source-element-alive-at-append")
                for key, v in (("pq.e.live", z3.BoolVal(True)), ("pq.e.val", zi(se.val))):
                    st.fam[key] = z3.Store(st.fam[key], zi(o), z3.Store(sel(st.fam[key], o), zi(t), v))
                if how == "move":
                    eng.elem_set(st, s, Elem(True, fresh("moved")), False)
                self.set_q(st, a[0], o, h, add(t, 1))
                return FPtr("pq", o, t)
            return hd

        def front(eng, st, fn, a, ins):
            o, h, t = pre(eng, st, a[0])
            eng.check(st, lt(h, t), "front-of-a-non-empty-queue")
            return FPtr("pq", o, h)

        def back(eng, st, fn, a, ins):
            o, h, t = pre(eng, st, a[0])
            eng.check(st, lt(h, t), "back-of-a-non-empty-queue")
            return FPtr("pq", o, sub(t, 1))

        def pop(eng, st, fn, a, ins):
            o, h, t = pre(eng, st, a[0])
            eng.check(st, lt(h, t), "pop-of-a-non-empty-queue")
            st.fam["pq.e.live"] = z3.Store(st.fam["pq.e.live"], zi(o), z3.Store(sel(st.fam["pq.e.live"], o), zi(h), z3.BoolVal(False)))
            self.set_q(st, a[0], o, add(h, 1), t)

        def empty(eng, st, fn, a, ins):
            o, h, t = pre(eng, st, a[0])
            return le(t, h)

        def size(eng, st, fn, a, ins):
            o, h, t = pre(eng, st, a[0])
            return sub(t, h)
        return [
            (rx(r"^(void )?" + Q + r"queue(<.*>)?\(\)$"), ctor),
            (rx(r"^(void )?" + Q + r"queue\(std::queue<.*>&&\)$"), mctor),
            (rx(r"^" + Q + r"operator=\(std::queue<.*>&&\)$"), massign),
            (rx(r"^" + Q + r"~queue\(\)$"), dtor),
            (rx(r"^(.* )?" + Q + r"(push\(Elem const&\)|emplace<Elem const&>\(Elem const&\))$"), push("copy")),
            (rx(r"^(.* )?" + Q + r"(push\(Elem&&\)|emplace<Elem>\(Elem&&\))$"), push("move")),
            (rx(r"^" + Q + r"front\(\)( const)?$"), front),
            (rx(r"^" + Q + r"back\(\)( const)?$"), back),
            (rx(r"^" + Q + r"pop\(\)$"), pop),
            (rx(r"^" + Q + r"empty\(\) const$"), empty),
            (rx(r"^" + Q + r"size\(\) const$"), size),
        ]

    # ------------------------------------------------------------ shared state
    def cur(self, st):
        """current lengths as this thread may rely on them"""
        g = st.gh
        lu = self.vec(st, Ptr(self.obj, self.PUSH))[1] if g["h.push"] else g["lenU"]
        lp = self.vec(st, Ptr(self.obj, self.PULL))[1] if g["h.pull"] else g["lenP"]
        lq = 0
        if self.kind == "bpq":
            if g["h.pull"]:
                o, h, t = self.q(st)
                lq = sub(t, h)
            else:
                lq = g["lenQ"]
        return lu, lp, lq

    def invA(self, lu, lp, lq, pi, flag):
        return Or(lt(0, lp), lt(0, lq), lt(0, pi), And(eq(lu, 0), flag))

    def invB(self, lp, lq, p, w):
        return Or(eq(w, 0), lt(0, p), And(eq(lp, 0), eq(lq, 0)))

    def interfere(self, eng, st):
        """other threads run: rely"""
        if self.exempt:
            return
        g = st.gh
        hp, hu = g["h.pull"], g["h.push"]
        o = dict(g)
        if not hu:
            g["lenU"] = fresh("lenU")
            st.assume(And(le(0, g["lenU"]), lt(g["lenU"], MAXLEN)))
        if not hp:
            g["lenP"], g["lenQ"] = fresh("lenP"), fresh("lenQ")
            st.assume(And(le(0, g["lenP"]), lt(g["lenP"], MAXLEN), le(0, g["lenQ"]), lt(g["lenQ"], MAXLEN)))
            if self.kind != "bpq":
                g["lenQ"] = 0
        g["flag"] = fresh("flag", B)
        g["pendIO"], g["pend"], g["W"] = fresh("pendIO"), fresh("pend"), fresh("W")
        # pendIO: other pushes announced and not yet inserted; pend: other pushes announced and not yet notified
        st.assume(And(le(0, g["pendIO"]), le(g["pendIO"], g["pend"]), le(0, g["W"])))
        if g.get("first"):
            g["first"] = False
            return
        if hp and not hu:
            st.assume(le(o["lenU"], g["lenU"]))          # only the pull side takes from U
            if self.kind == "sq":
                st.assume(Implies(And(g["Uz"], eq(o["lenU"], 0)), eq(g["lenU"], 0)))
        if self.kind == "sq":
            if hp:
                st.assume(zb(g["flag"]) == zb(o["flag"]))
            return
        if hp or hu:
            st.assume(Implies(Not(o["flag"]), Not(g["flag"])))
        if hp:
            st.assume(And(le(o["pendIO"], g["pendIO"]), le(g["W"], o["W"])))
            mine = g["pendI"]
            lu0 = self.cur(st)[0] if hu else o["lenU"]
            lu1 = self.cur(st)[0] if hu else g["lenU"]
            st.assume(Implies(Or(lt(0, add(o["pendIO"], mine)), And(eq(lu0, 0), o["flag"])),
                              Or(lt(0, add(g["pendIO"], mine)), And(eq(lu1, 0), g["flag"]))))
            pm = add(g["pendI"], g["pendN"])
            st.assume(Implies(Or(eq(o["W"], 0), lt(0, add(o["pend"], pm))), Or(eq(g["W"], 0), lt(0, add(g["pend"], pm)))))

    def pull_inv(self, st, lu, lp, lq):
        """what holds whenever the pull lock is free"""
        g = st.gh
        if self.kind == "sq":
            return [("sq:pull-empty-means-all-empty", Implies(eq(lp, 0), eq(lu, 0)), LIN),
                    ("sq:flag-agrees-with-contents", zb(g["flag"]) == zb(eq(lp, 0)), LIN)]
        pi = add(g["pendIO"], g["pendI"])
        pt = add(g["pend"], add(g["pendI"], g["pendN"]))
        return [("flag-agrees-with-contents", Implies(Or(lt(0, lp), lt(0, lq)), Not(g["flag"])), LIN + WAKE),
                ("nothing-stranded-on-the-push-side", self.invA(lu, lp, lq, pi, g["flag"]), LIN + WAKE),
                ("no-waiter-left-behind", self.invB(lp, lq, pt, g["W"]), WAKE)]

    def push_inv(self, st, lu):
        g = st.gh
        if self.kind == "sq":
            return []
        return [("flag-clear-while-push-side-holds-elements", Implies(lt(0, lu), Not(g["flag"])), LIN + WAKE)]

    def acquire(self, eng, st, w):
        self.interfere(eng, st)
        g = st.gh
        if w == "push":
            n = g["lenU"]
            oid, row = self.new_vec(eng, st, n)
            self.set_vec(eng, st, Ptr(self.obj, self.PUSH), oid, n)
            g["U0"], g["U0n"] = row, n
            g["anch"] = False
            for nm, f, t in self.push_inv(st, n):
                st.assume(f)
            g["uempty"] = Or(g["uempty"], eq(n, 0))
            if g["h.pull"]:
                self.note_empty(eng, st, n)
        else:
            n = g["lenP"]
            oid, row = self.new_vec(eng, st, n)
            self.set_vec(eng, st, Ptr(self.obj, self.PULL), oid, n)
            # the abstract stream: E = P reversed
            ev = fresh("Ev", ARR1)
            k = fresh("k")
            st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), sel(row, k) == sel(ev, sub(sub(n, 1), k))), [sel(row, k)]))
            g["Ev"], g["eh"], g["et"] = ev, 0, n
            g["nt"] = False
            g["Uz"] = eq(n, 0)
            if self.kind == "bpq":
                h = fresh("qh")
                t = add(h, g["lenQ"])
                st.assume(le(0, h))
                q = self.new_q(eng, st, h, t)
                self.set_q(st, Ptr(self.obj, self.PRIO), q, h, t)
                g["Q0"], g["Q0h"], g["Q0t"] = sel(st.fam["pq.e.val"], q), h, t
            lu = self.vec(st, Ptr(self.obj, self.PUSH))[1] if g["h.push"] else g["lenU"]
            for nm, f, t in self.pull_inv(st, lu, n, g["lenQ"]):
                st.assume(f)
            if self.kind == "sq":
                g["seen"] = Or(g["seen"], eq(n, 0))
            g["seenP"] = Or(g["seenP"], And(eq(n, 0), eq(g["lenQ"], 0)))

    def note_empty(self, eng, st, lu):
        """both locks held: record what the whole queue looks like at this moment"""
        g = st.gh
        _, lp, lq = None, self.vec(st, Ptr(self.obj, self.PULL))[1], 0
        if self.kind == "bpq":
            o, h, t = self.q(st)
            lq = sub(t, h)
        g["seen"] = Or(g["seen"], And(eq(lu, 0), eq(lp, 0), eq(lq, 0)))
        g["szobs"] = add(add(lu, lp), lq)
        # the oldest element when only U holds elements
        uo = And(eq(lp, 0), eq(lq, 0), lt(0, lu))
        if g.get("U0") is not None:
            g["peekval"] = If(uo, sel(g["U0"], 0), g["peekval"])
            g["peekok"] = Or(g["peekok"], uo)

    def appended(self, row, n0, row0, n):
        """row = row0[0..n0) ++ ws"""
        k = fresh("k")
        return And(eq(n, add(n0, self.n)),
                   forall([k], Implies(And(le(0, k), lt(k, n0)), sel(row, k) == sel(row0, k))),
                   forall([k], Implies(And(le(0, k), lt(k, self.n)), sel(row, add(n0, k)) == sel(self.ws, k))))

    def same(self, row, n0, row0, n):
        k = fresh("k")
        return And(eq(n, n0), forall([k], Implies(And(le(0, k), lt(k, n)), sel(row, k) == sel(row0, k))))

    def release(self, eng, st, w):
        self.interfere(eng, st)
        g = st.gh
        c = lambda f, nm, tags=LIN: eng.check(st, f, nm, tags)
        if w == "push":
            p = Ptr(self.obj, self.PUSH)
            for nm, f in self.vec_ok(eng, st, p):
                c(f, "push-side-consistent:" + nm, CORE)
            oid, n = self.vec(st, p)
            n0, row0 = g["U0n"], g["U0"]
            row = self.row(st, oid)
            if g["h.pull"] and self.fork(eng, st, And(lt(0, n0), eq(n, 0))):
                # transfer (or clear): U moves behind E
                if self.op != "clear":
                    ev, et = g["Ev"], g["et"]
                    ne = fresh("Ev", ARR1)
                    k = fresh("k")
                    st.assume(forall([k], sel(ne, k) == z3.If(zb(lt(k, et)), sel(ev, k), sel(row0, sub(k, et))), [sel(ne, k)]))
                    g["Ev"], g["et"] = ne, add(et, n0)
            else:
                grown = Not(eq(n, n0))
                if self.fork(eng, st, grown):
                    c(And(eq(g["app"], 0), self.target == "ord"), "elements-enter-the-queue-once")
                    c(self.appended(row, n0, row0, n), "push-side-grows-by-exactly-the-pushed-elements")
                    if self.kind == "sq" and not g["h.pull"]:
                        # anchored: the pull side was seen non-empty with the push lock already held
                        c(Or(lt(0, n0), g["anch"]), "append-without-pull-lock-only-behind-other-elements")
                    g["app"] = self.n
                else:
                    c(self.same(row, n0, row0, n), "push-side-elements-unchanged")
            for nm, f, t in self.push_inv(st, n):
                c(f, "push-release:" + nm, t)
            g["lenU"] = n
            if g["h.pull"]:
                self.note_empty_after(st, n)
                g["Uz"] = True
            self.drop_vec(st, oid)
        else:
            p = Ptr(self.obj, self.PULL)
            for nm, f in self.vec_ok(eng, st, p):
                c(f, "pull-side-consistent:" + nm, CORE)
            oid, n = self.vec(st, p)
            row = self.row(st, oid)
            ev, eh, et = g["Ev"], g["eh"], g["et"]
            le_ = sub(et, eh)
            lq, dq = 0, 0
            k = fresh("k")
            if self.kind == "bpq":
                qo, h, t = self.q(st)
                lq = sub(t, h)
                h0, t0, q0 = g["Q0h"], g["Q0t"], g["Q0"]
                qrow = sel(st.fam["pq.e.val"], qo)
                j = fresh("j")
                c(And(le(h, t), sel(st.fam["pq.alloc"], qo)), "priority-queue-consistent:length", CORE)
                c(forall([j], sel(st.fam["pq.e.live"], qo, j) == And(le(h, j), lt(j, t))), "priority-queue-consistent:live", CORE)
                if self.op == "clear":
                    c(Or(eq(h, t), And(eq(h, h0), eq(t, t0))), "clear-removes-everything")
                else:
                    c(And(le(h0, h), le(h, add(h0, 1))), "priority-elements-leave-from-the-front")
                    c(forall([k], Implies(And(le(h, k), lt(k, t), lt(k, t0)), sel(qrow, k) == sel(q0, k))),
                      "priority-elements-unchanged")
                    if self.fork(eng, st, Not(eq(t, t0))):
                        c(And(eq(g["app"], 0), self.target == "prio"), "elements-enter-the-queue-once")
                        c(And(eq(t, add(t0, self.n)),
                              forall([k], Implies(And(le(0, k), lt(k, self.n)), sel(qrow, add(t0, k)) == sel(self.ws, k)))),
                          "priority-queue-grows-by-exactly-the-pushed-elements")
                        g["app"] = self.n
                    dq = sub(h, h0)
                    g["ret"] = If(eq(dq, 1), sel(q0, h0), g["ret"])
                    g["deq"] = add(g["deq"], dq)
                # oldest element in delivery order
                g["peekval"] = If(lt(h0, t0), sel(q0, h0), If(lt(0, le_), sel(ev, eh), g["peekval"]))
                g["peekok"] = Or(g["peekok"], lt(h0, t0), lt(0, le_))
            else:
                g["peekval"] = If(lt(0, le_), sel(ev, eh), g["peekval"])
                g["peekok"] = Or(g["peekok"], lt(0, le_))
            if self.op == "clear":
                c(Or(eq(n, 0), And(eq(le_, n), forall([k], Implies(And(le(0, k), lt(k, n)),
                  sel(row, k) == sel(ev, sub(sub(et, 1), k)))))), "clear-removes-everything")
            elif self.fork(eng, st, And(eq(le_, 0), lt(0, n))):
                c(And(eq(g["app"], 0), self.target == "ord"), "elements-enter-the-queue-once")
                c(g["uempty"], "direct-insertion-only-when-the-push-side-was-empty")
                c(And(eq(n, self.n), forall([k], Implies(And(le(0, k), lt(k, n)), sel(row, k) == sel(self.ws, sub(sub(n, 1), k))))),
                  "pull-side-holds-exactly-the-pushed-elements")
                g["app"] = self.n
            else:
                d = sub(le_, n)
                c(And(le(0, d), le(d, 1)), "at-most-one-element-leaves-the-pull-side")
                c(forall([k], Implies(And(le(0, k), lt(k, n)), sel(row, k) == sel(ev, sub(sub(et, 1), k)))),
                  "pull-side-keeps-order-and-contents")
                if self.kind == "bpq":
                    c(Or(eq(d, 0), eq(g["Q0h"], g["Q0t"])), "priority-elements-first")
                g["ret"] = If(eq(d, 1), sel(ev, eh), g["ret"])
                g["deq"] = add(g["deq"], d)
            c(le(g["deq"], 1), "at-most-one-element-taken")
            g["seenP"] = Or(g["seenP"], And(eq(n, 0), eq(lq, 0)))
            # the announcement is no longer needed once the pull side holds elements
            done = Or(eq(g["app"], self.n), lt(0, n), lt(0, lq))
            if self.op == "push" and not (isc(g["pendI"]) and g["pendI"] == 0):
                pi = g["pendI"]
                g["pendN"] = If(And(done, Not(g["nt"])), add(g["pendN"], pi), g["pendN"])
                g["pendI"] = If(done, 0, pi)
            lu = self.vec(st, Ptr(self.obj, self.PUSH))[1] if g["h.push"] else g["lenU"]
            for nm, f, t in self.pull_inv(st, lu, n, lq):
                c(f, "pull-release:" + nm, t)
            g["lenP"], g["lenQ"] = n, lq
            g["anch"] = Or(g["anch"], And(bool(g["h.push"]), lt(0, n)))
            self.drop_vec(st, oid)
            if self.kind == "bpq":
                st.fam["pq.alloc"] = z3.Store(st.fam["pq.alloc"], zi(qo), z3.BoolVal(False))

    def note_empty_after(self, st, n):
        g = st.gh
        lp = self.vec(st, Ptr(self.obj, self.PULL))[1]
        lq = 0
        if self.kind == "bpq":
            o, h, t = self.q(st)
            lq = sub(t, h)
        g["seen"] = Or(g["seen"], And(eq(n, 0), eq(lp, 0), eq(lq, 0)))
        g["szobs"] = add(add(n, lp), lq)

    def fork(self, eng, st, cond):
        """truth of a condition the state was split on"""
        cnd = conc(cond)
        if isinstance(cnd, bool):
            return cnd
        t, f = eng.feasible(st, cnd), eng.feasible(st, Not(cnd))
        if t and f:
            raise Unsupported("undecided case at a release")
        st.assume(cnd if t else Not(cnd))
        return t

    # ------------------------------------------------------------ flag, waiting
    def flag_load(self, eng, st):
        self.interfere(eng, st)
        st.gh["flagobs"] = st.gh["flag"]
        return eng.to_int(st.gh["flag"])

    def set_flag(self, eng, st, v, old):
        g = st.gh
        v = conc(v)
        c = lambda f, nm, tags=LIN + WAKE: eng.check(st, f, nm, tags)
        if self.kind == "sq":
            c(bool(g["h.pull"]), "flag-changed-only-under-the-pull-lock")
        else:
            # setting the flag claims an empty queue: both locks must be held
            c(Implies(And(v, Not(old)), bool(g["h.pull"] and g["h.push"])), "flag-set-only-with-both-locks-held")
            clr = And(Not(v), old)
            if not (isc(conc(clr)) and conc(clr) is False):
                c(Implies(clr, self.op == "push"), "flag-cleared-only-by-pushes")
                if self.op == "push":
                    g["pendI"] = If(And(clr, eq(g["app"], 0)), 1, g["pendI"])
                    g["pendN"] = If(And(clr, Not(eq(g["app"], 0))), 1, g["pendN"])
        g["flag"] = v

    def flag_store(self, eng, st, v):
        self.interfere(eng, st)
        self.set_flag(eng, st, v, st.gh["flag"])

    def flag_cas(self, eng, st, exp, new, work, ins):
        self.interfere(eng, st)
        old = st.gh["flag"]
        ok = conc(zb(old) == zb(exp))
        outs = []
        for want in (True, False):
            f = ok if want else Not(ok)
            if not eng.feasible(st, f):
                continue
            s = st.copy()
            s.assume(f)
            if want:
                self.set_flag(eng, s, new, old)
            s.frames[-1].regs[ins.res] = [eng.to_int(old), want]
            outs.append(s)
        work += outs
        return "fork"

    def do_wait(self, eng, st, w, timed=False):
        eng.check(st, w == "pull", "waiting-on-the-pull-lock", RACE + WAKE)
        st.gh["W"] = add(st.gh["W"], 1)
        out = self.split(eng, st, w)
        for s in out:
            self.release(eng, s, w)
            s.gh["h.pull"] = False
            self.acquire(eng, s, w)
            s.gh["h.pull"] = True
        return out

    def cases(self, st, w):
        g = st.gh
        n = self.vec(st, Ptr(self.obj, self.PUSH if w == "push" else self.PULL))[1]
        if w == "push":
            return [And(lt(0, g["U0n"]), eq(n, 0)), Not(eq(n, g["U0n"]))]
        out = [And(eq(sub(g["et"], g["eh"]), 0), lt(0, n))]
        if self.kind == "bpq":
            out.append(Not(eq(self.q(st)[2], g["Q0t"])))
        return out

    def do_notify(self, eng, st, all_):
        self.interfere(eng, st)
        g = st.gh
        if all_:
            g["W"] = 0
        else:
            w = g["W"]
            g["W"] = If(lt(0, w), sub(w, 1), w)
            g["nt"] = Or(g["nt"], And(bool(g["h.pull"]), eq(g["W"], 0)))
            # a single notification completes the announcement only when nobody else waits
            g["pendN"] = If(eq(g["W"], 0), 0, g["pendN"])
            return
        if g["h.pull"]:
            g["nt"] = True
        if self.op == "push":
            g["pendN"] = 0

    # ------------------------------------------------------------ exits
    def common_post(self, st):
        g = st.gh
        out = [("locks-released", And(Not(g["h.push"]), Not(g["h.pull"])), RACE),
               ("announced-push-completed", eq(g["pendI"], 0), WAKE + LIN),
               ("waiting-consumers-notified", eq(g["pendN"], 0), WAKE),
               ("elements-enter-the-queue-exactly-once", eq(g["app"], self.n if self.op == "push" else 0), LIN)]
        if self.op not in ("take",):
            out.append(("nothing-taken", eq(g["deq"], 0), LIN))
        return out

    op = "none"

    def more_cands(self, eng, st, info):
        out = self.append_cands(eng, st, info)
        if self.kind == "bpq" and self.PRIO in st.mem.get(self.obj, {}):
            def f(s):
                o, h, t = self.q(s)
                j = fresh("j")
                return And(le(h, t), sel(s.fam["pq.alloc"], o),
                           forall([j], sel(s.fam["pq.e.live"], o, j) == And(le(h, j), lt(j, t)), [sel(s.fam["pq.e.live"], o, j)]))
            o0 = self.q(st)[0]
            out.append(("priority-queue-consistent", f))
            out.append(("priority-queue-storage", lambda s, o0=o0: eq(self.q(s)[0], o0)))
        return out


    def modular_try_pop(self):
        """the waiting takes use the contract of try_pop (proved by the unit try_pop)"""
        def h(eng, st, fn, a, ins):
            g = st.gh
            for v in self.locks.values():
                eng.check(st, not g["h." + v], "precondition-of-try_pop:no-lock-held", RACE)
            if g["h.pull"] or g["h.push"]:
                raise PathEnd()
            if len(a) != 2 or not isinstance(a[0], Ptr) or not (isinstance(a[1], Ptr) and a[1].obj is self.obj):
                return "inline"
            eng.contracts_used.add(self.kind + ".try_pop")
            eng.check(st, eq(g["deq"], 0), "at-most-one-element-taken", LIN)
            self.interfere(eng, st)
            r, b = a[0].obj, a[0].off
            eng.clear_cells(st.mem[r], b, 32)
            s2 = st.copy()
            v = fresh("taken")
            st.gh["deq"], st.gh["ret"] = 1, v
            st.mem[r][b] = (24, Elem(True, v))
            st.mem[r][b + 24] = (1, 1)
            s2.mem[r][b + 24] = (1, 0)
            s2.gh["seen"] = True
            s2.gh["seenP"] = True
            return ("fork", [(st, None), (s2, None)])
        self.eng.intercepts.insert(0, (rx(r"^gmlc::containers::Blocking(Priority)?Queue<.*>::try_pop\(\)$"), h))

    # ------------------------------------------------------------ exclusive objects (constructors, moves, destructor)
    def raw(self):
        self.st.mem[self.obj] = {}

    def fill(self, eng, st, o):
        """an arbitrary quiescent queue in o"""
        nu, npl = fresh("lenU"), fresh("lenP")
        fl = fresh("flag", B)
        for off, n in ((self.PUSH, nu), (self.PULL, npl)):
            oid, row = self.new_vec(eng, st, n)
            self.set_vec(eng, st, Ptr(o, off), oid, n)
        st.mem[o][self.FLAG] = (1, eng.to_int(fl))
        if self.kind == "bpq":
            h, t = fresh("qh"), fresh("qt")
            q = self.new_q(eng, st, h, t)
            self.set_q(st, Ptr(o, self.PRIO), q, h, t)
        st.assume([f for _, f in self.quiescent(eng, st, o)])

    def quiescent(self, eng, st, o):
        lu, lp = self.vec(st, Ptr(o, self.PUSH))[1], self.vec(st, Ptr(o, self.PULL))[1]
        fl = eng.as_bool(st.mem[o][self.FLAG][1])
        if self.kind == "sq":
            return [("pull-empty-means-all-empty", Implies(eq(lp, 0), eq(lu, 0))),
                    ("flag-agrees-with-contents", zb(fl) == zb(eq(lp, 0)))]
        lq = 0
        if self.kind == "bpq":
            _, h, t = self.q(st, o, self.PRIO)
            lq = sub(t, h)
        return [("flag-agrees-with-contents", Implies(Or(lt(0, lp), lt(0, lq), lt(0, lu)), Not(fl))),
                ("nothing-stranded-on-the-push-side", self.invA(lu, lp, lq, 0, fl))]

    def consistent(self, eng, st, o, nm):
        out = []
        for off, side in ((self.PUSH, "push"), (self.PULL, "pull")):
            for n, f in self.vec_ok(eng, st, Ptr(o, off)):
                out.append(("%s:%s-side-consistent:%s" % (nm, side, n), f, CORE))
        if self.kind == "bpq":
            q, h, t = self.q(st, o, self.PRIO)
            j = fresh("j")
            out.append((nm + ":priority-queue-consistent", And(le(h, t), sel(st.fam["pq.alloc"], q),
                        forall([j], sel(st.fam["pq.e.live"], q, j) == And(le(h, j), lt(j, t)))), CORE))
        for n, f in self.quiescent(eng, st, o):
            out.append((nm + ":" + n, f, LIN + WAKE))
        return out

    def is_empty(self, eng, st, o, nm):
        lu, lp = self.vec(st, Ptr(o, self.PUSH))[1], self.vec(st, Ptr(o, self.PULL))[1]
        lq = 0
        if self.kind == "bpq":
            _, h, t = self.q(st, o, self.PRIO)
            lq = sub(t, h)
        return [(nm + ":empty", And(eq(lu, 0), eq(lp, 0), eq(lq, 0), eng.as_bool(st.mem[o][self.FLAG][1])), LIN)]

    def moved(self, eng, st, o, pre, po):
        """contents of o in st are those of po in pre"""
        def at(s, ob):
            u, nu = self.vec(s, Ptr(ob, self.PUSH))
            p, np_ = self.vec(s, Ptr(ob, self.PULL))
            ur, pr = self.row(s, u), self.row(s, p)
            return add(nu, np_), lambda k: z3.If(zb(lt(k, np_)), sel(pr, sub(sub(np_, 1), k)), sel(ur, sub(k, np_)))
        n1, f1 = at(st, o)
        n0, f0 = at(pre, po)
        k = fresh("k")
        out = [("contents-transferred", And(eq(n1, n0), forall([k], Implies(And(le(0, k), lt(k, n0)), f1(k) == f0(k)))), LIN)]
        if self.kind == "bpq":
            q1, h1, t1 = self.q(st, o, self.PRIO)
            q0, h0, t0 = self.q(pre, po, self.PRIO)
            r1, r0 = sel(st.fam["pq.e.val"], q1), sel(pre.fam["pq.e.val"], q0)
            out.append(("priority-contents-transferred", And(eq(sub(t1, h1), sub(t0, h0)),
                        forall([k], Implies(And(le(0, k), lt(k, sub(t0, h0))), sel(r1, add(h1, k)) == sel(r0, add(h0, k))))), LIN))
        return out


class Air(Base):
    FAMS = []

    def __init__(self, kind, built, name, deadline, mode="shared"):
        lay = build.find_layout(built.layouts, r"^gmlc::containers::AirLock<")
        self.off = build.field_map(lay, ["loaded", "door", "data", "condition"])
        self.locks = {self.off["door"]: "door"}
        super().__init__(kind, built, name, deadline)
        self.exempt = mode != "shared"
        st, eng = self.st, self.eng
        o = self.obj = Obj("this", None, "this")
        st.mem[o] = {}
        st.gh.update({"h.door": False, "deq": 0, "ret": 0, "app": 0, "seen": False, "seenL": False, "pendM": 0, "val": 0,
                      "flagobs": False, "timedout": False})
        if mode == "shared":
            g = st.gh
            g["L"], g["D"] = fresh("L", B), fresh("D")
            for k in ("W", "N", "pend"):
                g[k] = fresh(k)
            st.mem[o][self.off["data"]] = (24, Elem(True, fresh("D")))
            self.interfere(eng, st)
        self.op = "none"
        self.n = 0

    def more_cands(self, eng, st, info):
        d = self.off["data"]
        if not st.gh["h.door"] or d not in st.mem[self.obj]:
            return []
        e = lambda s: s.mem[self.obj][d][1]
        return [("state-as-at-entry-of-the-critical-section", lambda s: zb(s.gh["L"]) == zb(s.gh["L0"])),
                ("data-as-at-entry-of-the-critical-section", lambda s: eq(e(s).val, s.gh["D0"])),
                ("data-alive", lambda s: e(s).live),
                ("nothing-loaded-yet", lambda s: eq(s.gh["app"], 0)),
                ("nothing-unloaded-yet", lambda s: eq(s.gh["deq"], 0)),
                ("nothing-pending", lambda s: eq(s.gh["pendM"], 0)),
                ("waiters-accounted-for", lambda s: self.inv(s.gh))]

    def handlers(self):
        return self.lock_handlers() + elem_handlers() + exc_handlers()

    def region(self, off):
        if off == self.off["loaded"]:
            return "atomic"
        if self.off["data"] <= off < self.off["data"] + 24:
            return "door"
        return None

    def inv(self, g):
        """waiting loaders are behind a loaded lock, or a notified loader is on its way"""
        return Or(g["L"], eq(g["W"], 0), lt(0, g["N"]), lt(0, add(g["pend"], g["pendM"])))

    def interfere(self, eng, st):
        if self.exempt:
            return
        g = st.gh
        o = dict(g)
        for k in ("W", "N", "pend"):
            g[k] = fresh(k)
            st.assume(le(0, g[k]))
        if not g["h.door"]:
            g["L"] = fresh("L", B)
        elif "W0" in g:
            # while the door is held nobody starts or finishes waiting; a pending notification may arrive
            st.assume(And(le(g["W"], o["W"]), le(o["N"], g["N"])))
            st.assume(Implies(self.inv(o), self.inv(g)))

    def acquire(self, eng, st, w):
        g = st.gh
        self.interfere(eng, st)
        st.assume(self.inv(g))
        g["W0"] = 0
        v = fresh("D")
        st.mem[self.obj][self.off["data"]] = (24, Elem(True, v))
        g["L0"], g["D0"] = g["L"], v
        self.note(st)

    def note(self, st):
        g = st.gh
        g["seen"] = Or(g["seen"], Not(g["L"]))
        g["seenL"] = Or(g["seenL"], g["L"])

    def cases(self, st, w):
        return [st.gh["L0"], st.gh["L"]]

    def release(self, eng, st, w):
        self.interfere(eng, st)
        g = st.gh
        c = lambda f, nm, tags=LIN: eng.check(st, f, nm, tags)
        e = st.mem[self.obj][self.off["data"]][1]
        c(e.live, "data-element-alive", CORE)
        d = e.val
        c(Implies(And(g["L0"], g["L"]), eq(d, g["D0"])), "value-never-overwritten-while-held")
        ld = And(Not(g["L0"]), g["L"])
        ud = And(g["L0"], Not(g["L"]))
        c(Implies(ld, And(self.op == "load", eq(g["app"], 0), eq(d, self.val))), "own-value-placed-once")
        c(Implies(ud, And(self.op == "unload", eq(g["deq"], 0))), "value-unloaded-once")
        g["app"] = If(ld, add(g["app"], 1), g["app"])
        g["ret"] = If(ud, g["D0"], g["ret"])
        g["deq"] = If(ud, add(g["deq"], 1), g["deq"])
        c(self.inv(g), "waiting-loader-notified")
        del g["W0"]
        st.mem[self.obj][self.off["data"]] = (24, Elem(True, fresh("D")))

    def flag_load(self, eng, st):
        self.interfere(eng, st)
        self.note(st)
        st.gh["flagobs"] = st.gh["L"]
        return eng.to_int(st.gh["L"])

    def set_flag(self, eng, st, v, old):
        g = st.gh
        v = conc(v)
        eng.check(st, bool(g["h.door"]), "loaded-changed-only-behind-the-door", LIN + RACE)
        if not g["h.door"]:
            raise PathEnd()
        e = st.mem[self.obj][self.off["data"]][1]
        clr = And(old, Not(v))
        st.gh["pendM"] = If(clr, 1, st.gh["pendM"])
        g["L"] = v
        self.note(st)

    def flag_store(self, eng, st, v):
        self.interfere(eng, st)
        self.set_flag(eng, st, v, st.gh["L"])

    def flag_cas(self, eng, st, exp, new, work, ins):
        self.interfere(eng, st)
        old = st.gh["L"]
        ok = conc(zb(old) == zb(exp))
        outs = []
        for want in (True, False):
            f = ok if want else Not(ok)
            if not eng.feasible(st, f):
                continue
            s = st.copy()
            s.assume(f)
            if want:
                self.set_flag(eng, s, new, old)
            else:
                self.note(s)
            s.frames[-1].regs[ins.res] = [eng.to_int(old), want]
            outs.append(s)
        work += outs
        return "fork"

    def do_wait(self, eng, st, w, timed=False):
        st.gh["W"] = add(st.gh["W"], 1)
        out = []
        for s in self.split(eng, st, w):
            self.release(eng, s, w)
            s.gh["h.door"] = False
            self.acquire(eng, s, w)
            s.gh["h.door"] = True
            out.append(s)
            # woken by a notification, or spuriously
            s2 = s.copy()
            s.assume(lt(0, s.gh["N"]))
            s.gh["N"] = sub(s.gh["N"], 1)
            s.gh["woken"] = True
            s2.assume(lt(0, s2.gh["W"]))
            s2.gh["W"] = sub(s2.gh["W"], 1)
            out.append(s2)
        return out

    def do_notify(self, eng, st, all_):
        self.interfere(eng, st)
        g = st.gh
        w = g["W"]
        if all_:
            g["N"] = add(g["N"], w)
            g["W"] = 0
        else:
            g["N"] = If(lt(0, w), add(g["N"], 1), g["N"])
            g["W"] = If(lt(0, w), sub(w, 1), w)
        g["pendM"] = 0

    def common_post(self, st):
        g = st.gh
        return [("locks-released", Not(g["h.door"]), RACE),
                ("waiting-loader-notified", eq(g["pendM"], 0), LIN),
                ("nothing-else-loaded", eq(g["app"], 0) if self.op != "load" else True, LIN),
                ("nothing-else-unloaded", eq(g["deq"], 0) if self.op != "unload" else True, LIN)]


# ------------------------------------------------------------------ units
def elem_obj(st, nm="arg"):
    e = Obj(nm, 24)
    v = fresh(nm)
    st.mem[e] = {0: (24, Elem(True, v))}
    return e, v


def opt_result(eng, st, r):
    cells = st.mem[r]
    fl = cells.get(24)
    if fl is None:
        return None, None
    e = cells.get(0)
    return eng.as_bool(fl[1]), (e[1] if e else None)


PROPS_OF = {"sq": ["C16", "C23"], "bq": ["C17", "C18", "C23"], "bpq": ["C19", "C18", "C23"], "al": ["C20", "C23"]}


def units():
    out = []

    def add_unit(kind, nm, run, desc):
        drv = {"sq": "sq", "bq": "bq", "bpq": "bq", "al": "al"}[kind]
        u = Unit("%s.%s" % (kind, nm), PROPS_OF[kind], drv, [1 if kind == "bpq" else 0], run, desc)
        out.append(u)

    def qunit(kind, fname, op, setup, post, mode="shared", target="ord"):
        def run(built, variant, deadline):
            c = Queue(kind, built, "%s.%s" % (kind, fname), deadline, mode, 0, target)
            c.op = op
            st, eng = c.st, c.eng
            if op == "take" and fname != "try_pop":
                c.modular_try_pop()
            args = setup(c, eng, st) if setup else []
            c.pre = st.snap()

            def pst(k, s, v):
                r = list(c.common_post(s))
                if post:
                    r += post(c, eng, s, v)
                return r
            drive(eng, st, "vc_" + fname, [Ptr(c.obj, 0)] + args, pst)
            return eng
        add_unit(kind, fname, run, op)

    def s_elem(c, eng, st):
        e, v = elem_obj(st)
        c.n = 1
        c.arg, c.argval = e, v
        st.assume(eq(sel(c.ws, 0), v))
        return [Ptr(e, 0)]

    def p_const(c, eng, s, v):
        e = s.mem[c.arg][0][1]
        return [("argument-unchanged", And(e.live, eq(e.val, c.argval)), CORE)]

    def p_moved(c, eng, s, v):
        return [("argument-still-alive", s.mem[c.arg][0][1].live, CORE)]

    def s_vec(c, eng, st):
        o = Obj("val", 24)
        st.mem[o] = {}
        n = fresh("n")
        oid, row = c.new_vec(eng, st, n)
        c.set_vec(eng, st, Ptr(o, 0), oid, n)
        c.n = n
        c.argv = (o, oid, row)
        k = fresh("k")
        st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), sel(c.ws, k) == sel(row, k)), [sel(row, k)]))
        st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), sel(c.ws, k) == sel(row, k)), [sel(c.ws, k)]))
        return [Ptr(o, 0)]

    def p_vec(c, eng, s, v):
        o, oid, row = c.argv
        k = fresh("k")
        return [("argument-unchanged", And(eq(c.vec(s, Ptr(o, 0))[1], c.n), sel(s.fam["vs.alloc"], oid),
                 forall([k], Implies(And(le(0, k), lt(k, c.n)), And(sel(s.fam["vs.e.live"], oid, k),
                                                                    sel(s.fam["vs.e.val"], oid, k) == sel(row, k))))), CORE)]

    def s_opt(c, eng, st):
        r = Obj("result", 32)
        st.mem[r] = {}
        c.r = r
        return [Ptr(r, 0)]

    def s_plain(c, eng, st):
        r = Obj("result", 24)
        st.mem[r] = {}
        c.r = r
        return [Ptr(r, 0)]

    def got(c, eng, s, none):
        b, e = opt_result(eng, s, c.r)
        if b is None:
            return [("result-is-constructed", False, CORE)]
        g = s.gh
        out = [("result-engaged-iff-taken", zb(b) == zb(eq(g["deq"], 1)), LIN),
               ("nothing-returned-only-if-empty", Implies(Not(b), none(g)), LIN)]
        if e is not None:
            out += [("result-is-the-oldest-element", Implies(b, And(e.live, eq(e.val, g["ret"]))), LIN)]
        else:
            out += [("result-holds-a-value", Not(b), LIN)]
        return out

    def p_take(c, eng, s, v):
        return got(c, eng, s, lambda g: g["seen"])

    def p_timed(c, eng, s, v):
        return got(c, eng, s, lambda g: And(g["seen"], g["timedout"]))

    def p_value(c, eng, s, v):
        e = s.mem[c.r].get(0)
        g = s.gh
        return [("result-is-the-oldest-element", And(eq(g["deq"], 1), e is not None and And(e[1].live, eq(e[1].val, g["ret"]))), LIN)]

    def p_peek(none):
        def f(c, eng, s, v):
            b, e = opt_result(eng, s, c.r)
            if b is None:
                return [("result-is-constructed", False, CORE)]
            g = s.gh
            out = [("nothing-returned-only-if-empty", Implies(Not(b), none(g)), LIN)]
            out.append(("result-is-the-oldest-element",
                        Implies(b, And(g["peekok"], e is not None and And(e.live, eq(e.val, g["peekval"])))), LIN))
            return out
        return f

    def p_size(c, eng, s, v):
        return [("result-is-the-size-at-one-moment", eq(v, s.gh["szobs"]), LIN)]

    def p_empty(c, eng, s, v):
        return [("result-is-the-flag-at-one-moment", zb(eng.as_bool(v)) == zb(s.gh["flagobs"]), LIN)]

    def p_clear(c, eng, s, v):
        return [("empty-at-one-moment", s.gh["seen"], LIN)]

    def s_cap(c, eng, st):
        n = fresh("n")
        st.assume(And(le(0, n), lt(n, MAXLEN)))
        return [n]

    def s_other(filled):
        def f(c, eng, st):
            o = Obj("other", None, "this")
            st.mem[o] = {}
            c.excl.add(o)
            c.other = o
            c.fill(eng, st, o)
            if filled:
                c.fill(eng, st, c.obj)
            return [Ptr(o, 0)]
        return f

    def s_fill(c, eng, st):
        c.fill(eng, st, c.obj)
        return []

    def p_ctor(c, eng, s, v):
        return c.consistent(eng, s, c.obj, "self") + c.is_empty(eng, s, c.obj, "self")

    def p_move(c, eng, s, v):
        return (c.consistent(eng, s, c.obj, "self") + c.consistent(eng, s, c.other, "source") +
                c.is_empty(eng, s, c.other, "source") + c.moved(eng, s, c.obj, c.pre, c.other) +
                [("storage-owned-once", Or(eq(c.vec(s, Ptr(c.obj, c.PUSH))[0], 0),
                                           Not(eq(c.vec(s, Ptr(c.obj, c.PUSH))[0], c.vec(s, Ptr(c.obj, c.PULL))[0]))), CORE)])

    def p_dtor(c, eng, s, v):
        return [("all-element-storage-released", eq(sub(s.gh["nvec"], c.pre.gh["nvec"]), -2), CORE)]

    for kind in ("sq", "bq", "bpq"):
        qunit(kind, "push", "push", s_elem, p_const)
        qunit(kind, "push_move", "push", s_elem, p_moved)
        qunit(kind, "emplace", "push", s_elem, p_const)
        qunit(kind, "emplace_move", "push", s_elem, p_moved)
        qunit(kind, "empty", "none", None, p_empty)
        qunit(kind, "clear", "clear", None, p_clear)
        qunit(kind, "reserve", "none", s_cap, None)
        qunit(kind, "ctor", "none", None, p_ctor, "excl")
        qunit(kind, "ctor_cap", "none", s_cap, p_ctor, "excl")
        qunit(kind, "ctor_move", "none", s_other(False), p_move, "excl")
        qunit(kind, "assign_move", "none", s_other(True), p_move, "excl")
        qunit(kind, "dtor", "none", s_fill, p_dtor, "excl")
        if kind != "bpq":
            qunit(kind, "size", "none", None, p_size)
    qunit("sq", "push_vector", "push", s_vec, p_vec)
    qunit("sq", "pop", "take", s_opt, p_take)
    qunit("sq", "peek", "none", s_opt, p_peek(lambda g: g["seen"]))
    for kind in ("bq", "bpq"):
        qunit(kind, "try_pop", "take", s_opt, p_take)
        qunit(kind, "try_peek", "none", s_opt, p_peek((lambda g: g["seenP"]) if kind == "bq" else (lambda g: g["seen"])))
        qunit(kind, "pop", "take", s_plain, p_value)
        qunit(kind, "pop_timed", "take", s_opt, p_timed)
        qunit(kind, "pop_or_call", "take", s_plain, p_value)
    for nm in ("push_prio", "emplace_prio"):
        qunit("bpq", nm, "push", s_elem, p_const, "shared", "prio")
        qunit("bpq", nm + "_move", "push", s_elem, p_moved, "shared", "prio")

    def aunit(fname, op, setup, post, mode="shared"):
        def run(built, variant, deadline):
            c = Air("al", built, "al." + fname, deadline, mode)
            c.op = op
            st, eng = c.st, c.eng
            args = setup(c, eng, st) if setup else []
            c.val = getattr(c, "argval", 0)
            c.pre = st.snap()

            def pst(k, s, v):
                r = list(c.common_post(s))
                if post:
                    r += post(c, eng, s, v)
                return r
            drive(eng, st, "vc_" + fname, [Ptr(c.obj, 0)] + args, pst)
            return eng
        add_unit("al", fname, run, op)

    def a_elem(c, eng, st):
        e, v = elem_obj(st)
        c.arg, c.argval = e, v
        return [Ptr(e, 0)]

    def a_ctor(c, eng, s, v):
        o = c.obj
        return [("starts-empty", Not(eng.as_bool(s.mem[o][c.off["loaded"]][1])), LIN),
                ("data-element-alive", s.mem[o][c.off["data"]][1].live, CORE)]

    def a_tryload(c, eng, s, v):
        b = eng.as_bool(v)
        return [("true-iff-own-value-placed", zb(b) == zb(eq(s.gh["app"], 1)), LIN),
                ("false-only-if-loaded", Implies(Not(b), s.gh["seenL"]), LIN),
                ("argument-still-alive", s.mem[c.arg][0][1].live, CORE),
                ("refused-argument-untouched", Implies(Not(b), eq(s.mem[c.arg][0][1].val, c.argval)), LIN)]

    def a_load(c, eng, s, v):
        return [("own-value-placed", eq(s.gh["app"], 1), LIN), ("argument-still-alive", s.mem[c.arg][0][1].live, CORE)]

    def a_unload(c, eng, s, v):
        b, e = opt_result(eng, s, c.r)
        if b is None:
            return [("result-is-constructed", False, CORE)]
        g = s.gh
        return [("result-engaged-iff-unloaded", zb(b) == zb(eq(g["deq"], 1)), LIN),
                ("nothing-returned-only-if-empty", Implies(Not(b), g["seen"]), LIN),
                ("result-is-the-held-value", Implies(b, e is not None and And(e.live, eq(e.val, g["ret"]))), LIN)]

    def a_loaded(c, eng, s, v):
        return [("result-is-the-state-at-one-moment", zb(eng.as_bool(v)) == zb(s.gh["flagobs"]), LIN)]

    def a_fill(c, eng, st):
        st.mem[c.obj][c.off["data"]] = (24, Elem(True, fresh("D")))
        st.mem[c.obj][c.off["loaded"]] = (1, eng.to_int(fresh("L", B)))
        return []

    def a_dtor(c, eng, s, v):
        e = s.mem[c.obj].get(c.off["data"])
        return [("data-element-destroyed", e is None or Not(e[1].live), CORE)]

    aunit("ctor", "none", None, a_ctor, "excl")
    aunit("dtor", "none", a_fill, a_dtor, "excl")
    aunit("try_load", "load", a_elem, a_tryload)
    aunit("try_load_move", "load", a_elem, a_tryload)
    aunit("load", "load", a_elem, a_load)
    aunit("load_move", "load", a_elem, a_load)
    aunit("try_unload", "unload", s_opt, a_unload)
    aunit("loaded", "none", None, a_loaded)
    return out


def DEFS(driver, variant):
    return ["PRIO"] if variant == 1 else []
