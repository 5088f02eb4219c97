"""Units: WorkQueue and WorkBlock.

WorkBlock: a packaged task is a cell holding the number of its shared state (0: none); per shared state the
callable, how often it ran, the value of the run, and whether its future was taken.

WorkQueue: three FIFO sequences of block numbers (contract of SimpleQueue, proved by C16), the medium counter,
the ratio, the halt flag and the pool of threads.  Mode "seq": one taker at a time, exact scheduling.  Mode
"conc": before every queue operation the queues are replaced by arbitrary ones holding non-null blocks, and the
atomics by arbitrary values."""
import build
from engine import *
from lib import *
from units import *

LIN, CORE, RACE, BLK = ("sched",), ("core",), ("race",), ("block",)
ARRB1 = ARRB


def sel(a, *ix):
    for i in ix:
        a = z3.Select(a, zi(i))
    return a


def sto(a, i, v):
    return z3.Store(a, zi(i), zb(v) if a.sort().range() == B else zi(v))


# ------------------------------------------------------------------ WorkBlock
class Block:
    def __init__(self, built, name, deadline, void):
        lay = build.find_layout(built.layouts, r"^gmlc::containers::WorkBlock<%s>$" % ("void" if void else "long"))
        names = {f: o for o, t, f in lay}
        if "task" not in names:
            tk = [o for o, t, f in lay if "packaged_task" in t]
            sf = [o for o, t, f in lay if "shared_future" in t]
            bl = [o for o, t, f in lay if t.strip() == "bool"]
            if len(tk) != 1 or len(sf) != 1 or not bl:
                raise build.BuildError("work block fields changed")
            names = {"task": tk[0], "future_ret": sf[0], "finished": bl[0]}
            if len(bl) > 1:
                names["loaded"] = bl[1]
        for k in ("task", "future_ret", "finished"):
            if k not in names:
                raise build.BuildError("work block fields changed")
        self.off = names
        self.void = void
        self.eng = new_engine(built, [], [], name, {}, deadline)
        self.eng.tags = CORE
        self.eng.intercepts = self.handlers() + exc_handlers()
        self.eng.assumptions |= {"tasks handed over as packaged tasks hold a callable, have not run and their future was not taken",
                                 "one thread runs, updates or resets a block at a time",
                                 "contracts of std::packaged_task, std::shared_future and operator new"}
        st = self.st = State()
        self.eng.fam_init(st)
        st.gh.update({"fn": fresh("fn", ARR1), "runs": fresh("runs", ARR1), "val": fresh("val", ARR1), "got": fresh("got", ARRB),
                      "ns": fresh("ns"), "ex": 0, "exfn": 0, "waited": 0})
        st.assume(st.gh["ns"] >= 1)
        self.obj = Obj("this", None, "this")
        st.mem[self.obj] = {}

    def state(self, st, p):
        c = st.mem[p.obj].get(p.off)
        if c is None:
            return None
        return c[1]

    def new_state(self, st, fn):
        g = st.gh
        k = g["ns"]
        g["ns"] = add(k, 1)
        st.assume(zi(k) >= 1)
        g["fn"] = sto(g["fn"], k, fn)
        g["runs"] = sto(g["runs"], k, 0)
        g["got"] = sto(g["got"], k, False)
        g["val"] = sto(g["val"], k, fresh("unset"))
        return k

    def split(self, eng, st, cond, f, g):
        """fork on cond: f(state) / g(state) give the values"""
        cond = conc(cond)
        if isinstance(cond, bool):
            return ("fork", [(st, f(st) if cond else g(st))])
        out = []
        s2 = st.copy()
        st.assume(cond)
        s2.assume(Not(cond))
        if eng.feasible(st):
            out.append((st, f(st)))
        if eng.feasible(s2):
            out.append((s2, g(s2)))
        return ("fork", out)

    def handlers(self):
        R = "void" if self.void else "long"
        PT = re.escape("std::packaged_task<%s ()>" % R) + "::"
        SF = r"std::(?:shared_future|__basic_future)<%s>::" % R
        used = self.eng.lib_used

        def lib(n):
            used.add("std::" + n)

        def setc(st, p, v):
            self.eng.clear_cells(st.mem[p.obj], p.off, 16)
            st.mem[p.obj][p.off] = (8, v)

        def ctor0(eng, st, fn, a, ins):
            setc(st, a[0], 0)

        def ctor_fn(eng, st, fn, a, ins):
            lib("packaged_task(callable)")
            f = st.mem[a[1].obj].get(a[1].off)
            if f is None:
                eng.check(st, False, "callable-is-alive", assume=False)
                raise PathEnd()
            setc(st, a[0], self.new_state(st, f[1]))

        def move(eng, st, fn, a, ins):
            lib("move of packaged_task/shared_future")
            v = self.state(st, a[1])
            if v is None:
                eng.check(st, False, "moved-from-object-is-constructed", assume=False)
                raise PathEnd()
            same = a[0].obj is a[1].obj and a[0].off == a[1].off
            if not same:
                setc(st, a[1], 0)
                setc(st, a[0], v)
            return a[0]

        def copy(eng, st, fn, a, ins):
            setc(st, a[0], self.state(st, a[1]))
            return a[0]

        def from_future(eng, st, fn, a, ins):
            return move(eng, st, fn, a, ins)

        def nop(eng, st, fn, a, ins):
            return None

        def valid(eng, st, fn, a, ins):
            return conc(Not(eq(self.state(st, a[0]), 0)))

        def run(eng, st, fn, a, ins):
            lib("packaged_task::operator()")
            s = self.state(st, a[0])

            def ok(st):
                def again(st):
                    return ("throw", "std::future_error")

                def first(st):
                    g = st.gh
                    g["runs"] = sto(g["runs"], s, 1)
                    g["val"] = sto(g["val"], s, fresh("value"))
                    g["ex"] = add(g["ex"], 1)
                    g["exfn"] = sel(g["fn"], s)
                    return None
                return self.split(eng, st, sel(st.gh["runs"], s) == 0, first, again)

            out = []
            for s2, v in self.split(eng, st, Not(eq(s, 0)), lambda q: None, lambda q: ("throw", "std::future_error"))[1]:
                if v is not None:
                    out.append((s2, v))
                else:
                    out += ok(s2)[1]
            return ("fork", out)

        def reset(eng, st, fn, a, ins):
            lib("packaged_task::reset")
            s = self.state(st, a[0])

            def f(st):
                setc(st, a[0], self.new_state(st, sel(st.gh["fn"], s)))
            return self.split(eng, st, Not(eq(s, 0)), f, lambda q: ("throw", "std::future_error"))

        def get_future(eng, st, fn, a, ins):
            lib("packaged_task::get_future")
            r, t = a[0], a[1]
            s = self.state(st, t)

            def f(st):
                st.gh["got"] = sto(st.gh["got"], s, True)
                setc(st, r, s)
            return self.split(eng, st, And(Not(eq(s, 0)), Not(sel(st.gh["got"], s))), f, lambda q: ("throw", "std::future_error"))

        def get(eng, st, fn, a, ins):
            lib("shared_future::get")
            s = self.state(st, a[0])
            eng.check(st, Not(eq(s, 0)), "future-has-a-state")
            st.assume(sel(st.gh["runs"], s) >= 1)      # returns only when the task has been run
            st.gh["waited"] = s
            if self.void:
                return None
            o = Obj("value", 8)
            st.mem[o] = {0: (8, sel(st.gh["val"], s))}
            return Ptr(o, 0)

        def wait(eng, st, fn, a, ins):
            lib("shared_future::wait")
            s = self.state(st, a[0])
            eng.check(st, Not(eq(s, 0)), "future-has-a-state")
            st.assume(sel(st.gh["runs"], s) >= 1)
            st.gh["waited"] = s

        def new(eng, st, fn, a, ins):
            o = Obj("made", None, "heap")
            st.mem[o] = {}
            self.made = o
            return Ptr(o, 0)

        return [
            (rx(PT + r"packaged_task\(\)$"), ctor0),
            (rx(PT + r"packaged_task\(std::packaged_task<.*> ?&&\)$"), move),
            (rx(PT + r"packaged_task<.*>\(Fn(&|&&)?\)$"), ctor_fn),
            (rx(PT + r"operator=\(std::packaged_task<.*>&&\)$"), move),
            (rx(PT + r"~packaged_task\(\)$"), nop),
            (rx(PT + r"operator\(\)\(\)$"), run),
            (rx(PT + r"reset\(\)$"), reset),
            (rx(PT + r"valid\(\) const$"), valid),
            (rx(PT + r"get_future\(\)$"), get_future),
            (rx(SF + r"shared_future\(\)$"), ctor0),
            (rx(SF + r"shared_future\(std::shared_future<.*> const&\)$"), copy),
            (rx(SF + r"shared_future\(std::(shared_)?future<.*>&&\)$"), move),
            (rx(SF + r"operator=\(std::shared_future<.*>&&\)$"), move),
            (rx(SF + r"operator=\(std::shared_future<.*> const&\)$"), copy),
            (rx(SF + r"~shared_future\(\)$"), nop),
            (rx(r"std::future<%s>::~future\(\)$" % R), nop),
            (rx(r"std::future<%s>::share\(\)$" % R), lambda eng, st, fn, a, ins: move(eng, st, fn, a, ins)),
            (rx(SF + r"get\(\) const$"), get),
            (rx(SF + r"wait\(\) const$"), wait),
            (rx(SF + r"valid\(\) const$"), valid),
            (rx(r"^operator new\(unsigned long\)$"), new),
            (rx(r"^operator delete\(void\*(, unsigned long)?\)$"), nop),
        ]

    # ---------------------------------------------------------- views
    def view(self, st, o):
        c = st.mem[o]

        def cell(n, b=False):
            if n not in self.off or self.off[n] not in c:
                return None
            v = c[self.off[n]][1]
            return self.eng.as_bool(v) if b else v
        v = type("V", (), {})()
        v.s, v.f, v.fin, v.loaded = cell("task"), cell("future_ret"), cell("finished", True), cell("loaded", True)
        v.ok = v.s is not None and v.f is not None and v.fin is not None
        return v

    def fill(self, o, loaded=True):
        """an arbitrary block of the invariant"""
        st, g = self.st, self.st.gh
        s = fresh("state")
        c = st.mem[o]
        b = fresh("finished", B)
        c[self.off["task"]] = (8, s)
        c[self.off["future_ret"]] = (8, s)
        c[self.off["finished"]] = (1, self.eng.to_int(b))
        st.assume(And(le(0, s), lt(s, g["ns"])))
        ld = Not(eq(s, 0))
        if "loaded" in self.off:
            c[self.off["loaded"]] = (1, self.eng.to_int(ld))
        st.assume(And(le(0, sel(g["runs"], s)), le(sel(g["runs"], s), 1)))
        st.assume(Implies(ld, And(sel(g["got"], s), b == (sel(g["runs"], s) == 1))))
        if loaded is True:
            st.assume(ld)
        return self.view(st, o)

    def inv(self, st, o, nm="block"):
        v = self.view(st, o)
        g = st.gh
        if not v.ok:
            return [(nm + "-is-constructed", False, BLK)]
        out = [(nm + "-future-belongs-to-its-task", eq(v.f, v.s), BLK),
               (nm + "-task-run-at-most-once", Or(eq(v.s, 0), And(le(0, sel(g["runs"], v.s)), le(sel(g["runs"], v.s), 1))), BLK),
               (nm + "-finished-iff-task-was-run", Implies(Not(eq(v.s, 0)), zb(v.fin) == (sel(g["runs"], v.s) == 1)), BLK)]
        if v.loaded is not None:
            out.append((nm + "-loaded-iff-it-has-a-task", zb(v.loaded) == zb(Not(eq(v.s, 0))), BLK))
        return out

    def runnable(self, st, o, fn, nm="block"):
        """fresh state of this callable, not run"""
        v = self.view(st, o)
        g = st.gh
        if not v.ok:
            return [(nm + "-is-constructed", False, BLK)]
        return self.inv(st, o, nm) + [
            (nm + "-holds-the-task", And(Not(eq(v.s, 0)), eq(sel(g["fn"], v.s), fn)), BLK),
            (nm + "-runnable-once", And(sel(g["runs"], v.s) == 0, Not(v.fin)), BLK),
            (nm + "-nothing-executed-yet", eq(g["ex"], 0), BLK)]


def block_units(out):
    def U(name, setup, post, inv=True):
        def run(built, variant, deadline):
            c = Block(built, "wb." + name, deadline, variant == 1)
            st = c.st
            args = setup(c)
            c.pre = st.snap()

            def pst(k, s, v):
                return post(c, s, v)
            drive(c.eng, st, "vc_" + name, args, pst)
            return c.eng
        out.append(Unit("wb." + name, ["C22"], "wb", [0, 1], run))

    def fnarg(c):
        o = Obj("fn", 8)
        c.fnid = fresh("callable")
        c.st.mem[o] = {0: (8, c.fnid)}
        return Ptr(o, 0)

    def taskarg(c):
        o = Obj("task", 16)
        t = fresh("t")
        g = c.st.gh
        c.st.assume(And(le(1, t), lt(t, g["ns"]), sel(g["runs"], t) == 0, Not(sel(g["got"], t))))
        c.st.mem[o] = {0: (8, t)}
        c.fnid = sel(g["fn"], t)
        c.t = t
        return Ptr(o, 0)

    def blk(c, loaded=None):
        c.v = c.fill(c.obj, loaded)
        if c.v.s is not None and hasattr(c, "t"):
            c.st.assume(Not(eq(c.v.s, c.t)))
        return Ptr(c.obj, 0)

    this = lambda c: Ptr(c.obj, 0)
    U("ctor_fn", lambda c: [this(c), fnarg(c)], lambda c, s, v: c.runnable(s, c.obj, c.fnid))
    U("ctor_fn_move", lambda c: [this(c), fnarg(c)], lambda c, s, v: c.runnable(s, c.obj, c.fnid))
    U("ctor_task", lambda c: [this(c), taskarg(c)], lambda c, s, v: c.runnable(s, c.obj, c.fnid))

    def p_default(c, s, v):
        w = c.view(s, c.obj)
        return c.inv(s, c.obj) + [("default-block-not-finished", w.ok and And(eq(w.s, 0), Not(w.fin)), BLK),
                                  ("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)]
    U("ctor_default", lambda c: [this(c)], p_default)

    def s_other(filled):
        def f(c):
            o = c.other = Obj("other", None, "this")
            c.st.mem[o] = {}
            c.w = c.fill(o, True)
            if filled:
                blk(c)
                c.st.assume(Or(eq(c.v.s, 0), Not(eq(c.v.s, c.w.s))))
            return [this(c), Ptr(o, 0)]
        return f

    def p_moved(c, s, v):
        w = c.view(s, c.obj)
        x = c.view(s, c.other)
        return c.inv(s, c.obj) + [("block-takes-the-task", w.ok and And(eq(w.s, c.w.s), zb(w.fin) == zb(c.w.fin)), BLK),
                                  ("source-gives-up-the-task", x.s is not None and eq(x.s, 0), BLK),
                                  ("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)]
    U("ctor_move", s_other(False), p_moved)
    U("assign_move", s_other(True), p_moved)
    U("dtor", lambda c: [blk(c)], lambda c, s, v: [("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)])

    def p_exec(c, s, v):
        g, p = s.gh, c.pre.gh
        w = c.view(s, c.obj)
        has = Not(eq(c.v.s, 0))
        todo = And(has, Not(c.v.fin))
        return c.inv(s, c.obj) + [
            ("runs-the-task-exactly-once", Implies(todo, And(eq(g["ex"], 1), eq(g["exfn"], sel(p["fn"], c.v.s)))), BLK),
            ("finished-block-does-not-run-again", Implies(Not(todo), eq(g["ex"], 0)), BLK),
            ("finished-afterwards", Implies(has, w.ok and w.fin), BLK),
            ("block-keeps-its-task", w.ok and eq(w.s, c.v.s), BLK),
            ("value-of-the-single-execution-kept", Implies(And(has, c.v.fin), sel(g["val"], c.v.s) == sel(p["val"], c.v.s)), BLK)]
    U("execute", lambda c: [blk(c)], p_exec)

    def same(c, s):
        w = c.view(s, c.obj)
        return c.inv(s, c.obj) + [("block-unchanged", w.ok and And(eq(w.s, c.v.s), zb(w.fin) == zb(c.v.fin)), BLK),
                                  ("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)]

    def same2(c, s):      # the task may have been run by another thread meanwhile
        w = c.view(s, c.obj)
        return [("block-unchanged", w.ok and And(eq(w.s, c.v.s), eq(w.f, c.v.s), zb(w.fin) == zb(c.v.fin)), BLK),
                ("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)]
    U("finished", lambda c: [blk(c)], lambda c, s, v: same(c, s) + [("result-is-finished", zb(c.eng.as_bool(v)) == zb(c.v.fin), BLK),
                                                                   ("finished-iff-task-was-run", Implies(Not(eq(c.v.s, 0)), zb(c.eng.as_bool(v)) == (sel(s.gh["runs"], c.v.s) == 1)), BLK)])

    def p_value(c, s, v):
        r = same2(c, s) + [("waits-for-its-own-task", eq(s.gh["waited"], c.v.s), BLK)]
        if not c.void:
            r.append(("result-is-the-value-of-the-single-execution", eq(v, sel(s.gh["val"], c.v.s)), BLK))
        return r
    U("value", lambda c: [blk(c, True)], p_value)
    U("wait", lambda c: [blk(c, True)], lambda c, s, v: same2(c, s) + [("waits-for-its-own-task", eq(s.gh["waited"], c.v.s), BLK)])
    U("update_fn", lambda c: [blk(c), fnarg(c)], lambda c, s, v: c.runnable(s, c.obj, c.fnid))
    U("update_fn_move", lambda c: [blk(c), fnarg(c)], lambda c, s, v: c.runnable(s, c.obj, c.fnid))

    def s_uptask(c):
        t = taskarg(c)
        return [blk(c), t]
    U("update_task", s_uptask, lambda c, s, v: c.runnable(s, c.obj, c.fnid))

    def p_reset(c, s, v):
        w = c.view(s, c.obj)
        empty = And(eq(c.v.s, 0), True)
        return c.inv(s, c.obj) + [
            ("keeps-its-callable", w.ok and Implies(Not(empty), And(Not(eq(w.s, 0)), sel(s.gh["fn"], w.s) == sel(c.pre.gh["fn"], c.v.s))), BLK),
            ("runnable-again", w.ok and Implies(Not(empty), And(sel(s.gh["runs"], w.s) == 0, Not(w.fin))), BLK),
            ("block-nothing-executed-yet", eq(s.gh["ex"], 0), BLK)]
    U("reset", lambda c: [blk(c)], p_reset)

    def s_fut(c):
        r = c.r = Obj("result", 16)
        c.st.mem[r] = {}
        return [blk(c), Ptr(r, 0)]
    U("future", s_fut, lambda c, s, v: same(c, s) + [("result-is-the-future-of-its-task", 0 in s.mem[c.r] and eq(s.mem[c.r][0][1], c.v.s), BLK)])

    def s_make(arg):
        def f(c):
            r = c.r = Obj("result", 8)
            c.st.mem[r] = {}
            return [Ptr(r, 0), arg(c)]
        return f

    def p_make(c, s, v):
        p = s.mem[c.r].get(0)
        if p is None or not isinstance(p[1], Ptr):
            return [("returns-a-block", False, BLK)]
        return c.runnable(s, p[1].obj, c.fnid, "made-block")
    U("make", s_make(fnarg), p_make)
    U("make_task", s_make(taskarg), p_make)


# ------------------------------------------------------------------ WorkQueue
WB = Family("wb", 8, {0: ("vt", ("ptr", "vt"))})
VT = Family("vt", 1 << 10, {0: ("d1", ("ptr", "vd1")), 8: ("d0", ("ptr", "vd0")), 16: ("ex", ("ptr", "vex")), 24: ("fi", ("ptr", "vfi"))})
SP = Family("sp", 16, {0: ("p", ("ptr", "wb"))})
TH = Family("th", 8, {0: ("j", "i64")})
HIGH, MED, LOW = "H", "M", "L"
INTMAX = 2 ** 31 - 1
MEDIUM_P, LOW_P, HIGH_P, REQ_P = 0, 1, 2, 3      # order of the enumerators of WorkPriority
nn = z3.Function("nonnull_before", I, I)


class WQ:
    def __init__(self, built, name, deadline, mode):
        lay = build.find_layout(built.layouts, r"^gmlc::containers::WorkQueue$")
        want = ["priorityRatio", "workToDoHigh", "workToDoMed", "workToDoLow", "numWorkers", "MedCounter", "threadpool", "queueLock",
                "queueCondition", "halt"]
        self.off = build.field_map(lay, want)
        o = self.off
        self.queues = {o["workToDoHigh"]: HIGH, o["workToDoMed"]: MED, o["workToDoLow"]: LOW}
        self.mode = mode
        eng = self.eng = new_engine(built, [WB, VT, SP, TH], [], name, {"indirect": self.indirect}, deadline)
        eng.tags = CORE
        eng.hooks = self
        eng.loopcands = self.loopcands
        eng.intercepts = self.handlers() + exc_handlers()
        eng.assumptions |= {"the work queue is closed or destroyed by one thread", "fewer than 2^31 - 1 workers",
                            "std::atomic operations are sequentially consistent, lock/unlock/wait/notify/join behave as the C++ standard says",
                            "work blocks do not use the queue's private state and do not throw"}
        if mode == "seq":
            eng.assumptions.add("exact scheduling order: one taker at a time (the property's own condition)")
        st = self.st = State()
        eng.fam_init(st)
        g = st.gh
        self.obj = Obj("this", None, "this")
        st.mem[self.obj] = {}
        for q in (HIGH, MED, LOW):
            g[q + ".row"], g[q + ".h"], g[q + ".t"] = fresh(q + "row", ARR1), fresh(q + "h"), fresh(q + "t")
            g["seen" + q] = False
            g["pop" + q] = 0
            g["push" + q] = 0
        g.update({"lk": False, "deq": 0, "last": 0, "lastfin": False, "cur": 0, "nex": 0, "exrow": fresh("exrow", ARR1), "notify": 0, "notall": 0,
                  "notafter": False, "started": 0, "mine": fresh("mine", ARRB), "finseen": fresh("finseen", ARRB), "pops": 0, "pushes": 0,
                  "haltset": False, "firstother": False})
        self.vt = fresh("vt")
        # every non-null block has a vtable of its own class
        b, k = fresh("b"), fresh("k")
        al = st.fam["wb.alloc"]
        st.assume(forall([b], Implies(sel(al, b), And(sel(st.fam["wb.size"], b) == 1, sel(st.fam["vt.alloc"], sel(st.fam["wb.vt"], b, 0)),
                                                      sel(st.fam["vt.size"], sel(st.fam["wb.vt"], b, 0)) == 1)),
                         [sel(st.fam["wb.vt"], b, 0), sel(al, b)]))

    # ------------------------------------------------------------ abstract state
    def live(self, st, x):
        return sel(st.fam["wb.alloc"], x)

    def qinv(self, st, q):
        g = st.gh
        k = fresh("k")
        r = g[q + ".row"]
        return And(le(0, g[q + ".h"]), le(g[q + ".h"], g[q + ".t"]), lt(g[q + ".t"], 2 ** 60),
                   forall([k], Implies(And(le(g[q + ".h"], k), lt(k, g[q + ".t"])), And(sel(r, k) >= 1, self.live(st, sel(r, k)))), [sel(r, k)]))

    def qinv_goal(self, st, q):
        g = st.gh
        k = fresh("k")
        r = g[q + ".row"]
        return forall([k], Implies(And(le(g[q + ".h"], k), lt(k, g[q + ".t"])), And(sel(r, k) >= 1, self.live(st, sel(r, k)))), [sel(r, k)])

    def qlen(self, g, q):
        return sub(g[q + ".t"], g[q + ".h"])

    def arbitrary(self, st, q):
        g = st.gh
        g[q + ".row"], g[q + ".h"], g[q + ".t"] = fresh(q + "row", ARR1), fresh(q + "h"), fresh(q + "t")
        st.assume(self.qinv(st, q))

    def fill(self, threads=True):
        """an arbitrary open queue of the invariant"""
        st, g, c, o = self.st, self.st.gh, self.st.mem[self.obj], self.off
        for q in (HIGH, MED, LOW):
            st.assume(self.qinv(st, q))
        self.n = fresh("workers")
        st.assume(And(le(0, self.n), lt(self.n, INTMAX)))
        self.ratio, self.cnt = fresh("ratio"), fresh("counter")
        st.assume(And(le(1, self.ratio), le(self.ratio, INTMAX), le(0, self.cnt), le(self.cnt, INTMAX)))
        self.halt = fresh("halt", B)
        c[o["numWorkers"]] = (4, self.n)
        c[o["priorityRatio"]] = (4, self.ratio)
        c[o["MedCounter"]] = (4, self.cnt)
        c[o["halt"]] = (1, self.eng.to_int(self.halt))
        v = fresh("pool")
        self.pool = v
        c[o["threadpool"]] = (8, FPtr("th", v, 0))
        c[o["threadpool"] + 8] = (8, FPtr("th", v, self.n))
        c[o["threadpool"] + 16] = (8, FPtr("th", v, self.n))
        st.assume(And(sel(st.fam["th.alloc"], v), eq(sel(st.fam["th.size"], v), self.n)))
        k = fresh("k")
        r = sel(st.fam["th.j"], v)
        st.assume(forall([k], Implies(And(le(0, k), lt(k, self.n)), If(self.halt, sel(r, k) == 0, sel(r, k) == 1)), [sel(r, k)]))
        # after closing no worker is left
        return self

    def counter(self, st):
        return st.mem[self.obj][self.off["MedCounter"]][1]

    # ------------------------------------------------------------ hooks on the object's own memory
    def atomics(self):
        o = self.off
        return {o["priorityRatio"]: 4, o["MedCounter"]: 4, o["halt"]: 1}

    def on_load(self, eng, st, p, t, atomic):
        if p.obj is not self.obj:
            return None
        a = self.atomics()
        if p.off in a:
            eng.check(st, bool(atomic), "shared-counter-accessed-atomically", RACE, assume=False)
            if not atomic:
                raise PathEnd()
            if self.mode == "conc":
                c = st.mem[self.obj]
                if p.off == self.off["halt"]:
                    b = fresh("halt", B)
                    st.assume(Implies(eng.as_bool(c[p.off][1]), b))
                    c[p.off] = (1, eng.to_int(b))
                    st.gh["haltseen"] = b
                else:
                    x = fresh("atomic")
                    st.assume(And(le(1 if p.off == self.off["priorityRatio"] else -2 ** 31, x), le(x, INTMAX)))
                    c[p.off] = (4, x)
        return None

    def on_store(self, eng, st, p, t, v, atomic):
        if p.obj is self.obj and not self.init:
            if p.off in self.atomics():
                eng.check(st, bool(atomic), "shared-counter-accessed-atomically", RACE, assume=False)
                if p.off == self.off["halt"]:
                    eng.check(st, bool(st.gh["lk"]), "halt-flag-changed-under-the-lock", RACE)
                    st.gh["notafter"] = False
        return False

    init = False

    def on_elem(self, eng, st, obj, off, write):
        pass

    def on_copy(self, eng, st, p, n, write):
        pass

    def on_cmpxchg(self, eng, st, p, t, exp, new, work, ins):
        return None

    # ------------------------------------------------------------ virtual calls on work blocks
    def indirect(self, eng, st, callee, vals, ins):
        if not isinstance(callee, FPtr) or callee.fam not in ("vex", "vfi"):
            raise Unsupported("indirect call of %r" % (callee,))
        b = vals[0]
        g = st.gh
        if callee.fam == "vfi":
            eng.lib_used.add("BasicWorkBlock::isFinished")
            r = fresh("isfinished", B)
            # once finished, finished (nobody resets a queued block)
            st.assume(Implies(sel(g["finseen"], b.oid), r))
            g["finseen"] = sto(g["finseen"], b.oid, Or(sel(g["finseen"], b.oid), r))
            if self.op == "loop":
                g["cur"] = If(And(r, eq(g["cur"], b.oid)), 0, g["cur"])
            return r
        eng.lib_used.add("BasicWorkBlock::execute")
        eng.check(st, not g["lk"], "no-lock-held-while-work-runs", RACE)
        g["exrow"] = sto(g["exrow"], g["nex"], b.oid)
        g["nex"] = add(g["nex"], 1)
        if self.op == "loop":
            eng.check(st, And(eq(g["cur"], b.oid), le(1, b.oid)), "only-a-taken-unfinished-block-is-run-once", LIN)
            g["cur"] = 0
        g["finseen"] = sto(g["finseen"], b.oid, True)
        return None

    # ------------------------------------------------------------ contracts
    def which(self, p):
        if isinstance(p, Ptr) and p.obj is self.obj and p.off in self.queues:
            return self.queues[p.off]
        return None

    def spget(self, st, p):
        """block number in the shared_ptr at p"""
        if isinstance(p, FPtr):
            self.eng.access(st, p, 8, "read")
            return sel(st.fam["sp.p"], p.oid, p.idx)
        c = st.mem[p.obj].get(p.off)
        if c is None:
            self.eng.check(st, False, "pointer-object-is-constructed", assume=False)
            raise PathEnd()
        v = c[1]
        return v.oid if isinstance(v, FPtr) else v

    def spset(self, st, p, x):
        if isinstance(p, FPtr):
            self.eng.access(st, p, 8, "write")
            a = st.fam["sp.p"]
            st.fam["sp.p"] = z3.Store(a, zi(p.oid), z3.Store(sel(a, p.oid), zi(p.idx), zi(x)))
            return
        self.eng.clear_cells(st.mem[p.obj], p.off, 16)
        st.mem[p.obj][p.off] = (8, FPtr("wb", x, 0))

    def handlers(self):
        used = self.eng.lib_used
        SPR = r"std::shared_ptr<(?:gmlc::containers::)?(?:Basic|Null)WorkBlock>"
        QR = r"gmlc::containers::SimpleQueue<%s, std::mutex>::" % SPR
        C = "SimpleQueue (proved: C16)"

        def chk(eng, st, p):
            q = self.which(p)
            if q is None:
                raise Unsupported("queue operation on an unknown queue")
            return q

        def touch(eng, st, q):
            if self.mode == "conc":
                self.arbitrary(st, q)

        # ---- shared_ptr
        def sp_null(eng, st, fn, a, ins):
            self.spset(st, a[0], 0)

        def sp_copy(eng, st, fn, a, ins):
            self.spset(st, a[0], self.spget(st, a[1]))
            return a[0]

        def sp_move(eng, st, fn, a, ins):
            v = self.spget(st, a[1])
            self.spset(st, a[1], 0)
            self.spset(st, a[0], v)
            return a[0]

        def sp_swap(eng, st, fn, a, ins):
            v, w = self.spget(st, a[0]), self.spget(st, a[1])
            self.spset(st, a[0], w)
            self.spset(st, a[1], v)

        def sp_reset(eng, st, fn, a, ins):
            self.spset(st, a[0], 0)

        def nop(eng, st, fn, a, ins):
            return None

        def make_null(eng, st, fn, a, ins):
            used.add("std::make_shared")
            p = eng.new_obj(st, "wb", 1)
            st.assume(And(sel(st.fam["vt.alloc"], sel(st.fam["wb.vt"], p.oid, 0)), sel(st.fam["vt.size"], sel(st.fam["wb.vt"], p.oid, 0)) == 1))
            st.gh["finseen"] = sto(st.gh["finseen"], p.oid, True)      # NullWorkBlock::isFinished: unit null_finished
            self.spset(st, a[0], p.oid)

        # ---- queues
        def pop(eng, st, fn, a, ins):
            used.add(C + "::pop")
            r, q = a[0], chk(eng, st, a[1])
            touch(eng, st, q)
            g = st.gh
            s2 = st.copy()
            out = []
            st.assume(lt(g[q + ".h"], g[q + ".t"]))
            if eng.feasible(st):
                x = sel(g[q + ".row"], g[q + ".h"])
                st.assume(And(x >= 1, self.live(st, x)))
                g[q + ".h"] = add(g[q + ".h"], 1)
                eng.check(st, eq(g["cur"], 0), "every-taken-block-is-run-unless-finished", LIN)
                g["pops"] = add(g["pops"], 1)
                g["last"], g["lastq"] = x, q
                if self.op == "loop":
                    g["cur"] = x
                eng.clear_cells(st.mem[r.obj], r.off, 24)
                st.mem[r.obj][r.off] = (8, FPtr("wb", x, 0))
                st.mem[r.obj][r.off + 16] = (1, 1)
                out.append((st, None))
            g = s2.gh
            s2.assume(g[q + ".h"] == g[q + ".t"])
            if eng.feasible(s2):
                g["seen" + q] = True
                eng.clear_cells(s2.mem[r.obj], r.off, 24)
                s2.mem[r.obj][r.off + 16] = (1, 0)
                out.append((s2, None))
            return ("fork", out)

        def append(eng, st, q, x):
            g = st.gh
            eng.check(st, And(le(1, x), self.live(st, x)), "no-null-block-is-queued", LIN)
            g[q + ".row"] = sto(g[q + ".row"], g[q + ".t"], x)
            g[q + ".t"] = add(g[q + ".t"], 1)
            g["pushes"] = add(g["pushes"], 1)
            g["push" + q] = add(g["push" + q], 1)
            g["lastpush"] = x

        def push(eng, st, fn, a, ins):
            used.add(C + "::push")
            q = chk(eng, st, a[0])
            touch(eng, st, q)
            x = self.spget(st, a[1])
            if "&&)" in self.eng.dem.get(fn, fn).split("(")[-1] or self.eng.dem.get(fn, fn).endswith("&&)"):
                self.spset(st, a[1], 0)
            append(eng, st, q, x)

        def push_vector(eng, st, fn, a, ins):
            used.add(C + "::pushVector")
            q = chk(eng, st, a[0])
            touch(eng, st, q)
            oid, n = self.vec(st, a[1])
            g = st.gh
            k = fresh("k")
            row = sel(st.fam["sp.p"], oid)
            eng.check(st, forall([k], Implies(And(le(0, k), lt(k, n)), And(sel(row, k) >= 1, self.live(st, sel(row, k)))), [sel(row, k)]),
                      "no-null-block-is-queued", LIN)
            nr = fresh(q + "row", ARR1)
            t = g[q + ".t"]
            old = g[q + ".row"]
            st.assume(forall([k], Implies(lt(k, t), sel(nr, k) == sel(old, k)), [sel(nr, k)]))
            st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), sel(nr, add(t, k)) == sel(row, k)), [sel(row, k)]))
            st.assume(forall([k], Implies(And(le(t, k), lt(k, add(t, n))), sel(nr, k) == sel(row, sub(k, t))), [sel(nr, k)]))
            g[q + ".row"], g[q + ".t"] = nr, add(t, n)
            g["pushes"] = add(g["pushes"], n)
            g["push" + q] = add(g["push" + q], n)

        def empty(eng, st, fn, a, ins):
            used.add(C + "::empty")
            q = chk(eng, st, a[0])
            g = st.gh
            if self.mode == "conc":
                return fresh("empty", B)      # a hint while others work
            return conc(eq(g[q + ".h"], g[q + ".t"]))

        def size(eng, st, fn, a, ins):
            used.add(C + "::size")
            q = chk(eng, st, a[0])
            touch(eng, st, q)
            return self.qlen(st.gh, q)

        def clear(eng, st, fn, a, ins):
            used.add(C + "::clear")
            q = chk(eng, st, a[0])
            touch(eng, st, q)
            g = st.gh
            g[q + ".h"] = g[q + ".t"]
            g["cleared" + q] = True

        def qctor(eng, st, fn, a, ins):
            used.add(C + "::SimpleQueue")
            q = chk(eng, st, a[0])
            g = st.gh
            g[q + ".h"] = g[q + ".t"] = 0

        # ---- locks and threads
        def islock(p):
            return isinstance(p, Ptr) and p.obj is self.obj and p.off == self.off["queueLock"]

        def lock(eng, st, fn, a, ins):
            if not islock(a[0]):
                raise Unsupported("lock of an unknown mutex")
            eng.check(st, not st.gh["lk"], "lock-not-taken-twice", RACE)
            if st.gh["lk"]:
                raise PathEnd()
            st.gh["lk"] = True

        def unlock(eng, st, fn, a, ins):
            if not islock(a[0]):
                raise Unsupported("unlock of an unknown mutex")
            eng.check(st, bool(st.gh["lk"]), "unlock-of-a-held-lock", RACE)
            st.gh["lk"] = False

        def wait(timed):
            def h(eng, st, fn, a, ins):
                u = a[1]
                c = st.mem[u.obj]
                dev, own = c.get(u.off, (8, None))[1], c.get(u.off + 8, (1, 0))[1]
                eng.check(st, And(islock(dev), eq(own, 1), bool(st.gh["lk"])), "wait-with-the-lock-held", RACE)
                if self.mode == "conc":
                    h0 = st.mem[self.obj][self.off["halt"]][1]
                    st.mem[self.obj][self.off["halt"]] = (1, eng.to_int(Or(eng.as_bool(h0), fresh("halt", B))))
                return eng.to_int(fresh("timedout", B)) if timed else None
            return h

        def notify(all_):
            def h(eng, st, fn, a, ins):
                st.gh["notify"] = add(st.gh["notify"], 1)
                if all_:
                    st.gh["notall"] = add(st.gh["notall"], 1)
                    st.gh["notafter"] = True
            return h

        def thread_start(eng, st, fn, a, ins):
            used.add("std::thread::thread")
            f, obj = self.deref(st, a[1]), self.deref(st, a[2])
            while isinstance(f, PInt):
                f = f.p
            nm = f.name if isinstance(f, FnPtr) else "?"
            eng.check(st, "workerLoop" in eng.dem.get(nm, nm) and isinstance(obj, Ptr) and obj.obj is self.obj,
                      "thread-runs-the-worker-loop-of-this-queue", LIN)
            eng.check(st, And(eq(self.qlen(st.gh, HIGH), 0), self.ready(st)), "queue-ready-before-a-worker-starts", RACE)
            st.gh["started"] = add(st.gh["started"], 1)
            st.mem[a[0].obj][a[0].off] = (8, 1)

        def tget(st, p):
            if isinstance(p, FPtr):
                self.eng.access(st, p, 8, "read")
                return sel(st.fam["th.j"], p.oid, p.idx)
            return st.mem[p.obj][p.off][1]

        def tset(st, p, v):
            if isinstance(p, FPtr):
                self.eng.access(st, p, 8, "write")
                a = st.fam["th.j"]
                st.fam["th.j"] = z3.Store(a, zi(p.oid), z3.Store(sel(a, p.oid), zi(p.idx), zi(v)))
            else:
                st.mem[p.obj][p.off] = (8, v)

        def thread_move(eng, st, fn, a, ins):
            eng.check(st, eq(tget(st, a[0]), 0), "no-running-thread-is-overwritten", LIN)
            v = tget(st, a[1])
            tset(st, a[1], 0)
            tset(st, a[0], v)
            return a[0]

        def thread_mctor(eng, st, fn, a, ins):
            v = tget(st, a[1])
            tset(st, a[1], 0)
            tset(st, a[0], v)

        def thread_dtor(eng, st, fn, a, ins):
            eng.check(st, eq(tget(st, a[0]), 0), "no-running-thread-is-destroyed", LIN)

        def joinable(eng, st, fn, a, ins):
            return conc(Not(eq(tget(st, a[0]), 0)))

        def join(eng, st, fn, a, ins):
            used.add("std::thread::join")
            eng.check(st, Not(eq(tget(st, a[0]), 0)), "only-running-threads-are-joined", LIN)
            eng.check(st, not st.gh["lk"], "no-lock-held-while-joining", RACE)
            eng.check(st, self.halted(st), "workers-told-to-stop-before-joining", LIN)
            eng.check(st, st.gh["notafter"], "workers-notified-before-joining", LIN)
            tset(st, a[0], 0)

        def hw(eng, st, fn, a, ins):
            x = fresh("hardware")
            st.assume(And(le(0, x), lt(x, 2 ** 30)))
            self.hw = x
            return x

        def tv_set(st, p, oid, n):
            eng = self.eng
            for k, x in ((0, 0), (8, n), (16, n)):
                st.mem[p.obj][p.off + k] = (8, FPtr("th", oid, x))

        def tv_empty(st, p):
            e = st.mem[p.obj][p.off + 8][1]
            return isinstance(e, FPtr) and conc(eq(e.idx, 0)) is True

        def tv_ctor(eng, st, fn, a, ins):
            eng.clear_cells(st.mem[a[0].obj], a[0].off, 24)
            tv_set(st, a[0], eng.new_obj(st, "th", 0).oid, 0)

        def tv_resize(eng, st, fn, a, ins):
            used.add("std::vector<std::thread>::resize")
            eng.check(st, And(le(0, a[1]), lt(a[1], 2 ** 60)), "pool-size-not-negative", LIN)
            if not tv_empty(st, a[0]):
                raise Unsupported("resize of a filled thread pool")
            tv_set(st, a[0], eng.new_obj(st, "th", a[1], zero=True).oid, a[1])

        def tv_reserve(eng, st, fn, a, ins):
            eng.check(st, And(le(0, a[1]), lt(a[1], 2 ** 60)), "pool-size-not-negative", LIN)

        def tv_emplace(eng, st, fn, a, ins):
            used.add("std::vector<std::thread>::emplace_back")
            b, e = st.mem[a[0].obj][a[0].off][1], st.mem[a[0].obj][a[0].off + 8][1]
            if not isinstance(e, FPtr) or not isinstance(b, FPtr) or b.fam != "th":
                raise Unsupported("thread pool")
            e = FPtr("th", b.oid, e.idx)
            if len(a) == 2:
                v = tget(st, a[1])
                tset(st, a[1], 0)
            else:
                tmp = Obj("thread", 8, "stack")
                st.mem[tmp] = {0: (8, 0)}
                thread_start(eng, st, fn, [Ptr(tmp, 0)] + a[1:], ins)
                v = 1
            st.fam["th.size"] = z3.Store(st.fam["th.size"], zi(e.oid), zi(add(e.idx, 1)))
            tset(st, e, v)
            for k in (8, 16):
                st.mem[a[0].obj][a[0].off + k] = (8, FPtr("th", e.oid, add(e.idx, 1)))
            return e

        def tv_dtor(eng, st, fn, a, ins):
            c = st.mem[a[0].obj]
            b, e = c[a[0].off][1], c[a[0].off + 8][1]
            if is_null(b) and b.fam is None:
                return
            k = fresh("k")
            r = sel(st.fam["th.j"], b.oid)
            eng.check(st, forall([k], Implies(And(le(0, k), lt(k, e.idx)), sel(r, k) == 0), [sel(r, k)]), "no-running-thread-is-destroyed", LIN)

        # ---- vector of shared_ptr
        def pv_ctor(eng, st, fn, a, ins):
            eng.clear_cells(st.mem[a[0].obj], a[0].off, 24)
            p = eng.new_obj(st, "sp", 0)
            self.setvec(st, a[0], p.oid, 0)

        def pv_push(eng, st, fn, a, ins):
            used.add("std::vector<std::shared_ptr>::push_back")
            oid, n = self.vec(st, a[0])
            x = self.spget(st, a[1])
            if eng.dem.get(fn, fn).endswith("&&)"):
                self.spset(st, a[1], 0)
            st.fam["sp.size"] = z3.Store(st.fam["sp.size"], zi(oid), zi(add(n, 1)))
            s = st.fam["sp.p"]
            st.fam["sp.p"] = z3.Store(s, zi(oid), z3.Store(sel(s, oid), zi(n), zi(x)))
            self.setvec(st, a[0], oid, add(n, 1))
            if "emplace_back" in eng.dem.get(fn, fn):
                return FPtr("sp", oid, n)

        def pv_clear(eng, st, fn, a, ins):
            oid, n = self.vec(st, a[0])
            self.setvec(st, a[0], oid, 0)

        TV = r"std::vector<std::thread, std::allocator<std::thread>>::"
        PV = r"std::vector<%s, std::allocator<%s>>::" % (SPR, SPR)
        return [
            (rx(SPR + r"::shared_ptr\((decltype\(nullptr\)|std::nullptr_t)?\)$"), sp_null),
            (rx(SPR + r"::shared_ptr(<.*>)?\(%s const&\)$" % SPR), sp_copy),
            (rx(SPR + r"::shared_ptr(<.*>)?\(%s&&\)$" % SPR), sp_move),
            (rx(r"(?:.* )?" + SPR + r"::operator=(<.*>)?\(%s const&\)$" % SPR), sp_copy),
            (rx(r"(?:.* )?" + SPR + r"::operator=(<.*>)?\(%s&&\)$" % SPR), sp_move),
            (rx(SPR + r"::~shared_ptr\(\)$"), nop),
            (rx(r"std::__shared_ptr<.*>::swap\("), sp_swap),
            (rx(r"std::__shared_ptr<.*>::reset\(\)$"), sp_reset),
            (rx(r".*std::make_shared<gmlc::containers::NullWorkBlock.*>\(\)$"), make_null),
            (rx(QR + r"pop\(\)$"), pop),
            (rx(r"(?:void )?" + QR + r"(push|emplace)<.*>\(.*\)$"), push),
            (rx(QR + r"pushVector\(.*\)$"), push_vector),
            (rx(QR + r"empty\(\) const$"), empty),
            (rx(QR + r"size\(\) const$"), size),
            (rx(QR + r"clear\(\)$"), clear),
            (rx(QR + r"SimpleQueue\((unsigned long)?\)$"), qctor),
            (rx(QR + r"~SimpleQueue\(\)$"), nop),
            (rx(r"^std::mutex::mutex\(\)$|^std::condition_variable::~?condition_variable\(\)$|^std::mutex::~mutex\(\)$"), nop),
            (rx(r"^std::mutex::lock\(\)$"), lock),
            (rx(r"^std::mutex::unlock\(\)$"), unlock),
            (rx(r"^(std::cv_status )?std::condition_variable::wait(_for|_until)<[^(]*>\(std::unique_lock<std::mutex>&, [^,]*(<.*>)?[^,]* const&\)$"), wait(True)),
            (rx(r"^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$"), wait(False)),
            (rx(r"^std::condition_variable::notify_one\(\)$"), notify(False)),
            (rx(r"^std::condition_variable::notify_all\(\)$"), notify(True)),
            (rx(r"^std::chrono::duration<.*>::duration<.*>\(.*\)$"), nop),
            (rx(r"^std::thread::thread<.*>\(.*\)$"), thread_start),
            (rx(r"^std::thread::thread\(std::thread&&\)$"), thread_mctor),
            (rx(r"^std::thread::operator=\(std::thread&&\)$"), thread_move),
            (rx(r"^std::thread::~thread\(\)$"), thread_dtor),
            (rx(r"^std::thread::joinable\(\) const$"), joinable),
            (rx(r"^std::thread::join\(\)$"), join),
            (rx(r"^std::thread::hardware_concurrency\(\)$"), hw),
            (rx(TV + r"vector\(\)$"), tv_ctor),
            (rx(TV + r"resize\(unsigned long\)$"), tv_resize),
            (rx(TV + r"~vector\(\)$"), tv_dtor),
            (rx(TV + r"reserve\(unsigned long\)$"), tv_reserve),
            (rx(r"(?:.* )?" + TV + r"(emplace_back<.*>|push_back)\(.*\)$"), tv_emplace),
            (rx(PV + r"vector\(\)$"), pv_ctor),
            (rx(r"(?:.* )?" + PV + r"(push_back\(.*\)|emplace_back<.*>\(.*\))$"), pv_push),
            (rx(PV + r"clear\(\)$"), pv_clear),
            (rx(PV + r"(reserve\(unsigned long\)|~vector\(\))$"), nop),
        ]

    def deref(self, st, p):
        c = st.mem[p.obj].get(p.off)
        return c[1] if c else None

    def vec(self, st, p):
        c = st.mem[p.obj]
        b, e = c[p.off][1], c[p.off + 8][1]
        return b.oid, sub(e.idx, b.idx)

    def setvec(self, st, p, oid, n):
        c = st.mem[p.obj]
        c[p.off] = (8, FPtr("sp", oid, 0))
        c[p.off + 8] = (8, FPtr("sp", oid, n))
        c[p.off + 16] = (8, FPtr("sp", oid, n))

    def ready(self, st):
        c = st.mem[self.obj]
        o = self.off
        v = [c.get(o[k]) for k in ("numWorkers", "priorityRatio", "MedCounter", "halt")]
        return all(x is not None for x in v)

    def halted(self, st):
        return self.eng.as_bool(st.mem[self.obj][self.off["halt"]][1])

    # ------------------------------------------------------------ loops
    def loopcands(self, eng, st, info):
        out = []
        g0 = info.entry.gh
        if self.op == "loop":
            out.append(("no-taken-block-pending", lambda s: eq(s.gh["cur"], 0)))
        if ("f", "th.j") in info.mods:
            v = None
            c = st.mem[self.obj].get(self.off["threadpool"])
            if c is not None and isinstance(c[1], FPtr):
                v = c[1].oid
            for (n, g, x0) in info.scalars():
                if n.endswith(".oid") or v is None:
                    continue
                out.append(("pool-size:" + n, lambda s, g=g: sel(s.fam["th.size"], v) == zi(g(s))))
                for nm, lo, hi in (("joined", 0, 1), ("started", 1, 0)):
                    def f(s, g=g, lo=lo, hi=hi):
                        k = fresh("k")
                        r = sel(s.fam["th.j"], v)
                        N = sel(s.fam["th.size"], v)
                        return forall([k], Implies(And(le(0, k), lt(k, N)), sel(r, k) == If(lt(k, g(s)), lo, hi)), [sel(r, k)])
                    out.append(("threads-%s-so-far:%s" % (nm, n), f))
            if v is not None:
                def f0(s):
                    k = fresh("k")
                    r = sel(s.fam["th.j"], v)
                    return forall([k], Implies(And(le(0, k), lt(k, sel(s.fam["th.size"], v))), sel(r, k) == 0), [sel(r, k)])
                out.append(("no-thread-left", f0))
        if getattr(self, "argn", None) is not None:
            rowA = self.argrow
            for (n, g, x0) in info.scalars():
                if n.endswith(".oid"):
                    continue
                # executed so far
                if ("g", "nex") in info.mods:
                    out.append(("executed-so-far:" + n, lambda s, g=g: self.filtered(s, s.gh["exrow"], 0, s.gh["nex"], g(s))))
                for q in (HIGH, MED, LOW):
                    if ("g", q + ".t") in info.mods:
                        t0 = g0[q + ".t"]
                        out.append(("queued-so-far:%s:%s" % (q, n), lambda s, g=g, q=q, t0=t0: self.filtered(s, s.gh[q + ".row"], t0, s.gh[q + ".t"], g(s))))
                        out.append(("queue-old-part:%s" % q, lambda s, q=q, t0=t0, r0=g0[q + ".row"]: self.oldpart(s, q, t0, r0)))
                if ("f", "sp.p") in info.mods:
                    for m in sorted((m for m in info.mods if m[0] == "m"), key=lambda m: (m[1].id, m[2])):
                        e = info.entry.mem.get(m[1], {}).get(m[2])
                        b = info.entry.mem.get(m[1], {}).get(m[2] - 8)
                        if e is None or b is None or not isinstance(e[1], FPtr) or not isinstance(b[1], FPtr) or e[1].fam != "sp" or b[1].fam != "sp":
                            continue
                        if m[1] is getattr(self, "argv", None):
                            continue
                        out.append(("collected-so-far:%s:%s.%d" % (n, m[1].name, m[2]), lambda s, g=g, o=m[1], off=m[2]:
                                    self.collected(s, o, off, g(s))))
            if ("f", "sp.p") in info.mods:
                def keep(s):
                    k = fresh("k")
                    r = sel(s.fam["sp.p"], self.argoid)
                    return And(sel(s.fam["sp.size"], self.argoid) == zi(self.argn), forall([k], sel(r, k) == sel(rowA, k), [sel(r, k)]))
                out.append(("argument-vector-kept", keep))
        return out

    def oldpart(self, s, q, t0, r0):
        k = fresh("k")
        r = s.gh[q + ".row"]
        return forall([k], Implies(lt(k, t0), sel(r, k) == sel(r0, k)), [sel(r, k)])

    def filtered(self, s, row, base, end, upto):
        """row[base..end) is the sequence of the non-null pointers among the first `upto` of the argument"""
        k = fresh("k")
        A = self.argrow
        return And(le(0, upto), eq(end, add(base, nn(zi(upto)))),
                   forall([k], Implies(And(le(0, k), lt(k, upto), sel(A, k) != 0), sel(row, add(base, nn(k))) == sel(A, k)), [sel(A, k), nn(k)]))

    def collected(self, s, o, off, upto):
        c = s.mem[o]
        b, e = c[off - 8][1], c[off][1]
        k = fresh("k")
        row = sel(s.fam["sp.p"], b.oid)
        return And(eq(b.idx, 0), self.filtered(s, row, 0, e.idx, upto), Not(eq(b.oid, self.argoid)), sel(s.fam["sp.size"], b.oid) == zi(e.idx),
                   sel(s.fam["sp.alloc"], b.oid),
                   forall([k], Implies(And(le(0, k), lt(k, e.idx)), And(sel(row, k) >= 1, self.live(s, sel(row, k)))), [sel(row, k)]))


def queue_units(out):
    def U(name, op, mode, setup, post, props=("C21", "C23"), suffix="", fname=None):
        def run(built, variant, deadline):
            c = WQ(built, "wq." + name + suffix, deadline, mode)
            c.op = op
            st = c.st
            args = setup(c)
            c.pre = st.snap()

            def pst(k, s, v):
                return [("locks-released", Not(s.gh["lk"]), RACE)] + post(c, s, v)
            fn = "vc_" + name
            if fname:
                fn = next((f for f in c.eng.m.funcs if re.match(fname, c.eng.dem.get(f, f))), None)
                if fn is None:
                    raise Unsupported("no function " + fname)
            drive(c.eng, st, fn, [Ptr(c.obj, 0)] + args, pst)
            return c.eng
        out.append(Unit("wq." + name + suffix, list(props), "wq", [0], run))

    def q_same(c, s, but=()):
        r = []
        for q in (HIGH, MED, LOW):
            if q in but:
                continue
            for k in (".row", ".h", ".t"):
                x, y = s.gh[q + k], c.pre.gh[q + k]
                r.append(("queue-%s-unchanged" % q, x == y if isz(x) and z3.is_array(x) else eq(x, y), LIN))
        return r

    # ---- getWorkBlock
    def s_get(c):
        c.fill()
        r = c.r = Obj("result", 16)
        c.st.mem[r] = {}
        return [Ptr(r, 0)]

    def got(c, s):
        p = s.mem[c.r].get(0)
        return (p[1].oid if isinstance(p[1], FPtr) else p[1]) if p is not None else None

    def p_get_seq(c, s, v):
        x = got(c, s)
        if x is None:
            return [("result-is-constructed", False, LIN)]
        p, g = c.pre.gh, s.gh
        ln = {q: c.qlen(p, q) for q in (HIGH, MED, LOW)}
        first = {q: sel(p[q + ".row"], p[q + ".h"]) for q in (HIGH, MED, LOW)}
        cnt = c.counter(s)
        takeH = lt(0, ln[HIGH])
        turn = And(Not(takeH), le(c.ratio, c.cnt), lt(0, ln[LOW]))
        takeM = And(Not(takeH), Not(turn), lt(0, ln[MED]))
        takeL = And(Not(takeH), Not(takeM), lt(0, ln[LOW]))
        none = And(Not(takeH), Not(takeM), Not(takeL))
        h = {q: sub(g[q + ".h"], p[q + ".h"]) for q in (HIGH, MED, LOW)}
        out = [("immediate-work-first", Implies(takeH, And(eq(x, first[HIGH]), eq(cnt, c.cnt))), LIN),
               ("low-priority-turn-after-ratio", Implies(turn, And(eq(x, first[LOW]), eq(cnt, 0))), LIN),
               ("medium-before-low-within-ratio", Implies(takeM, And(eq(x, first[MED]), eq(cnt, If(lt(c.cnt, INTMAX), add(c.cnt, 1), c.cnt)))), LIN),
               ("low-when-nothing-else", Implies(And(takeL, Not(turn)), And(eq(x, first[LOW]), eq(cnt, c.cnt))), LIN),
               ("nothing-only-if-all-empty", Implies(none, And(eq(x, 0), eq(cnt, c.cnt))), LIN),
               ("counter-not-negative", le(0, cnt), LIN)]
        for q, t in ((HIGH, takeH), (MED, takeM), (LOW, takeL)):
            out.append(("taken-block-leaves-its-queue-" + q, eq(h[q], If(t, 1, 0)), LIN))
            out.append(("nothing-queued-by-a-take-" + q, And(eq(g[q + ".t"], p[q + ".t"]), g[q + ".row"] == p[q + ".row"]), LIN))
        out.append(("ratio-unchanged", eq(s.mem[c.obj][c.off["priorityRatio"]][1], c.ratio), LIN))
        return out
    U("get", "get", "seq", s_get, p_get_seq)

    def p_get_conc(c, s, v):
        x = got(c, s)
        if x is None:
            return [("result-is-constructed", False, LIN)]
        g = s.gh
        one = eq(g["pops"], 1)
        return [("takes-at-most-one-block", And(le(0, g["pops"]), le(g["pops"], 1)), LIN),
                ("result-is-the-taken-block", Implies(one, And(eq(x, g["last"]), Not(eq(x, 0)))), LIN),
                ("nothing-taken-means-null", Implies(Not(one), eq(x, 0)), LIN),
                ("nothing-only-if-every-class-was-seen-empty", Implies(eq(x, 0), And(g["seenH"], g["seenM"], g["seenL"])), LIN),
                ("immediate-work-looked-at-first", Implies(And(one, g.get("lastq") != HIGH), g["seenH"]), LIN),
                ("nothing-queued-by-a-take", eq(g["pushes"], 0), LIN)]
    U("get", "get", "conc", s_get, p_get_conc, suffix=".shared")

    # ---- addWorkBlock, one block
    def s_add(prio):
        def f(c):
            c.fill()
            o = c.argo = Obj("arg", 16)
            x = c.x = fresh("block")
            c.st.assume(le(0, x))
            c.st.assume(Implies(Not(eq(x, 0)), c.live(c.st, x)))
            c.st.mem[o] = {0: (8, FPtr("wb", x, 0))}
            if prio is not None:
                c.prio = fresh("prio")
                c.st.assume(And(le(0, c.prio), le(c.prio, 3)))
                return [Ptr(o, 0), c.prio]
            c.prio = MEDIUM_P
            return [Ptr(o, 0)]
        return f

    def cls(c, q):
        p = c.prio
        return {HIGH: Or(eq(p, HIGH_P), eq(p, REQ_P)), MED: eq(p, MEDIUM_P), LOW: eq(p, LOW_P)}[q]

    def p_add(moved):
        def f(c, s, v):
            p, g = c.pre.gh, s.gh
            x = c.x
            # the block was seen finished by this operation: only then may it be dropped
            fin = And(sel(g["finseen"], x), Or(Not(sel(p["finseen"], x)), True))
            use = Not(eq(x, 0))
            out = []
            queued = And(use, lt(0, c.n))
            drop = Or(eq(x, 0), And(fin, Not(eq(c.prio, REQ_P))))
            for q in (HIGH, MED, LOW):
                d = sub(g[q + ".t"], p[q + ".t"]) if c.mode == "seq" else g["push" + q]
                out.append(("queued-in-its-class-only-" + q, Implies(Not(And(lt(0, c.n), cls(c, q))), eq(d, 0)), LIN))
                out.append(("no-block-is-dropped-" + q, Implies(And(lt(0, c.n), cls(c, q), Not(drop)), eq(d, 1)), LIN))
                out.append(("queued-at-most-once-" + q, And(le(0, d), le(d, 1)), LIN))
                out.append(("null-is-not-queued-" + q, Implies(eq(x, 0), eq(d, 0)), LIN))
                if c.mode == "seq":
                    out.append(("queued-at-the-end-" + q, Implies(eq(d, 1), sel(g[q + ".row"], p[q + ".t"]) == zi(x)), LIN))
                    k = fresh("k")
                    out.append(("earlier-work-kept-" + q, And(eq(g[q + ".h"], p[q + ".h"]), forall([k], Implies(lt(k, p[q + ".t"]),
                               sel(g[q + ".row"], k) == sel(p[q + ".row"], k)), [sel(g[q + ".row"], k)])), LIN))
                    out.append(("first-work-is-announced-" + q, Implies(And(eq(d, 1), eq(c.qlen(p, q), 0)), le(1, g["notify"])), LIN))
                else:
                    out.append(("queued-block-is-the-argument-" + q, Implies(eq(d, 1), eq(g.get("lastpush", 0), x)), LIN))
            out.append(("runs-at-once-without-workers", Implies(And(eq(c.n, 0), Not(drop)), And(eq(g["nex"], 1), sel(g["exrow"], 0) == zi(x))), LIN))
            out.append(("not-run-by-the-caller-with-workers", Implies(lt(0, c.n), eq(g["nex"], 0)), LIN))
            out.append(("runs-at-most-once", le(g["nex"], 1), LIN))
            out.append(("nothing-taken-by-an-addition", eq(g["pops"], 0), LIN))
            out.append(("counter-unchanged", eq(c.counter(s), c.cnt) if c.mode == "seq" else True, LIN))
            if not moved:
                out.append(("argument-unchanged", eq(c.spget(s, Ptr(c.argo, 0)), x), LIN))
            return out
        return f

    def prefin(c):
        # nothing is known about the block before the call
        pass
    for mode, sf in (("seq", ""), ("conc", ".shared")):
        U("add", "add", mode, s_add(1), p_add(False), suffix=sf)
        U("add_move", "add", mode, s_add(1), p_add(True), suffix=sf)
        U("add_default", "add", mode, s_add(None), p_add(False), suffix=sf)

    # ---- addWorkBlock, many blocks
    def s_vec(prio):
        def f(c):
            c.fill()
            st = c.st
            o = c.argv = Obj("arg", 24)
            n, oid = c.argn, c.argoid = fresh("n"), fresh("vec")
            st.assume(And(le(0, n), lt(n, 2 ** 58), sel(st.fam["sp.alloc"], oid), eq(sel(st.fam["sp.size"], oid), n)))
            st.mem[o] = {}
            c.setvec(st, Ptr(o, 0), oid, n)
            A = c.argrow = fresh("argrow", ARR1)
            st.fam["sp.p"] = z3.Store(st.fam["sp.p"], zi(oid), A)
            k, j = fresh("k"), fresh("j")
            st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), And(sel(A, k) >= 0, Implies(sel(A, k) != 0, c.live(st, sel(A, k))))), [sel(A, k)]))
            # nn(k): number of non-null pointers among the first k (unit nonnull-count proves the two derived facts)
            st.assume(nn(0) == 0)
            st.assume(forall([k], Implies(And(le(0, k), lt(k, n)), nn(k + 1) == nn(k) + If(sel(A, k) != 0, z3.IntVal(1), z3.IntVal(0))), [sel(A, k)]))
            st.assume(forall([k], Implies(And(le(0, k), le(k, n)), And(nn(k) >= 0, nn(k) <= k)), [nn(k)]))
            st.assume(forall([j, k], Implies(And(le(0, j), lt(j, k), le(k, n), sel(A, j) != 0), nn(j) < nn(k)), [z3.MultiPattern(sel(A, j), nn(k))]))
            if prio is not None:
                c.prio = fresh("prio")
                st.assume(And(le(0, c.prio), le(c.prio, 3)))
                return [Ptr(o, 0), c.prio]
            c.prio = MEDIUM_P
            return [Ptr(o, 0)]
        return f

    def p_vec(c, s, v):
        p, g = c.pre.gh, s.gh
        A, n = c.argrow, c.argn
        out = []
        for q in (HIGH, MED, LOW):
            mine = And(lt(0, c.n), cls(c, q))
            d = sub(g[q + ".t"], p[q + ".t"]) if c.mode == "seq" else g["push" + q]
            out.append(("queued-in-its-class-only-" + q, Implies(Not(mine), eq(d, 0)), LIN))
            if c.mode == "seq":
                out.append(("all-blocks-queued-in-order-" + q, Implies(mine, c.filtered(s, g[q + ".row"], p[q + ".t"], g[q + ".t"], n)), LIN))
                k = fresh("k")
                out.append(("earlier-work-kept-" + q, And(eq(g[q + ".h"], p[q + ".h"]), forall([k], Implies(lt(k, p[q + ".t"]),
                           sel(g[q + ".row"], k) == sel(p[q + ".row"], k)), [sel(g[q + ".row"], k)])), LIN))
                out.append(("work-is-announced-" + q, Implies(lt(0, d), le(1, g["notify"])), LIN))
            else:
                out.append(("all-blocks-queued-" + q, Implies(mine, eq(d, nn(zi(n)))), LIN))
        out.append(("all-run-at-once-without-workers", Implies(eq(c.n, 0), c.filtered(s, g["exrow"], 0, g["nex"], n)), LIN))
        out.append(("not-run-by-the-caller-with-workers", Implies(lt(0, c.n), eq(g["nex"], 0)), LIN))
        out.append(("nothing-taken-by-an-addition", eq(g["pops"], 0), LIN))
        return out
    for mode, sf in (("seq", ""), ("conc", ".shared")):
        U("add_vector", "add", mode, s_vec(1), p_vec, suffix=sf)
        U("add_vector_default", "add", mode, s_vec(None), p_vec, suffix=sf)

    # ---- queries and the ratio
    def s_plain(c):
        c.fill()
        return []
    U("empty", "none", "seq", s_plain, lambda c, s, v: q_same(c, s) + [
        ("empty-iff-no-class-has-work", zb(c.eng.as_bool(v)) == zb(And([eq(c.qlen(c.pre.gh, q), 0) for q in (HIGH, MED, LOW)])), LIN)])
    U("num", "none", "seq", s_plain, lambda c, s, v: q_same(c, s) + [
        ("number-of-blocks", eq(v, add(add(c.qlen(c.pre.gh, HIGH), c.qlen(c.pre.gh, MED)), c.qlen(c.pre.gh, LOW))), LIN)])
    U("count", "none", "seq", s_plain, lambda c, s, v: q_same(c, s) + [
        ("worker-count", eq(v, If(c.halt, 0, c.n)), LIN)])

    def s_ratio(c):
        c.fill()
        c.r = fresh("newratio")
        c.st.assume(And(le(-2 ** 31, c.r), le(c.r, INTMAX)))
        return [c.r]
    U("ratio", "none", "seq", s_ratio, lambda c, s, v: q_same(c, s) + [
        ("positive-ratio-is-used", Implies(lt(0, c.r), eq(s.mem[c.obj][c.off["priorityRatio"]][1], c.r)), LIN),
        ("other-ratio-means-default", Implies(le(c.r, 0), eq(s.mem[c.obj][c.off["priorityRatio"]][1], 4)), LIN),
        ("counter-unchanged", eq(c.counter(s), c.cnt), LIN)])

    # ---- construction, closing, worker loop
    def s_ctor(c):
        c.init = True
        c.arg = fresh("threadCount")
        c.st.assume(And(le(-2 ** 31, c.arg), lt(c.arg, INTMAX)))
        return [c.arg]

    def p_ctor(c, s, v):
        m, o, g = s.mem[c.obj], c.off, s.gh
        if not c.ready(s):
            return [("queue-is-initialised", False, LIN)]
        n = m[o["numWorkers"]][1]
        b, e = m[o["threadpool"]][1], m[o["threadpool"] + 8][1]
        out = [("starts-with-default-ratio", eq(m[o["priorityRatio"]][1], 4), LIN), ("counter-starts-at-zero", eq(m[o["MedCounter"]][1], 0), LIN),
               ("not-halted", Not(c.halted(s)), LIN), ("worker-number-as-requested", Implies(le(0, c.arg), eq(n, c.arg)), LIN),
               ("worker-number-not-negative", le(0, n), LIN),
               ("one-thread-per-worker", eq(g["started"], n), LIN)]
        if is_null(b) and b.fam is None:
            out.append(("pool-holds-the-threads", eq(n, 0), LIN))
        else:
            k = fresh("k")
            r = sel(s.fam["th.j"], b.oid)
            out.append(("pool-holds-the-threads", And(eq(e.idx, n), forall([k], Implies(And(le(0, k), lt(k, n)), sel(r, k) == 1), [sel(r, k)])), LIN))
        for q in (HIGH, MED, LOW):
            out.append(("starts-empty-" + q, eq(c.qlen(g, q), 0), LIN))
        return out
    U("ctor", "none", "seq", s_ctor, p_ctor)

    def joined(c, s):
        k = fresh("k")
        r = sel(s.fam["th.j"], c.pool)
        return [("closed", c.halted(s), LIN), ("every-worker-joined", forall([k], Implies(And(le(0, k), lt(k, c.n)), sel(r, k) == 0), [sel(r, k)]), LIN),
                ("workers-notified-after-closing", Or(c.halt, s.gh["notafter"]), LIN)]
    U("close", "close", "seq", s_plain, lambda c, s, v: joined(c, s))
    U("dtor", "close", "seq", s_plain, lambda c, s, v: joined(c, s))

    def s_loop(c):
        c.fill()
        c.st.gh["haltseen"] = False
        return []
    U("loop", "loop", "conc", s_loop, lambda c, s, v: [
        ("every-taken-block-is-run-unless-finished", eq(s.gh["cur"], 0), LIN),
        ("stops-only-when-closed", c.halted(s), LIN)], fname=r"gmlc::containers::WorkQueue::workerLoop\(\)$")

    # ---- the do-nothing block
    def null_unit(nm, post):
        def run(built, variant, deadline):
            c = WQ(built, "wq." + nm, deadline, "seq")
            o = Obj("block", 8)
            c.st.mem[o] = {}
            c.op = "none"
            drive(c.eng, c.st, "vc_" + nm, [Ptr(o, 0)], lambda k, s, v: post(c, s, v))
            return c.eng
        out.append(Unit("wq." + nm, ["C21"], "wq", [0], run))
    null_unit("null_finished", lambda c, s, v: [("null-block-is-finished", c.eng.as_bool(v), LIN)])
    null_unit("null_execute", lambda c, s, v: [("null-block-does-nothing", eq(s.gh["nex"], 0), LIN)])


def units():
    out = []
    block_units(out)
    queue_units(out)
    return out


def DEFS(driver, variant):
    return ["VN=%d" % variant] if driver == "wb" else []
