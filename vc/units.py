"""Common unit machinery: one unit = one function under contract."""
import time
import traceback
import z3
import build
from engine import *


class Unit:
    """name; driver key; props: properties whose checks include the unit; run(built, variant) -> Engine"""

    def __init__(self, name, props, driver, variants, run, desc="", fn=None, quick=None):
        self.name = name
        self.props = props
        self.driver = driver
        self.variants = variants
        self.quick = quick if quick is not None else variants
        self.run = run
        self.desc = desc
        self.fn = fn or name
        self.cost = 1


class Result:
    def __init__(self, unit, variant):
        self.unit = unit
        self.variant = variant
        self.obls = []          # (name, tags, ok, backend, where, time, detail)
        self.error = None       # unsupported / build problem
        self.functions = []
        self.contracts = []
        self.lib = []
        self.paths = 0
        self.exits = 0
        self.time = 0.0
        self.solver = 0.0
        self.queries = 0
        self.vacuous = False
        self.assumptions = []


def execute(unit, variant, built, deadline=None):
    r = Result(unit.name, variant)
    t0 = time.time()
    STATS.time = 0.0
    import engine
    engine._cnt[0] = 0
    STATS.queries = 0
    eng = None
    try:
        eng = unit.run(built, variant, deadline)
    except (Unsupported, build.BuildError) as e:
        r.error = "unsupported: %s" % e
        eng = LAST[0]
    except Exception as e:       # the verifier itself failed: never a verdict
        r.error = "internal: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        eng = LAST[0]
    if eng is not None:
        r.obls = [(o.name, tuple(o.tags), o.ok, o.backend, o.where, round(o.time, 3), o.detail) for o in eng.obls]
        r.functions = sorted(eng.dem.get(f, f) for f in eng.called)
        r.contracts = sorted(eng.contracts_used)
        r.lib = sorted(eng.lib_used)
        r.paths = eng.npaths
        r.exits = getattr(eng, "nexits", 0)
        r.vacuous = getattr(eng, "vacuous", False)
        r.assumptions = sorted(getattr(eng, "assumptions", ()))
    r.time = time.time() - t0
    r.solver = STATS.time
    r.queries = STATS.queries
    return r


LAST = [None]


def engine_seed(n):
    import engine
    engine.SEED0[0] = n


def new_engine(built, fams, intercepts, name, opts=None, deadline=None):
    eng = Engine(built.mod, built.dem, fams, intercepts, name, opts or {})
    eng.deadline = deadline
    eng.nexits = 0
    eng.vacuous = False
    eng.assumptions = set()
    LAST[0] = eng
    return eng


def drive(eng, st, fname, args, post, throws=False):
    """run one function from st; post(kind, state, value) -> list of (name, formula[, tags])"""
    if not eng.feasible(st) or prove(st, False, rl=RL_FULL[0] // 4, attempts=False)[0]:
        eng.vacuous = True

    def sink(kind, s, v):
        if not eng.feasible(s):
            return
        eng.nexits += 1
        if kind == "throw" and not throws:
            eng.check(s, False, "no-exception-escapes", assume=False)
            return
        for g in post(kind, s, v):
            nm, f = g[0], g[1]
            eng.check(s, f, nm, g[2] if len(g) > 2 else None, assume=False)
    eng.enter(st, fname, args)
    eng.explore([st], sink)
    if eng.nexits == 0 and all(o.ok for o in eng.obls):
        eng.vacuous = True
    return eng
