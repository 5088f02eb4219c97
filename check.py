#!/usr/bin/env python3-vt
"""Decide one property: check.py <property> [--tier quick|thorough]

Every obligation of every unit of the property is generated from the current
sources under /repo and handed to the solver.  Exit 0: all discharged (or the
functions out of reach passed their bounded stand-in).  Exit 1: a named
obligation is not discharged, with a VIOLATION line.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp

if os.environ.get("PYTHONHASHSEED") != "0":      # same run, same order, same verdict
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
import build  # noqa: E402
import units  # noqa: E402
import registry  # noqa: E402

JOBS = []
BUILT = {}
T0 = time.time()


def run_job(k, deadline):
    u, v = JOBS[k]
    b = BUILT[(u.driver, v)]
    if isinstance(b, str):
        r = units.Result(u.name, v)
        r.error = "build: " + b
        return k, r
    return k, units.execute(u, v, b, deadline)


def run_job1(a):
    return run_job(*a)


def run_job2(a):
    """second attempt at a unit that failed: another seed of the solver, everything else as before"""
    units.engine_seed(11)
    return run_job(*a)


def second_attempt(results, tags, tier, ncpu):
    """An obligation is failed only when the verifier refuses it twice: units whose failure came with no failing
    input are proved anew with another solver seed, as far as the time of the check allows."""
    limit = 700 if tier == "quick" else 3000
    ks = []
    for k, r in enumerate(results):
        if not r.error and any(not o[2] and set(o[1]) & set(tags) for o in r.obls):
            if time.time() - T0 + 1.5 * r.time + 20 < limit:
                ks.append(k)
    if not ks or len(ks) > 24:
        return []
    out = []
    with mp.get_context("fork").Pool(ncpu, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_job2, [(k, T0 + limit) for k in ks], chunksize=1)
        for _ in ks:
            try:
                k, r = it.next(timeout=max(1.0, T0 + limit + 30 - time.time()))
            except (StopIteration, mp.TimeoutError):
                break
            if not r.error and not r.vacuous and not any(not o[2] for o in r.obls):
                results[k] = r
                out.append("%s[%s]" % (r.unit, r.variant))
    return out


def compile_one(key, defs):
    try:
        return key, build.compile_driver(key[0], defs)
    except build.BuildError as e:
        return key, str(e)
    except Exception as e:      # parser problems: out of reach, not a verdict
        return key, "%s: %s" % (type(e).__name__, e)


# ------------------------------------------------------------------ replay
def build_harness(key, tmp):
    src, defs, ops = registry.HARNESS[key]
    out = os.path.join(tmp, "replay-" + key)
    cmd = ["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-sanitize=pointer-overflow"]
    if src == "bytes.cpp":      # index records of odd capacities are misaligned by design; copies of 0 bytes may name null
        cmd.append("-fno-sanitize=alignment,nonnull-attribute")
    cmd += ["-D" + d for d in defs]
    cmd += ["-I", os.path.join(build.REPO, "gmlc/containers"), "-I", build.REPO, "-I", os.path.join(HERE, "replay"),
            os.path.join(HERE, "replay", src), "-o", out, "-pthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 0:
        return None, r.stdout[:3000]
    return out, ops


def run_harness(exe, seed, cnt, ops, cwd, verbose=False, timeout=120):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=97:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")
    try:
        r = subprocess.run([exe, str(seed), str(cnt), str(ops)] + (["v"] if verbose else []), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace")
        return {"rc": "timeout", "out": out, "err": ""}
    return {"rc": r.returncode, "out": r.stdout.decode(errors="replace"), "err": r.stderr.decode(errors="replace")}


def classify(res):
    """None if the run passed, else (category, what, seed, variant)"""
    last = re.findall(r"CASE seed=(\d+) variant=(\d+)", res["out"])
    sd, va = (last[-1] if last else ("0", "0"))
    m = re.search(r"FAIL cat=(\S+)(?: seed=\S+ variant=\S+)? what=(.*)", res["out"])
    if res["rc"] == 0 and not m:
        return None
    if m:
        return m.group(1), m.group(2), int(sd), int(va)
    if res["rc"] == "timeout":
        return "hang", "the history did not finish", int(sd), int(va)
    e = re.search(r"(ERROR: \S*Sanitizer.*|runtime error: .*|terminate called.*)", res["err"])
    return "crash", (e.group(1) if e else "exit status %s" % res["rc"])[:300], int(sd), int(va)


def search(pid, seed, budget, tmp):
    """look for a failing history on the real code -> (report or None, cases run, build problems)"""
    tags, keys, cats = registry.PROPS[pid]
    cases = 0
    problems = []
    todo = []
    for key in keys.split("+"):
        exe, info = build_harness(key, tmp)
        if exe is None:
            problems.append("%s: %s" % (key, info))
            continue
        todo.append((key, exe, info))
    if not todo:
        return None, 0, problems
    t0 = time.time()
    ncpu = max(1, min(8, os.cpu_count() or 1))
    base = 1 + (seed % 100000) * 1000000
    from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
    n = 0
    best = None
    with ThreadPoolExecutor(ncpu) as ex:
        pend = {}
        while True:
            while len(pend) < ncpu and time.time() - t0 < budget and best is None:
                key, exe, ops = todo[n % len(todo)]
                # lengths from short to long: short failing histories first
                o = [max(4, ops // 8), max(6, ops // 3), ops, ops * 3][(n // len(todo)) % 4]
                f = ex.submit(run_harness, exe, base + n * 50, 50, o, tmp)
                pend[f] = (key, exe, o, base + n * 50)
                n += 1
            if not pend:
                break
            done, _ = wait(list(pend), return_when=FIRST_COMPLETED)
            for f in done:
                key, exe, o, b = pend.pop(f)
                res = f.result()
                cases += len(re.findall(r"^CASE ", res["out"], re.M))
                c = classify(res)
                if c and c[0] in cats and best is None:
                    best = (key, exe, o, c)
    if best is None:
        return None, cases, problems
    key, exe, ops, c = best
    # shorten the history: fewest operations that still fail with the same seed
    sd = c[2]
    lo = ops
    for o in list(range(1, min(ops, 40))):
        r = classify(run_harness(exe, sd, 1, o, tmp))
        if r and r[0] in cats:
            lo, c = o, r
            break
    v = run_harness(exe, sd, 1, lo, tmp, verbose=True)
    hist = [ln for ln in v["err"].split("\n") if ln.startswith("  ") or ln.startswith("variant")]
    k = max([i for i, ln in enumerate(hist) if ln.startswith("variant")] or [0])
    return {"harness": registry.HARNESS[key][0], "defines": registry.HARNESS[key][1], "seed": sd, "variant": c[3],
            "operations": lo, "category": c[0], "what": c[1], "history": [x.strip() for x in hist[k:]][:400],
            "sanitizer": v["err"][-3000:] if c[0] == "crash" else ""}, cases, problems


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tags, keys, cats = registry.PROPS[pid]
    limit = 480 if tier == "quick" else 2400
    deadline = T0 + limit
    us = [u for u in registry.units() if pid in u.props]
    for u in us:
        for v in (u.quick if tier == "quick" else u.variants):
            JOBS.append((u, v))
    tmp = tempfile.mkdtemp(prefix="verif-")
    ncpu = a.jobs or max(1, min(8, os.cpu_count() or 1))
    try:
        keys_ = sorted({(u.driver, v): u.defs(u.driver, v) for u, v in JOBS}.items(), key=str)
        with ProcessPoolExecutor(ncpu) as ex:
            for k, b in ex.map(compile_one, [k for k, _ in keys_], [d for _, d in keys_]):
                BUILT[k] = b
        res = {}
        order = sorted(range(len(JOBS)), key=lambda k: -JOBS[k][0].cost)
        # a fresh process per unit: the solver's verdict depends on nothing an earlier unit did
        with mp.get_context("fork").Pool(ncpu, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_job1, [(k, deadline) for k in order], chunksize=1)
            end = deadline + 90
            while len(res) < len(order):
                try:
                    k, r = it.next(timeout=max(1.0, end - time.time()))
                except (StopIteration, mp.TimeoutError):
                    break
                res[k] = r
                if a.verbose:
                    bad = [o for o in r.obls if not o[2]]
                    print("%-30s %4s %4d obligations %3d open %6.1fs %s" % (r.unit, r.variant, len(r.obls), len(bad), r.time,
                                                                         (r.error or "")[:300]), flush=True)
                    for o in bad[:5]:
                        print("      ", o[0], o[4], o[3])
        for k in range(len(JOBS)):
            if k not in res:
                r = units.Result(JOBS[k][0].name, JOBS[k][1])
                r.error = "internal: worker died"
                res[k] = r
        rc = report(pid, tier, seed, tags, [res[k] for k in range(len(JOBS))], tmp, a)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def report(pid, tier, seed, tags, results, tmp, a, earlier=None):
    mine = []
    failed = []
    undecided = []
    by = {}
    fn, con, lib, assum = set(), set(), set(), set()
    solver = 0.0
    proved_units = []
    samples = []
    for r in results:
        solver += r.solver
        fn |= set(r.functions)
        con |= set(r.contracts)
        lib |= set(r.lib)
        assum |= set(r.assumptions)
        o_mine = [o for o in r.obls if set(o[1]) & set(tags)]
        bad = [o for o in o_mine if not o[2]]
        mine += [(r, o) for o in o_mine]
        failed += [(r, o) for o in bad]
        if r.error:
            undecided.append((r, r.error))
        elif r.vacuous:
            undecided.append((r, "vacuous: the precondition or every exit is unreachable"))
        elif not bad:
            proved_units.append("%s[%s]" % (r.unit, r.variant))
            if len(samples) < 6 and o_mine:
                samples.append("%s[%s]: %s" % (r.unit, r.variant, o_mine[-1][0]))
        for o in o_mine:
            if o[2]:
                by[o[3]] = by.get(o[3], 0) + 1
    known = known_findings(pid)
    # the obligations of a unit the verifier could not finish are no verdict on their own
    lines = []
    viol = 0
    standin = None
    need = bool(failed) or bool(undecided)
    rep, cases, problems = (None, 0, [])
    again = []
    if earlier is not None:
        rep, cases, problems, standin, again = earlier
    elif need and not a.no_replay:
        budget = 60 if tier == "quick" else 300
        left = 850 - (time.time() - T0) if tier == "quick" else 10 ** 6
        rep, cases, problems = search(pid, seed, max(10, min(budget, left - 60)), tmp)
        standin = {"label": "bounded: random histories on the real code (never counted as proved)",
                   "cases": cases, "build_problems": problems, "failing": rep is not None}
    if failed and rep is None and earlier is None:
        again = second_attempt(results, tags, tier, a.jobs or max(1, min(8, os.cpu_count() or 1)))
        if again:
            return report(pid, tier, seed, tags, results, tmp, a, (rep, cases, problems, standin, again))
    new_failed = []
    for r, o in failed:
        k = [d for d in known if re.search(d["obligation"], "%s:%s" % (r.unit, o[0]))]
        if k:
            for d in k:
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, d["what"]))
        else:
            new_failed.append((r, o))
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    if new_failed or rep:
        viol = 1
        h = hashlib.sha1(("%s%s" % (sorted("%s:%s" % (r.unit, o[0]) for r, o in new_failed), rep and rep["what"]))
                         .encode()).hexdigest()[:10]
        path = os.path.join("out", "%s-%s.json" % (pid, h))
        json.dump({"property": pid,
                   "failed_obligations": [{"unit": r.unit, "variant": r.variant, "obligation": o[0], "at": o[4],
                                           "verifier": o[3], "countermodel": o[6]} for r, o in new_failed[:40]],
                   "undecided_units": ["%s[%s]: %s" % (r.unit, r.variant, e) for r, e in undecided][:20],
                   "failing_input": rep,
                   "histories_tried": cases,
                   "how_to_replay": "compile /verif/replay/%s with -I/repo/gmlc/containers and run: <exe> %s 1 %s v" % (
                       rep["harness"], rep["seed"], rep["operations"]) if rep else "no failing input was found"},
                  open(os.path.join(HERE, path), "w"), indent=1)
        for r, o in new_failed[:12]:
            print("FAILED-OBLIGATION %s[%s] %s at %s (%s)" % (r.unit, r.variant, o[0], o[4], o[3]))
        if rep:
            print("FAILING-INPUT %s seed=%s variant=%s operations=%s: %s" % (rep["harness"], rep["seed"], rep["variant"],
                                                                           rep["operations"], rep["what"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, "" if rep else " no-failing-input-found"))
    for ln in sorted(set(lines)):
        print(ln)
    for r, e in undecided:
        print("UNDECIDED %s[%s]: %s" % (r.unit, r.variant, e.split("\n")[0][:300]))
    ok = sum(1 for _, o in mine if o[2])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": len(mine), "discharged": ok,
            "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": ["clang 18 front end (C++ to LLVM IR, -O0)", "/verif/vc obligation generator and memory model",
                             "z3 5.3 (python API)"] + ["assumed contract: " + x for x in sorted(lib)],
            "by_backend": by,
            "solver_seconds": round(solver, 1),
            "units": len(results), "units_fully_discharged": len(proved_units),
            "functions_under_contract": sorted({"%s" % r.unit for r in results if not r.error}),
            "functions_verified_inlined": sorted(f for f in fn if "gmlc::containers" in f or "mapFind" in f)[:200],
            "contracts_applied_at_calls": sorted(con),
            "instances": sorted({str(r.variant) for r in results}),
            "samples": samples,
            "undecided": ["%s[%s]: %s" % (r.unit, r.variant, e.split("\n")[0][:300]) for r, e in undecided],
            "bounded_standin": standin,
            "discharged_at_second_attempt": again,
        },
        "assumptions": sorted(assum),
        "wall_s": round(time.time() - T0, 1),
        "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d units (%d undecided), %.0f s" % (pid, len(mine), ok, len(results),
                                                                               len(undecided), time.time() - T0))
    if viol:
        return 1
    if undecided and len(undecided) == len(results) and (problems or not cases):
        print("nothing could be decided")
        return 2
    return 0


if __name__ == "__main__":
    main()
