#!/usr/bin/env python3
"""Plant and confirm a bug: tools/seed.py SPEC.py [ids...]
SPEC defines SEEDS = [dict(id, property, file, edits=[(old,new)...], needs, breaks, demo=<C++ source>)]
Every seed is tried in a scratch copy: it must build, pass the stable tests, pass demo before and fail after."""
import json, os, shutil, subprocess, sys, runpy
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -g -w %s -I"$PWD" -I"$PWD/gmlc/containers" "$d/demo.cpp" -o "$t/demo" -pthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
'''
CONC = '''#!/bin/bash
# run with cwd = the repository; exit 0 when no random schedule fails
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow -DKIND=%d -I"$PWD" -I"$PWD/gmlc/containers" -I"$d" "$d/conc.cpp" -o "$t/demo" -pthread || exit 3
for n in 5 8 12; do
    ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo" 1 %d $n >"$t/out" 2>&1 || { tail -3 "$t/out"; exit 1; }
done
'''
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=pointer-overflow"
def sh(c, cwd=None, to=600):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
def main():
    spec = runpy.run_path(sys.argv[1])
    for s in spec["SEEDS"]:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
        w = "/tmp/seedwork"
        if os.path.exists(w): shutil.rmtree(w)
        os.makedirs(w)
        r = sh("cp -a %s %s/repo" % (os.environ.get("SEED_REPO", "/repo"), w))
        repo = w + "/repo"
        d = w + "/seed"
        os.makedirs(d)
        if "conc" in s:
            for f in ("conc.cpp", "sched.hpp", "common.hpp"): shutil.copy("/verif/replay/" + f, d)
            open(d + "/demo.sh", "w").write(CONC % (s["conc"], s.get("runs", 400)))
        else:
            open(d + "/demo.cpp", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % s.get("san", SAN))
        r0 = sh("bash %s/demo.sh" % d, repo)
        for f, old, new in [(e if len(e) == 3 else (s["file"],) + tuple(e)) for e in s["edits"]]:
            p = "%s/gmlc/containers/%s" % (repo, f)
            t = open(p).read()
            n = t.count(old)
            k = s.get("nth", {}).get(old)
            if k is None and n != 1: sys.exit("%s: %d matches of %r" % (s["id"], n, old))
            if k is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(t)
        diff = sh("git diff", repo).stdout
        r1 = sh("bash %s/demo.sh" % d, repo)
        # the build and test scripts name /repo: check in a build of the copy instead
        b = sh("cmake -S . -B %s/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DGMLC_CONTAINERS_TEST=ON -DGMLC_CONTAINERS_BENCHMARK=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C %s/b" % (w, w), repo)
        t = sh("ctest -j8 -E '^(BlockingQueueTests|PriorityBlockingQueueTests)$' --timeout 120", w + "/b") if b.returncode == 0 else None
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t.returncode == 0
        print("%-28s demo clean=%d bug=%d build=%d tests=%s -> %s" % (s["id"], r0.returncode, r1.returncode, b.returncode, t and t.returncode, "KEPT" if ok else "REJECTED"), flush=True)
        if not ok:
            print((r0.stdout[-500:] if r0.returncode else "") + (b.stdout[-800:] if b.returncode else (t.stdout[-800:] if t.returncode else "")))
        else:
            o = "%s/%s" % (V, s["id"])
            if os.path.exists(o): shutil.rmtree(o)
            os.makedirs(o)
            for f in os.listdir(d): shutil.copy(d + "/" + f, o)
            open(o + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(w)
main()
