#!/usr/bin/env python3
"""tools/try_seeds.py [ids...]: run each seeded bug's own check against a patched scratch copy"""
import json, os, shutil, subprocess, sys, time
V = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(V))
for i in ids:
    pid = json.load(open("%s/%s/meta.json" % (V, i)))["property"]
    w = "/tmp/trywork-" + i
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git apply %s/%s/patch.diff 2>&1 || patch -p1 < %s/%s/patch.diff" % (w, w, V, i, V, i), shell=True)
    t = time.time()
    r = subprocess.run(["python3-vt", "/verif/check.py", pid], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    f = [l for l in r.stdout.split("\n") if l.startswith(("FAILED", "FAILING", "UNDEC"))]
    print("%-30s %s rc=%d %3.0fs %s | %s" % (i, pid, r.returncode, time.time() - t, v[0] if v else "NO VIOLATION", " || ".join(f)[:400]), flush=True)
    shutil.rmtree(w)
