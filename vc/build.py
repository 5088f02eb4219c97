"""Compile the drivers from /repo's current headers and load the IR."""
import os
import re
import subprocess
import tempfile
import shutil
import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-gline-tables-only",
         "-S", "-emit-llvm", "-w"]


class BuildError(Exception):
    pass


class Built:
    pass


def compile_driver(drv, defs=(), workdir=None):
    """-> Built(mod, dem, layouts)"""
    tmp = workdir or tempfile.mkdtemp(prefix="vc-")
    try:
        out = os.path.join(tmp, "%s-%s.ll" % (drv, "-".join(re.sub(r"\W", "_", d) for d in defs)))
        cmd = ["clang++"] + FLAGS + ["-I", os.path.join(REPO, "gmlc/containers"), "-I", REPO, "-I",
                                     os.path.join(VERIF, "drv")]
        cmd += ["-D" + d for d in defs]
        cmd += [os.path.join(VERIF, "drv", drv + ".cpp"), "-Xclang", "-fdump-record-layouts", "-o", out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode != 0:
            raise BuildError(r.stderr[:4000])
        b = Built()
        b.layouts = parse_layouts(r.stdout)
        b.mod = ir.load(out)
        names = list(b.mod.funcs) + list(b.mod.decls)
        d = subprocess.run(["llvm-cxxfilt"] if shutil.which("llvm-cxxfilt") else ["c++filt"], input="\n".join(names),
                           stdout=subprocess.PIPE, text=True)
        b.dem = dict(zip(names, d.stdout.replace("> >", ">>").replace("> >", ">>").split("\n")))
        return b
    finally:
        if workdir is None:
            shutil.rmtree(tmp, ignore_errors=True)


def parse_layouts(txt):
    """{class name: [(offset, type, field)] direct fields}"""
    res = {}
    cur = None
    for ln in txt.split("\n"):
        if ln.startswith("*** Dumping AST Record Layout"):
            cur = None
            continue
        m = re.match(r"^\s*(\d+)(?::[\d-]+)? \|( *)(.*)$", ln)
        if not m:
            continue
        off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3).rstrip()
        if ind == 1 and re.match(r"(class|struct|union) ", rest) and cur is None:
            name = re.sub(r" \(empty\)$", "", rest.split(" ", 1)[1])
            cur = []
            res.setdefault(name, cur)
            continue
        if cur is not None and ind == 3:
            rest = re.sub(r" \(empty\)$", "", rest)
            m2 = re.match(r"^(.*?) ?([\w~$]+)$", rest)
            if "(primary base)" in rest or "(base)" in rest or "vtable" in rest or not m2:
                cur.append((off, rest, "<base>"))
            else:
                cur.append((off, m2.group(1), m2.group(2)))
    return res


def find_layout(layouts, rx):
    for n in layouts:
        if re.search(rx, n):
            return layouts[n]
    raise BuildError("no class layout matching %s" % rx)


def field_map(lay, expected):
    """{name: offset}; falls back to declaration order when a field was renamed"""
    names = {f: o for (o, t, f) in lay}
    if all(e in names for e in expected):
        return {e: names[e] for e in expected}
    order = [o for (o, t, f) in lay]
    if len(order) < len(expected):
        raise BuildError("class fields changed: expected %s, found %s" % (expected, [f for _, _, f in lay]))
    out = {}
    for e, (o, t, f) in zip(expected, lay):
        out[e] = names.get(e, o)
    if len(set(out.values())) != len(out):
        raise BuildError("class fields changed: expected %s, found %s" % (expected, [f for _, _, f in lay]))
    return out
