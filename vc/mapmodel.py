"""Contracts of the library types the mapped vectors are built on.

std::vector, std::map/std::unordered_map, std::string, std::string_view and
std::unique_ptr are assumed to satisfy their documented behaviour; the
contracts of StableBlockVector and BlockIterator are the ones C06, C07, C10
and C11 prove from the repository's code.

Maps: `b` bound keys, `v` positions, `rk` the (arbitrary) iteration order.
Sequences: FPtr(family, sequence number, index)."""
import re
from engine import *
from lib import *

VS = Family("vs", 24, {0: ("e", "elem")})                       # elements stored by value
KL = Family("kl", 24, {0: ("e", "elem")})                       # lists of keys
VL = Family("vl", 16, {0: ("len", "i64"), 8: ("p", ("ptr", "chr"))})   # lists of string views
NM = Family("nm", 32, {0: ("s", ("ptr", "chr"))})               # strings, each with its own buffer
PV = Family("pv", 8, {0: ("p", ("ptr", "obj"))})                # owning pointers
OB = Family("obj", 24, {0: ("e", "elem")})                      # heap elements
MK = Family("mk", 32, {0: ("k", "elem"), 24: ("v", "i64")})     # map entries, opaque keys
MS = Family("ms", 24, {0: ("len", "i64"), 8: ("p", ("ptr", "chr")), 16: ("v", "i64")})   # map entries, string_view keys
ME = Family("me", 48, {0: ("k", "elem"), 24: ("x", "elem")})    # map entries, opaque keys and values
CH = Family("chr", 1, {})                                       # character buffers
FAMS = [VS, KL, VL, NM, PV, OB, MK, MS, ME, CH]
END = -1
HEAD = {"Elem": "vs", "KeyT": "kl", "std::basic_string_view": "vl", "std::__cxx11::basic_string": "nm", "std::unique_ptr": "pv"}
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def sel(a, *ix):
    for i in ix:
        a = z3.Select(a, zi(i))
    return a


def arr(name):
    return fresh(name, ARR1)


def arrb(name):
    return fresh(name, ARRB)


def split(d):
    """demangled signature -> (class, method, arguments)"""
    d = re.sub(r"\[abi:\w+\]", "", d)
    depth = 0
    cuts = []            # positions of depth-0 "::", and spaces
    i, n = 0, len(d)
    start = 0
    par = None
    while i < n:
        if depth == 0 and d.startswith("operator", i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == "_")):
            m = re.compile(r"operator(\(\)|\[\]|<<=?|>>=?|->\*?|<=>|[-+*/%^&|=!<>]=?|\+\+|--|&&|\|\||(?= ))").match(d, i)
            if m:
                op = m.group(0)
                for o2 in ("operator++", "operator--", "operator->", "operator==", "operator!="):
                    if d.startswith(o2, i):
                        op = o2
                i += len(op)
                if op == "operator":       # conversion operator: up to the argument list
                    j = i
                    dd = 0
                    while j < n and not (d[j] == "(" and dd == 0):
                        dd += {"<": 1, ">": -1}.get(d[j], 0)
                        j += 1
                    i = j
                continue
        c = d[i]
        if c in "<(":
            if c == "(" and depth == 0 and not d.startswith("(anonymous", i):
                par = i
                break
            depth += 1
        elif c in ">)":
            depth -= 1
        elif c == " " and depth == 0:
            start = i + 1
            cuts = []
        elif c == ":" and depth == 0 and d.startswith("::", i):
            cuts.append(i)
            i += 1
        i += 1
    if par is None:
        return None
    head = d[start:par]
    args = d[par:]
    k = cuts[-1] if cuts else None
    if k is None:
        return "", head, args
    return d[start:k], d[k + 2:par], args


class Model:
    """state layout and contracts"""

    def __init__(self, st, eng):
        self.eng = eng
        self.LT = z3.Function("key.less", I, I, z3.BoolSort())
        self.C = arr("content")       # buffer -> content
        self.L = arr("length")        # buffer -> length
        self.OWN = arr("owner")       # buffer -> names sequence holding the string
        for f in ("kl", "vl"):
            st.fam[f + ".pos"] = fresh(f + ".pos", ARR2)
        for f in ("mk", "ms", "me"):
            st.fam[f + ".b"] = fresh(f + ".b", ARRBB)
            st.fam[f + ".rk"] = fresh(f + ".rk", ARR2)
        self.noEnd = []

    # -------------------------------------------------------------- helpers
    @staticmethod
    def opts():
        def entry(f):
            return lambda st, p: And(sel(st.fam[f + ".alloc"], p.oid), sel(st.fam[f + ".b"], p.oid, p.idx), Not(eq(p.idx, END)))

        def key(f):
            return lambda st, p: (Elem(sel(st.fam[f + ".b"], p.oid, p.idx), zi(p.idx)) if p.off == 0 else
                                  Elem(sel(st.fam[f + ".b"], p.oid, p.idx), sel(st.fam[f + ".x.val"], p.oid, p.idx)))
        return {"access": {f: entry(f) for f in ("mk", "ms", "me")}, "elemget": {f: key(f) for f in ("mk", "me")}}

    def number(self, st, f):
        """a fresh object number"""
        k = st.gh[f + ".ctr"]
        st.gh[f + ".ctr"] = add(k, 1)
        st.assume(le(1, k))
        st.fam[f + ".alloc"] = z3.Store(st.fam[f + ".alloc"], zi(k), TRUE)
        return k

    def seq(self, st, p):
        """(family, sequence number, length) of the container at p"""
        b, e = st.mem[p.obj].get(p.off), st.mem[p.obj].get(p.off + 8)
        if b is None or not isinstance(b[1], FPtr):
            raise Unsupported("container at %r" % (p,))
        b, e = b[1], e[1]
        return b.fam, b.oid, sub(e.idx, b.idx)

    def put(self, eng, st, p, f, oid, n, vec):
        c = st.mem[p.obj]
        eng.clear_cells(c, p.off, 24)
        c[p.off] = (8, FPtr(f, oid, 0))
        c[p.off + 8] = (8, FPtr(f, oid, n))
        if vec:
            cap = fresh("cap")
            st.assume(And(le(n, cap), lt(cap, 2 ** 58)))
            c[p.off + 16] = (8, FPtr(f, oid, cap))

    def rows(self, st, f):
        """the arrays of a family holding element values"""
        return {"vs": ["vs.e.val"], "kl": ["kl.e.val"], "vl": ["vl.len", "vl.p"], "nm": ["nm.s"], "pv": ["pv.p"]}[f]

    def newseq(self, eng, st, f, n, rows=None):
        k = self.number(st, f)
        st.fam[f + ".size"] = z3.Store(st.fam[f + ".size"], zi(k), zi(n))
        for a in self.rows(st, f):
            r = rows[a] if rows and a in rows else arr("row")
            st.fam[a] = z3.Store(st.fam[a], zi(k), r)
        self.alive(st, f, k, n)
        return k

    def alive(self, st, f, k, n):
        if f in ("vs", "kl"):
            lv = arrb("liverow")
            j = fresh("j")
            st.assume(forall([j], sel(lv, j) == And(le(0, j), lt(j, n)), [sel(lv, j)]))
            st.fam[f + ".e.live"] = z3.Store(st.fam[f + ".e.live"], zi(k), lv)

    def setrow(self, st, a, k, row):
        st.fam[a] = z3.Store(st.fam[a], zi(k), row)

    def kill(self, st, f, oid):
        st.fam[f + ".alloc"] = z3.Store(st.fam[f + ".alloc"], zi(oid), FALSE)

    def drop_contents(self, eng, st, f, oid, n):
        """the elements of a sequence are destroyed"""
        if f == "nm":
            a = arrb("chr.alloc")
            j = fresh("j")
            old = st.fam["chr.alloc"]
            st.assume(forall([j], sel(a, j) == And(sel(old, j), Not(eq(sel(self.OWN, j), oid))), [sel(a, j)]))
            st.fam["chr.alloc"] = a
        if f == "pv":
            a = arrb("obj.alloc")
            w = arr("where")
            o, j = fresh("o"), fresh("j")
            old, row = st.fam["obj.alloc"], sel(st.fam["pv.p"], oid)
            rng = And(le(0, j), lt(j, n), Not(eq(sel(row, j), 0)))
            eng.check(st, forall([j], Implies(rng, sel(old, sel(row, j))), [sel(row, j)]), "owned-elements-freed-once")
            st.assume(forall([j], Implies(rng, Not(sel(a, sel(row, j)))), [sel(row, j)]))
            st.assume(forall([o], And(Implies(sel(a, o), sel(old, o)), Implies(And(sel(old, o), Not(sel(a, o))), And(
                le(0, sel(w, o)), lt(sel(w, o), n), eq(sel(row, sel(w, o)), o)))), [sel(a, o)]))
            st.assume(Not(sel(a, 0)))
            st.fam["obj.alloc"] = a

    # ---------------------------------------------------------------- strings
    def buf(self, eng, st, x, what):
        """buffer number a string_view / string argument refers to"""
        if isinstance(x, list):
            ln, p = x
        elif isinstance(x, Ptr):
            c = st.mem[x.obj]
            if x.off in c and isinstance(c[x.off][1], FPtr):
                p, ln = c[x.off][1], None
            else:
                ln, p = c[x.off][1], c[x.off + 8][1]
        elif isinstance(x, FPtr) and x.fam == "nm":
            eng.access(st, x, 1, what)
            p, ln = FPtr("chr", sel(st.fam["nm.s"], x.oid, x.idx)), None
        elif isinstance(x, FPtr) and x.fam in ("vl", "ms"):
            eng.access(st, x, 1, what)
            p, ln = FPtr("chr", sel(st.fam[x.fam + ".p"], x.oid, x.idx)), sel(st.fam[x.fam + ".len"], x.oid, x.idx)
        else:
            raise Unsupported("string argument %r" % (x,))
        if is_null(p):
            raise Unsupported("default string_view used as a key")
        if not isinstance(p, FPtr) or p.fam != "chr":
            raise Unsupported("string_view into %r" % (p,))
        if conc(p.idx) != 0:
            raise Unsupported("string_view into the middle of a string")
        eng.check(st, sel(st.fam["chr.alloc"], p.oid), "string-still-alive(%s)" % what)
        if ln is not None:
            eng.check(st, eq(ln, sel(self.L, p.oid)), "string_view-covers-its-string")
        return p.oid

    def key(self, eng, st, mf, x, what):
        """key id of a key argument"""
        if mf == "ms":
            b = self.buf(eng, st, x, what)
            k = sel(self.C, b)
        else:
            b = None
            e = eng.elem_get(st, eng.elem_loc(st, x, what))
            eng.check(st, e.live, "key-alive-at-" + what)
            k = e.val
        st.assume(Not(eq(k, END)))
        return k, b

    # ------------------------------------------------------------------- maps
    def map(self, st, p):
        c = st.mem[p.obj].get(p.off)
        if c is None or not isinstance(c[1], FPtr) or c[1].fam not in ("mk", "ms", "me"):
            raise Unsupported("map at %r" % (p,))
        return c[1].fam, c[1].oid

    def newmap(self, eng, st, f, empty=True):
        k = self.number(st, f)
        if empty:
            self.setb(st, f, k, z3.K(I, FALSE))
        return k

    def setb(self, st, f, m, row):
        st.fam[f + ".b"] = z3.Store(st.fam[f + ".b"], zi(m), row)

    def reorder(self, st, f, m):
        """a new iteration order"""
        r, inv = arr("rank"), arr("unrank")
        j = fresh("j")
        st.assume(forall([j], sel(inv, sel(r, j)) == j, [sel(r, j)]))
        st.fam[f + ".rk"] = z3.Store(st.fam[f + ".rk"], zi(m), r)

    def keys_alive(self, eng, st, f, m):
        """hashing and comparing read the keys: string views must not dangle"""
        if f != "ms":
            return
        j = fresh("j")
        p = sel(st.fam["ms.p"], m)
        eng.check(st, forall([j], Implies(sel(st.fam["ms.b"], m, j), And(sel(st.fam["chr.alloc"], sel(p, j)), eq(sel(self.C, sel(p, j)), j))),
                             [sel(st.fam["ms.b"], m, j)]), "map-keys-do-not-dangle")

    def succ(self, eng, st, f, m, cond, less):
        """smallest bound key after position `less` (None: from the beginning)"""
        b, r = sel(st.fam[f + ".b"], m), sel(st.fam[f + ".rk"], m)
        k, j = fresh("next"), fresh("j")
        after = lambda x: True if less is None else lt(less, sel(r, x))
        st.assume(Or(eq(k, END), And(sel(b, k), Not(eq(k, END)), after(k))))
        st.assume(forall([j], Implies(And(sel(b, j), Not(eq(j, END)), after(j)), And(Not(eq(k, END)), le(sel(r, k), sel(r, j)))), [sel(b, j)]))
        return k

    def map_handler(self, eng, st, cls, meth, args, a, sret):
        f = "me" if ", Elem," in cls else "ms" if re.match(r"std::(unordered_)?map<std::basic_string_view", cls) else "mk"
        name = "std::unordered_map" if cls.startswith("std::unordered") else "std::map"
        base = meth.split("<")[0] if not meth.startswith("operator") else meth
        if a and isinstance(a[0], FPtr):
            raise Unsupported("map in a family")
        eng.lib_used.add("%s::%s" % (name, base))
        voff = {"mk": 24, "ms": 16, "me": 24}[f]
        if base in ("map", "unordered_map"):
            if args.startswith("()"):
                k = self.newmap(eng, st, f)
                self.reorder(st, f, k)
                st.mem[a[0].obj][a[0].off] = (8, FPtr(f, k, 0))
                return None
            g, m = self.map(st, a[1])
            if args.endswith("&&)"):
                st.mem[a[0].obj][a[0].off] = (8, FPtr(f, m, 0))
                k = self.newmap(eng, st, f)
                self.reorder(st, f, k)
                st.mem[a[1].obj][a[1].off] = (8, FPtr(f, k, 0))
                return None
            if args.endswith(" const&)"):
                self.keys_alive(eng, st, f, m)
                self.copymap(eng, st, a[0], f, m)
                return None
            raise Unsupported("map constructor %s" % args)
        if base in ("~map", "~unordered_map"):
            g, m = self.map(st, a[0])
            self.kill(st, f, m)
            del st.mem[a[0].obj][a[0].off]
            return None
        if base == "operator=":
            g, m = self.map(st, a[1])
            g0, m0 = self.map(st, a[0])
            if a[0].obj is a[1].obj and a[0].off == a[1].off:
                raise Unsupported("map self assignment")
            self.kill(st, f, m0)
            if args.endswith("&&)"):
                st.mem[a[0].obj][a[0].off] = (8, FPtr(f, m, 0))
                k = self.newmap(eng, st, f)
                self.reorder(st, f, k)
                st.mem[a[1].obj][a[1].off] = (8, FPtr(f, k, 0))
            else:
                self.keys_alive(eng, st, f, m)
                self.copymap(eng, st, a[0], f, m)
            return a[0]
        if base == "swap":
            x, y = st.mem[a[0].obj][a[0].off], st.mem[a[1].obj][a[1].off]
            st.mem[a[0].obj][a[0].off], st.mem[a[1].obj][a[1].off] = y, x
            return None
        g, m = self.map(st, a[0])
        b = sel(st.fam[f + ".b"], m)
        if base in ("end", "cend"):
            return FPtr(f, m, END)
        if base in ("begin", "cbegin"):
            return FPtr(f, m, self.succ(eng, st, f, m, None, None))
        if base == "clear":
            self.setb(st, f, m, z3.K(I, FALSE))
            return None
        if base in ("empty", "size"):
            k = self.succ(eng, st, f, m, None, None)
            if base == "empty":
                return eq(k, END)
            n = fresh("mapsize")
            st.assume(And(le(0, n), lt(n, 2 ** 60), eq(n, 0) == eq(k, END)))
            return n
        if base == "reserve":
            return None
        if base in ("bucket_count", "max_bucket_count", "max_size"):
            n = fresh("count")
            st.assume(And(lt(0, n), lt(n, 2 ** 63)))
            return n
        if base in ("find", "count", "contains", "at", "operator[]", "emplace", "try_emplace", "insert_or_assign", "erase", "insert",
                    "lower_bound", "upper_bound", "emplace_hint"):
            if base == "erase" and isinstance(a[1], FPtr) and a[1].fam == f and ("iterator" in args.split(">")[0] or "_Node" in args or "_Rb_tree" in args):
                it = a[1]
                eng.check(st, And(eq(it.oid, m), sel(b, it.idx), Not(eq(it.idx, END))), "erased-iterator-denotes-an-entry")
                r = sel(st.fam[f + ".rk"], m)
                nxt = self.succ(eng, st, f, m, None, sel(r, it.idx))     # among the entries before the removal: none of them is the removed one
                self.setb(st, f, m, z3.Store(b, zi(it.idx), FALSE))
                return FPtr(f, m, nxt)
            value = a[2] if len(a) > 2 else None
            if base == "emplace_hint":
                a = [a[0]] + a[2:]
                value = a[2] if len(a) > 2 else None
            if base == "insert":         # one pair: key and value side by side
                if not re.match(r"\((std::enable_if<.*)?std::pair<[^()]*>( const)?&&?\)?", args) or len(a) != 2 or not is_ptr(a[1]):
                    raise Unsupported("map insert %s" % args)
                value = self.shift(a[1], voff)
            if base in ("emplace", "emplace_hint") and value is None:
                raise Unsupported("map emplace of a pair")
            k, bf = self.key(eng, st, f, a[1], "map-" + base)
            self.keys_alive(eng, st, f, m)
            if base == "find":
                r = fresh("found")
                st.assume(Or(And(sel(b, k), eq(r, k)), And(Not(sel(b, k)), eq(r, END))))
                return FPtr(f, m, r)
            if base in ("lower_bound", "upper_bound"):
                r, j = fresh("bound"), fresh("j")
                below = lambda x: self.LT(zi(x), zi(k)) if base == "lower_bound" else Not(self.LT(zi(k), zi(x)))
                st.assume(Or(eq(r, END), And(sel(b, r), Not(eq(r, END)), Not(below(r)), Or(eq(r, k), self.LT(zi(r), zi(k)), self.LT(zi(k), zi(r))))))
                st.assume(Not(self.LT(zi(k), zi(k))))
                st.assume(forall([j], Implies(And(sel(b, j), Not(eq(j, END)), Not(below(j))), And(Not(eq(r, END)), Not(self.LT(j, r)))), [sel(b, j)]))
                if base == "lower_bound":
                    st.assume(Implies(sel(b, k), eq(r, k)))
                return FPtr(f, m, r)
            if base == "count":
                return If(sel(b, k), 1, 0)
            if base == "contains":
                return sel(b, k)
            if base == "erase":
                self.setb(st, f, m, z3.Store(b, zi(k), FALSE))
                return If(sel(b, k), 1, 0)
            s2 = st.copy()
            out = []
            s1 = st
            s1.assume(sel(b, k))
            if eng.feasible(s1):
                if base == "insert_or_assign":
                    self.setval(eng, s1, f, m, k, value)
                out.append((s1, FPtr(f, m, k, voff) if base in ("at", "operator[]") else FPtr(f, m, k) if base == "emplace_hint" else [FPtr(f, m, k), 0]))
            s2.assume(Not(sel(b, k)))
            if eng.feasible(s2):
                if base == "at":
                    out.append((s2, ("throw", "std::out_of_range")))
                else:
                    self.setb(s2, f, m, z3.Store(b, zi(k), TRUE))
                    self.reorder(s2, f, m)
                    if f == "ms":
                        for q, x in (("p", bf), ("len", sel(self.L, bf))):
                            w = "ms." + q
                            s2.fam[w] = z3.Store(s2.fam[w], zi(m), z3.Store(sel(s2.fam[w], m), zi(k), zi(x)))
                    if base == "operator[]":
                        w = f + ".v"
                        s2.fam[w] = z3.Store(s2.fam[w], zi(m), z3.Store(sel(s2.fam[w], m), zi(k), z3.IntVal(0)))
                        out.append((s2, FPtr(f, m, k, voff)))
                    else:
                        self.setval(eng, s2, f, m, k, value)
                        if f != "ms" and args.startswith("(KeyT") and "&&" in args.split(",")[0] and "const&" not in args.split(",")[0]:
                            eng.elem_set(s2, eng.elem_loc(s2, a[1], "key"), Elem(True, fresh("moved")), False)
                        out.append((s2, FPtr(f, m, k) if base == "emplace_hint" else [FPtr(f, m, k), 1]))
            return ("fork", out)
        raise Unsupported("%s::%s" % (name, meth))

    def shift(self, p, d):
        return Ptr(p.obj, p.off + d) if isinstance(p, Ptr) else FPtr(p.fam, p.oid, p.idx, p.off + d)

    def setval(self, eng, st, f, m, k, src):
        if f == "me":
            raise Unsupported("map of elements is read only")
        import ir as IR
        x = eng.load(st, IR.INT[64], src)
        w = f + ".v"
        st.fam[w] = z3.Store(st.fam[w], zi(m), z3.Store(sel(st.fam[w], m), zi(k), zi(x)))

    def copymap(self, eng, st, dst, f, m):
        k = self.newmap(eng, st, f, False)
        self.setb(st, f, k, sel(st.fam[f + ".b"], m))
        for w in {"mk": ["mk.v"], "ms": ["ms.v", "ms.p", "ms.len"]}[f]:
            st.fam[w] = z3.Store(st.fam[w], zi(k), sel(st.fam[w], m))
        self.reorder(st, f, k)
        st.mem[dst.obj][dst.off] = (8, FPtr(f, k, 0))

    def mit(self, eng, st, p):
        """map iterator value stored at p (or passed by value)"""
        if isinstance(p, FPtr):
            return p
        v = st.mem[p.obj].get(p.off)
        if v is None or not isinstance(v[1], FPtr):
            raise Unsupported("map iterator at %r" % (p,))
        return v[1]

    def iter_handler(self, eng, st, cls, meth, args, a, rett):
        if meth in ("operator->", "operator*"):
            it = self.mit(eng, st, a[0])
            eng.access(st, it, 1, "map-iterator-dereference")
            return FPtr(it.fam, it.oid, it.idx)
        if meth == "operator++":
            it = self.mit(eng, st, a[0])
            eng.access(st, it, 1, "map-iterator-increment")
            r = sel(st.fam[it.fam + ".rk"], it.oid)
            nx = FPtr(it.fam, it.oid, self.succ(eng, st, it.fam, it.oid, None, sel(r, it.idx)))
            st.mem[a[0].obj][a[0].off] = (8, nx)
            return a[0] if args.startswith("()") else it
        return "inline"

    # ---------------------------------------------------------- sequences
    def vec_handler(self, eng, st, cls, meth, args, a, vec):
        m = re.match(r"(?:std::vector|gmlc::containers::StableBlockVector)<(?:const )?(Elem|KeyT|std::basic_string_view|std::__cxx11::basic_string|std::unique_ptr)", cls)
        if not m:
            return "inline"
        f = HEAD[m.group(1)]
        base = meth.split("<")[0] if not meth.startswith("operator") else meth
        nm = ("std::vector" if vec else "StableBlockVector (proved: C06-C11)")

        def used():
            eng.lib_used.add("%s::%s" % (nm, base))
        if vec and f == "nm":
            raise Unsupported("vector of strings")
        if base in ("vector", "StableBlockVector"):
            used()
            if args == "()":
                self.put(eng, st, a[0], f, self.newseq(eng, st, f, 0), 0, vec)
                if f in ("kl", "vl"):
                    self.nopos(st, f, self.seq(st, a[0])[1])
                return None
            if args.endswith("&&)"):
                g, oid, n = self.seq(st, a[1])
                self.put(eng, st, a[0], f, oid, n, vec)
                self.put(eng, st, a[1], f, self.newseq(eng, st, f, 0), 0, vec)
                return None
            if args.endswith(" const&)") and args.startswith(("(std::vector", "(gmlc::containers::StableBlockVector")):
                self.copyseq(eng, st, a[0], a[1], f, vec)
                return None
            raise Unsupported("%s constructor %s" % (nm, args))
        if base in ("~vector", "~StableBlockVector"):
            used()
            g, oid, n = self.seq(st, a[0])
            self.drop_contents(eng, st, f, oid, n)
            self.kill(st, f, oid)
            eng.clear_cells(st.mem[a[0].obj], a[0].off, 24)
            return None
        if base == "operator=":
            used()
            if a[0].obj is a[1].obj and a[0].off == a[1].off:
                raise Unsupported("container self assignment")
            g, oid, n = self.seq(st, a[0])
            self.drop_contents(eng, st, f, oid, n)
            self.kill(st, f, oid)
            if args.endswith("&&)"):
                g, o2, n2 = self.seq(st, a[1])
                self.put(eng, st, a[0], f, o2, n2, vec)
                self.put(eng, st, a[1], f, self.newseq(eng, st, f, 0), 0, vec)
            else:
                self.copyseq(eng, st, a[0], a[1], f, vec)
            return a[0]
        if base in ("emplace_back", "push_back"):
            used()
            return self.append(eng, st, f, meth, args, a, vec)
        if base == "pop_back":
            used()
            g, oid, n = self.seq(st, a[0])
            eng.check(st, lt(0, n), "pop_back-of-a-non-empty-container")
            if f == "nm":
                raise Unsupported("pop_back of names")
            if f == "pv":
                self.free_slot(eng, st, oid, sub(n, 1))
            n = sub(n, 1)
            if f == "vs":
                lv = sel(st.fam["vs.e.live"], oid)
                st.fam["vs.e.live"] = z3.Store(st.fam["vs.e.live"], zi(oid), z3.Store(lv, zi(n), FALSE))
            st.fam[f + ".size"] = z3.Store(st.fam[f + ".size"], zi(oid), zi(n))
            self.put(eng, st, a[0], f, oid, n, vec)
            return None
        if base == "clear":
            used()
            g, oid, n = self.seq(st, a[0])
            self.drop_contents(eng, st, f, oid, n)
            if f in ("kl", "vl"):
                raise Unsupported("clear of a key list")
            self.kill(st, f, oid)
            self.put(eng, st, a[0], f, self.newseq(eng, st, f, 0), 0, vec)
            return None
        if base == "reserve":
            used()
            return None
        if base == "erase" and vec:
            used()
            return self.erase(eng, st, f, a, args)
        if vec:
            if base in ("size", "begin", "end", "cbegin", "cend", "operator[]", "back", "front", "at", "empty", "_M_range_check", "data"):
                if base == "size":
                    try:
                        st.assume(lt(self.seq(st, a[0])[2], 2 ** 60))      # max_size()
                    except Unsupported:
                        pass
                return "inline"
            if base.startswith("_"):
                return "inline"
            raise Unsupported("std::vector::%s" % meth)
        # StableBlockVector observers, by contract
        used()
        return self.sbv(eng, st, f, base, args, a)

    def nopos(self, st, f, oid):
        st.fam[f + ".pos"] = z3.Store(st.fam[f + ".pos"], zi(oid), z3.K(I, z3.IntVal(-1)))

    def copyseq(self, eng, st, dst, src, f, vec):
        g, oid, n = self.seq(st, src)
        if f == "pv":
            raise Unsupported("copy of owning pointers")
        rows = {x: sel(st.fam[x], oid) for x in self.rows(st, f)}
        if f == "nm":
            row = arr("row")
            k = self.newseq(eng, st, f, n, {"nm.s": row})
            # new buffers with the same contents
            c0 = st.gh["chr.ctr"]
            st.gh["chr.ctr"] = add(c0, n)
            st.assume(le(0, n))
            al = arrb("chr.alloc")
            old = st.fam["chr.alloc"]
            j = fresh("j")
            st.assume(forall([j], sel(al, j) == Or(sel(old, j), And(le(c0, j), lt(j, add(c0, n)))), [sel(al, j)]))
            st.fam["chr.alloc"] = al
            st.assume(forall([j], Implies(And(le(0, j), lt(j, n)), And(eq(sel(row, j), add(c0, j)), eq(sel(self.C, sel(row, j)), sel(self.C, sel(rows["nm.s"], j))),
                                                                      eq(sel(self.OWN, sel(row, j)), k))), [sel(row, j)]))
        else:
            k = self.newseq(eng, st, f, n, rows)
        if f in ("kl", "vl"):
            st.fam[f + ".pos"] = z3.Store(st.fam[f + ".pos"], zi(k), sel(st.fam[f + ".pos"], oid))
        self.put(eng, st, dst, f, k, n, vec)

    def append(self, eng, st, f, meth, args, a, vec):
        g, oid, n = self.seq(st, a[0])
        rows = {x: sel(st.fam[x], oid) for x in self.rows(st, f)}
        new = {}
        ret = None
        if f in ("vs", "kl"):
            if len(a) < 2:
                v = fresh("defval")
            else:
                s = eng.elem_loc(st, a[1], "element-source")
                se = eng.elem_get(st, s)
                eng.check(st, se.live, "source-element-alive-at-append")
                v = se.val
                rv = args.endswith("&&)")
                if rv:
                    eng.elem_set(st, s, Elem(True, fresh("moved")), False)
            new[f + ".e.val"] = v
        elif f == "vl":
            b = self.buf(eng, st, a[1], "append")
            new = {"vl.len": sel(self.L, b), "vl.p": b}
            v = sel(self.C, b)
        elif f == "nm":
            b = self.buf(eng, st, a[1], "new string")
            k = self.number(st, "chr")
            st.assume(And(eq(sel(self.C, k), sel(self.C, b)), eq(sel(self.L, k), sel(self.L, b)), eq(sel(self.OWN, k), oid)))
            new = {"nm.s": k}
        else:
            src = a[1]
            x = None
            if len(a) == 2 and re.search(r"unique_ptr<Elem[^()]*&&\)$", args):
                import ir as IR
                x = eng.load(st, IR.PTR, src)
                eng.store(st, IR.PTR, NULL, src)
            if x is None:
                raise Unsupported("vector<unique_ptr>::%s%s" % (meth, args))
            eng.check(st, x.off == 0 and eq(x.idx, 0), "stored-pointer-is-block-start")
            new = {"pv.p": x.oid}
        n1 = add(n, 1)
        if vec and f == "vs":
            # growing may move the elements: earlier references are dead
            self.kill(st, f, oid)
            oid2 = self.newseq(eng, st, f, n1, {x: z3.Store(rows[x], zi(n), zi(new[x])) for x in rows})
        else:
            oid2 = oid
            for x in rows:
                self.setrow(st, x, oid, z3.Store(rows[x], zi(n), zi(new[x])))
            st.fam[f + ".size"] = z3.Store(st.fam[f + ".size"], zi(oid), zi(n1))
            if f in ("vs", "kl"):
                lv = sel(st.fam[f + ".e.live"], oid)
                st.fam[f + ".e.live"] = z3.Store(st.fam[f + ".e.live"], zi(oid), z3.Store(lv, zi(n), TRUE))
        if f in ("kl", "vl"):
            p = sel(st.fam[f + ".pos"], oid)
            x = fresh("pos")
            st.assume(Or(And(le(0, sel(p, v)), eq(x, sel(p, v))), And(lt(sel(p, v), 0), eq(x, n))))
            st.fam[f + ".pos"] = z3.Store(st.fam[f + ".pos"], zi(oid), z3.Store(p, zi(v), x))
        st.assume(lt(n1, 2 ** 58))
        self.put(eng, st, a[0], f, oid2, n1, vec)
        if vec and "emplace" in meth:
            return FPtr(f, oid2, n)
        return None

    def free_slot(self, eng, st, oid, i):
        x = sel(st.fam["pv.p"], oid, i)
        eng.check(st, Or(eq(x, 0), sel(st.fam["obj.alloc"], x)), "owned-elements-freed-once")
        a = arrb("obj.alloc")
        st.assume(a == z3.Store(st.fam["obj.alloc"], x, FALSE))
        st.fam["obj.alloc"] = a

    def erase(self, eng, st, f, a, args):
        g, oid, n = self.seq(st, a[0])
        if args.count("__normal_iterator<") != 1 or f not in ("vs", "pv"):
            raise Unsupported("vector erase %s" % args[:80])
        it = a[1]
        if isinstance(it, Ptr):
            it = st.mem[it.obj][it.off][1]
        i = it.idx
        eng.check(st, And(eq(it.oid, oid), le(0, i), lt(i, n)), "erased-iterator-inside-the-vector")
        if f == "pv":
            self.free_slot(eng, st, oid, i)
        w = self.rows(st, f)[0]
        row, new = sel(st.fam[w], oid), arr("row")
        j = fresh("j")
        st.assume(forall([j], Implies(And(le(0, j), lt(j, i)), eq(sel(new, j), sel(row, j))), [sel(new, j)]))
        st.assume(forall([j], Implies(And(le(i, j), lt(j, sub(n, 1))), eq(sel(new, j), sel(row, add(j, 1)))), [sel(new, j)]))
        if f == "vs":
            self.kill(st, f, oid)
            oid = self.newseq(eng, st, f, sub(n, 1), {w: new})
        else:
            self.setrow(st, w, oid, new)
            st.fam[f + ".size"] = z3.Store(st.fam[f + ".size"], zi(oid), zi(sub(n, 1)))
        self.put(eng, st, a[0], f, oid, sub(n, 1), True)
        return FPtr(f, oid, i)

    def sbv(self, eng, st, f, base, args, a):
        off = 1 if base in ("begin", "end", "cbegin", "cend") else 0
        g, oid, n = self.seq(st, a[off])
        if base in ("begin", "cbegin", "end", "cend"):
            self.bput(eng, st, a[0], FPtr(f, oid, 0 if "begin" in base else n))
            return None
        if base == "size":
            return n
        if base == "empty":
            return eq(n, 0)
        if base in ("back", "front"):
            eng.check(st, lt(0, n), "%s-of-a-non-empty-container" % base)
            return FPtr(f, oid, sub(n, 1) if base == "back" else 0)
        if base == "operator[]":
            eng.check(st, And(le(0, a[1]), lt(a[1], n)), "index-inside-the-container")
            return FPtr(f, oid, a[1])
        if base == "at":
            s2 = st.copy()
            ok = And(le(0, a[1]), lt(a[1], n))
            st.assume(ok)
            s2.assume(Not(ok))
            return ("fork", [(s, v) for s, v in ((st, FPtr(f, oid, a[1])), (s2, ("throw", "std::out_of_range"))) if eng.feasible(s)])
        raise Unsupported("StableBlockVector::%s" % base)

    # ------------------------------------------------------- block iterators
    def bput(self, eng, st, p, it):
        c = st.mem[p.obj]
        eng.clear_cells(c, p.off, 24)
        c[p.off] = (8, it)
        c[p.off + 8] = (8, 0)
        c[p.off + 16] = (4, 0)

    def bit_handler(self, eng, st, cls, meth, args, a):
        eng.lib_used.add("BlockIterator (proved: C10)::%s" % meth.split("<")[0])

        def get(p):
            v = st.mem[p.obj].get(p.off)
            if v is None or not isinstance(v[1], FPtr):
                raise Unsupported("block iterator at %r" % (p,))
            return v[1]
        if meth in ("operator*", "operator->"):
            it = get(a[0])
            eng.check(st, And(le(0, it.idx), lt(it.idx, sel(st.fam[it.fam + ".size"], it.oid)), sel(st.fam[it.fam + ".alloc"], it.oid)), "iterator-denotes-an-element")
            return FPtr(it.fam, it.oid, it.idx)
        if meth.split("<")[0] in ("operator==", "operator!="):
            x, y = get(a[0]), get(a[1])
            e = And(eq(x.oid, y.oid), eq(x.idx, y.idx))
            return e if meth.startswith("operator==") else Not(e)
        if meth in ("operator++", "operator--"):
            d = 1 if meth == "operator++" else -1
            post = args.startswith("(int)")
            src = a[1] if post else a[0]
            it = get(src)
            size = sel(st.fam[it.fam + ".size"], it.oid)
            eng.check(st, And(le(0, add(it.idx, d)), le(add(it.idx, d), size)), "iterator-stays-in-range")
            self.bput(eng, st, src, FPtr(it.fam, it.oid, add(it.idx, d)))
            if post:
                self.bput(eng, st, a[0], it)
                return None
            return a[0]
        if meth in ("operator+=", "operator-=", "operator+", "operator-"):
            import ir as IR
            sret = meth in ("operator+", "operator-")
            src = a[1] if sret else a[0]
            k = a[-1]
            k = eng.load(st, IR.INT[64], k) if is_ptr(k) else k
            it = get(src)
            to = add(it.idx, k) if "+" in meth else sub(it.idx, k)
            size = sel(st.fam[it.fam + ".size"], it.oid)
            eng.check(st, And(le(0, to), le(to, size)), "iterator-stays-in-range")
            self.bput(eng, st, a[0], FPtr(it.fam, it.oid, to))
            return None if sret else a[0]
        if meth == "BlockIterator" and args.count("BlockIterator<") == 1:
            self.bput(eng, st, a[0], get(a[1]))
            return None
        raise Unsupported("BlockIterator::%s" % meth)

    # ---------------------------------------------------------------- other
    def handlers(self):
        me = self

        class M:
            """dispatch on the demangled name"""

            def match(self, d):
                s = split(d)
                if s is None:
                    return None
                c = s[0]
                if re.match(r"std::vector<|gmlc::containers::StableBlockVector<|std::(unordered_)?map<|gmlc::containers::BlockIterator<", c):
                    return True
                if re.match(r"std::(_Rb_tree_(const_)?iterator|__detail::_Node_(const_)?iterator)<", c):
                    return True
                return None

        def h(eng, st, fn, a, ins):
            cls, meth, args = split(eng.dem[fn])
            if args.endswith(" const"):
                args = args[:-6]
            if cls.startswith("std::vector<"):
                return me.vec_handler(eng, st, cls, meth, args, a, True)
            if cls.startswith("gmlc::containers::StableBlockVector<"):
                return me.vec_handler(eng, st, cls, meth, args, a, False)
            if cls.startswith("gmlc::containers::BlockIterator<"):
                return me.bit_handler(eng, st, cls, meth, args, a)
            if cls.startswith("std::map<") or cls.startswith("std::unordered_map<"):
                return me.map_handler(eng, st, cls, meth, args, a, None)
            return me.iter_handler(eng, st, cls, meth, args, a, None)

        def str_view(eng, st, fn, a, ins):
            eng.lib_used.add("std::string::operator std::string_view")
            b = me.buf(eng, st, a[0], "view of a string")
            return [sel(me.L, b), FPtr("chr", b)]

        def new(eng, st, fn, a, ins):
            eng.lib_used.add("operator new")
            if conc(a[0]) != 24:
                raise Unsupported("operator new of %r" % (a[0],))
            p = eng.new_obj(st, "obj", 1)
            return p

        def delete(eng, st, fn, a, ins):
            eng.lib_used.add("operator delete")
            p = a[0]
            if is_null(p):
                return None
            if not isinstance(p, FPtr) or p.fam != "obj":
                raise Unsupported("operator delete of %r" % (p,))
            eng.check(st, And(eq(p.idx, 0), p.off == 0), "free-whole-object(obj)")
            eng.check(st, sel(st.fam["obj.alloc"], p.oid), "free-allocated-once(obj)")
            eng.check(st, Not(sel(st.fam["obj.e.live"], p.oid, 0)), "freed-element-was-destroyed")
            st.fam["obj.alloc"] = z3.Store(st.fam["obj.alloc"], zi(p.oid), FALSE)
            return None

        def keyless(eng, st, fn, a, ins):
            eng.lib_used.add("key operator<")
            x, y = me.key(eng, st, "mk", a[0], "compare")[0], me.key(eng, st, "mk", a[1], "compare")[0]
            lt_ = me.LT(zi(x), zi(y))
            st.assume(And(Implies(lt_, And(Not(me.LT(zi(y), zi(x))), Not(eq(x, y)))), Or(eq(x, y), lt_, me.LT(zi(y), zi(x)))))
            return lt_

        def keysame(eng, st, fn, a, ins):
            eng.lib_used.add("key operator==")
            return eq(me.key(eng, st, "mk", a[0], "compare")[0], me.key(eng, st, "mk", a[1], "compare")[0])

        def svsame(eng, st, fn, a, ins):
            eng.lib_used.add("std::string_view::operator==")
            if len(a) != 4 or not all(isinstance(x, FPtr) and x.fam == "chr" and conc(x.idx) == 0 for x in (a[1], a[3])):
                raise Unsupported("string_view comparison")
            for n, x in ((a[0], a[1]), (a[2], a[3])):
                eng.check(st, And(sel(st.fam["chr.alloc"], x.oid), eq(n, sel(me.L, x.oid))), "string-still-alive(compare)")
            return eq(sel(me.C, a[1].oid), sel(me.C, a[3].oid))

        def oor(eng, st, fn, a, ins):
            return ("throw", "std::out_of_range")
        out = [(M(), h),
               (rx(r".*basic_string<.*>::operator std::basic_string_view<.*>\(\) const$"), str_view),
               (rx(r"^operator new\(unsigned long\)$"), new),
               (rx(r"^operator delete\(void\*(, unsigned long)?\)$"), delete),
               (rx(r"^KeyT<\d>::operator<\(.*"), keyless), (rx(r"^KeyT<\d>::operator==\(.*"), keysame),
               (rx(r"^(bool )?std::operator==<char, std::char_traits<char>>\(std::basic_string_view<.*"), svsame),
               (rx(r"^std::__throw_out_of_range(_fmt)?\(.*"), oor)]
        for e in ("Elem", "KeyT<1>", "KeyT<2>"):
            out += elem_handlers(e)
        return out + exc_handlers()
