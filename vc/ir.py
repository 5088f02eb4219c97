"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the drivers.

Functions are split eagerly but parsed lazily, so that the large amount of
library code in a translation unit costs nothing unless it is executed."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "bits", "elems", "n", "name", "packed", "_size", "_align", "_offs")

    def __init__(self, k, bits=0, elems=None, n=0, name=None, packed=False):
        self.k = k
        self.bits = bits
        self.elems = elems
        self.n = n
        self.name = name
        self.packed = packed
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.bits
        if self.k == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.elems or []))
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.elems)
        return self.k


INT = {b: Ty("int", b) for b in (1, 8, 16, 32, 64, 128)}
PTR = Ty("ptr")
VOID = Ty("void")
FLOAT = Ty("float", 32)
DOUBLE = Ty("float", 64)
LABEL = Ty("label")
META = Ty("metadata")


def _align_up(x, a):
    return (x + a - 1) // a * a


class Tok:
    """cursor over a token list"""

    RX = re.compile(
        r'\s*(?:'
        r'(?P<str>c?"(?:[^"\\]|\\.)*")'
        r'|(?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))'
        r'|(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))'
        r'|(?P<meta>!(?:[-a-zA-Z$._0-9]+)?)'
        r'|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![a-zA-Z_]))'
        r'|(?P<hex>0x[0-9A-Fa-fKLMHR]+)'
        r'|(?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)'
        r'|(?P<dots>\.\.\.)'
        r'|(?P<attr>#\d+)'
        r'|(?P<p>[()\[\]{}<>,=*:|])'
        r')')

    def __init__(self, s):
        toks = []
        pos = 0
        n = len(s)
        m = self.RX.match
        while pos < n:
            if s[pos].isspace():
                pos += 1
                continue
            if s[pos] == ";":
                break
            r = m(s, pos)
            if not r:
                raise IRError("cannot tokenize: %r at %r" % (s, s[pos:pos + 20]))
            toks.append((r.lastgroup, r.group(r.lastgroup)))
            pos = r.end()
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r at %r" % (v, self.t[self.i:self.i + 6]))

    def eof(self):
        return self.i >= len(self.t)


ATTR_WORDS = {
    "noundef", "nonnull", "noalias", "nocapture", "writable", "returned", "zeroext", "signext", "inreg",
    "readonly", "readnone", "writeonly", "immarg", "nest", "swiftself", "swifterror", "nofree", "noreturn",
    "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "linkonce_odr", "private", "weak",
    "external", "hidden", "protected", "default", "tail", "musttail", "notail", "fastcc", "ccc", "coldcc",
    "inbounds", "nuw", "nsw", "exact", "volatile", "dead_on_unwind", "weak_odr", "available_externally",
    "linkonce", "common", "appending", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast",
    "thread_local", "constant", "global", "disjoint", "nneg", "dllimport",
}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "memory", "nofpclass", "allocsize", "range"}
TYPED_ATTRS = {"byval", "sret", "elementtype", "inalloca", "byref", "preallocated"}


class Module:
    def __init__(self, text):
        self.named = {}
        self.typesrc = {}
        self.funcs = {}
        self.globs = {}
        self.decls = {}
        self.dbg = {}
        self.dbgsrc = {}
        self._split(text)

    # -------------------------------------------------- splitting
    def _split(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = Function(self, ln, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if ln.startswith("%"):
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                if m:
                    self.typesrc[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
                if m:
                    self.globs[m.group(1)] = m.group(2)
            elif ln.startswith("declare "):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                self.decls[m.group(1)[1:]] = ln
            elif ln.startswith("!"):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.dbgsrc[m.group(1)] = m.group(2)
            i += 1

    # -------------------------------------------------- types
    def type_named(self, name):
        if name in self.named:
            return self.named[name]
        t = Ty("struct", name=name)
        self.named[name] = t
        src = self.typesrc.get(name)
        if src is None or src.startswith("opaque"):
            t.elems = []
            return t
        b = self.parse_type(Tok(src))
        t.elems = b.elems
        t.packed = b.packed
        return t

    def parse_type(self, tk):
        v = tk.next()
        if v == "ptr":
            t = PTR
        elif v == "void":
            t = VOID
        elif v == "float":
            t = FLOAT
        elif v in ("double", "x86_fp80"):
            t = DOUBLE
        elif v == "label":
            t = LABEL
        elif v == "metadata":
            t = META
        elif re.match(r"^i\d+$", v):
            b = int(v[1:])
            t = INT.get(b) or Ty("int", b)
        elif v == "{":
            el = []
            if not tk.accept("}"):
                while True:
                    el.append(self.parse_type(tk))
                    if tk.accept("}"):
                        break
                    tk.expect(",")
            t = Ty("struct", elems=el)
        elif v == "<":
            if tk.accept("{"):
                el = []
                if not tk.accept("}"):
                    while True:
                        el.append(self.parse_type(tk))
                        if tk.accept("}"):
                            break
                        tk.expect(",")
                tk.expect(">")
                t = Ty("struct", elems=el, packed=True)
            else:
                n = int(tk.next())
                tk.expect("x")
                e = self.parse_type(tk)
                tk.expect(">")
                t = Ty("vector", elems=e, n=n)
        elif v == "[":
            n = int(tk.next())
            tk.expect("x")
            e = self.parse_type(tk)
            tk.expect("]")
            t = Ty("array", elems=e, n=n)
        elif v.startswith("%"):
            t = self.type_named(v)
        else:
            raise IRError("type? %r near %r" % (v, tk.t[max(0, tk.i - 5):tk.i + 5]))
        # function types: ret (args)
        while tk.peek() == "(" and t.k != "func":
            depth = 0
            save = tk.i
            j = tk.i
            # treat "(...)" after a type as a function type only in call position; caller handles it
            tk.i = save
            break
        if tk.peek() == "addrspace":
            tk.next()
            tk.expect("(")
            tk.next()
            tk.expect(")")
        return t

    def size(self, t):
        if t._size is not None:
            return t._size
        if t.k == "int":
            s = max(1, (t.bits + 7) // 8)
            if s > 8:
                s = 16
        elif t.k == "ptr":
            s = 8
        elif t.k == "float":
            s = t.bits // 8
        elif t.k == "array":
            s = t.n * self.size(t.elems)
        elif t.k == "struct":
            self.offsets(t)
            s = t._size
        elif t.k == "vector":
            s = t.n * self.size(t.elems)
        else:
            raise IRError("size of %r" % t)
        t._size = s
        return s

    def align(self, t):
        if t._align is not None:
            return t._align
        if t.k == "struct":
            self.offsets(t)
            a = t._align
        elif t.k in ("array", "vector"):
            a = self.align(t.elems)
        else:
            a = self.size(t)
        t._align = a
        return a

    def offsets(self, t):
        if t._offs is not None:
            return t._offs
        o = 0
        al = 1
        offs = []
        for e in t.elems:
            a = 1 if t.packed else self.align(e)
            al = max(al, a)
            o = _align_up(o, a)
            offs.append(o)
            o += self.size(e)
        t._offs = offs
        t._align = al
        t._size = _align_up(o, al)
        return offs

    # -------------------------------------------------- debug lines
    def dbg_line(self, n):
        """'file:line' of a !dbg node"""
        if n is None:
            return None
        if n in self.dbg:
            return self.dbg[n]
        src = self.dbgsrc.get(n, "")
        r = None
        m = re.search(r"DILocation\(line: (\d+).*?scope: !(\d+)", src)
        if m:
            r = "%s:%s" % (self._scope_file(m.group(2)), m.group(1))
        self.dbg[n] = r
        return r

    def _scope_file(self, n, depth=0):
        src = self.dbgsrc.get(n, "")
        if depth > 12:
            return "?"
        m = re.search(r'DIFile\(filename: "([^"]*)"', src)
        if m:
            return m.group(1).split("/")[-1]
        m = re.search(r"file: !(\d+)", src) or re.search(r"scope: !(\d+)", src)
        return self._scope_file(m.group(1), depth + 1) if m else "?"

    # -------------------------------------------------- constants / operands
    def skip_attrs(self, tk):
        out = {}
        while True:
            p = tk.peek()
            if p is None:
                return out
            if p in ATTR_WORDS:
                tk.next()
                out[p] = True
            elif p == "align":
                tk.next()
                if tk.accept("("):
                    tk.next()
                    tk.expect(")")
                else:
                    tk.next()
            elif p in PAREN_ATTRS:
                tk.next()
                self._skip_parens(tk)
            elif p in TYPED_ATTRS:
                tk.next()
                tk.expect("(")
                out[p] = self.parse_type(tk)
                tk.expect(")")
            elif tk.kind() == "attr":
                tk.next()
            elif tk.kind() == "str" and not p.startswith("c"):
                tk.next()
                if tk.accept("="):
                    tk.next()
            else:
                return out

    def _skip_parens(self, tk):
        tk.expect("(")
        d = 1
        while d:
            v = tk.next()
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def parse_value(self, tk, ty):
        """operand -> tuple form"""
        v = tk.next()
        k = v[0]
        if k == "%":
            return ("r", v)
        if k == "@":
            return ("g", v[1:].strip('"'))
        if v == "null":
            return ("null",)
        if v == "true":
            return ("i", 1)
        if v == "false":
            return ("i", 0)
        if v in ("undef", "poison"):
            return ("undef", ty)
        if v == "zeroinitializer":
            return ("zero", ty)
        if v in ("getelementptr", "bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "sub", "add", "icmp",
                 "addrspacecast"):
            return self._constexpr(tk, v)
        if v == "{" or v == "[" or v == "<":
            packed = False
            if v == "<" and tk.accept("{"):
                packed = True
                v = "{"
            close = {"{": "}", "[": "]", "<": ">"}[v]
            el = []
            if not tk.accept(close):
                while True:
                    t = self.parse_type(tk)
                    self.skip_attrs(tk)
                    el.append((t, self.parse_value(tk, t)))
                    if tk.accept(close):
                        break
                    tk.expect(",")
            if packed:
                tk.expect(">")
            return ("agg", ty, el)
        if v.startswith('c"'):
            return ("cstr", v[2:-1])
        if re.match(r"^-?\d+$", v):
            return ("i", int(v))
        if re.match(r"^-?\d+\.", v) or v.startswith("0x"):
            return ("f", v)
        raise IRError("value? %r" % v)

    def _constexpr(self, tk, op):
        if op == "getelementptr":
            self.skip_attrs(tk)
            while tk.peek() == "inrange":
                tk.next()
            tk.expect("(")
            bt = self.parse_type(tk)
            args = []
            while tk.accept(","):
                while tk.peek() == "inrange":
                    tk.next()
                t = self.parse_type(tk)
                self.skip_attrs(tk)
                args.append((t, self.parse_value(tk, t)))
            tk.expect(")")
            return ("cgep", bt, args)
        if op in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "addrspacecast"):
            tk.expect("(")
            t = self.parse_type(tk)
            v = self.parse_value(tk, t)
            tk.expect("to")
            t2 = self.parse_type(tk)
            tk.expect(")")
            return ("ccast", op, t, v, t2)
        if op in ("sub", "add"):
            self.skip_attrs(tk)
            tk.expect("(")
            t = self.parse_type(tk)
            a = self.parse_value(tk, t)
            tk.expect(",")
            t2 = self.parse_type(tk)
            b = self.parse_value(tk, t2)
            tk.expect(")")
            return ("cbin", op, t, a, b)
        raise IRError("constexpr %s" % op)

    def typed(self, tk):
        t = self.parse_type(tk)
        self.skip_attrs(tk)
        return t, self.parse_value(tk, t)


class Instr:
    __slots__ = ("op", "res", "a", "dbg", "text", "line")

    def __init__(self, op, res, a, dbg, text):
        self.op = op
        self.res = res
        self.a = a
        self.dbg = dbg
        self.text = text

    def __repr__(self):
        return self.text.strip()


class Function:
    def __init__(self, mod, head, body):
        self.mod = mod
        self.head = head
        self._body = body
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', head)
        self.name = m.group(1).strip('"')
        self._parsed = False
        self._loops = None

    # ---- lazy
    @property
    def params(self):
        self.parse()
        return self._params

    @property
    def blocks(self):
        self.parse()
        return self._blocks

    @property
    def order(self):
        self.parse()
        return self._order

    @property
    def ret(self):
        self.parse()
        return self._ret

    def parse(self):
        if self._parsed:
            return
        self._parsed = True
        mod = self.mod
        tk = Tok(self.head)
        tk.expect("define")
        mod.skip_attrs(tk)
        if tk.peek() == "comdat":
            tk.next()
        self._ret = mod.parse_type(tk)
        mod.skip_attrs(tk)
        g = tk.next()
        assert g[0] == "@", self.head
        tk.expect("(")
        ps = []
        if not tk.accept(")"):
            while True:
                if tk.accept("..."):
                    tk.expect(")")
                    break
                t = mod.parse_type(tk)
                at = mod.skip_attrs(tk)
                nm = tk.next() if tk.kind() == "local" else None
                ps.append((t, nm, at))
                if tk.accept(")"):
                    break
                tk.expect(",")
        # unnamed params are numbered
        cnt = 0
        fixed = []
        for (t, nm, at) in ps:
            if nm is None:
                nm = "%%%d" % cnt
            if re.match(r"^%\d+$", nm):
                cnt = int(nm[1:]) + 1
            fixed.append((t, nm, at))
        self._params = fixed
        blocks = {}
        order = []
        cur = None
        pend = None
        lines = self._body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if m:
                cur = "%" + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = "%entry0"
                # unnamed entry block takes the next number
                cur = "%%%d" % cnt
                blocks[cur] = []
                order.append(cur)
            # multi-line instructions (switch, invoke, landingpad)
            if " switch " in ln or s.startswith("switch "):
                while not lines[i - 1].rstrip().endswith("]") and "]" not in lines[i - 1]:
                    ln += " " + lines[i].strip()
                    i += 1
            elif re.search(r"(^|= )invoke ", s):
                ln += " " + lines[i].strip()
                i += 1
            elif re.search(r"= landingpad ", s):
                while i < len(lines) and re.match(r"^\s+(cleanup|catch|filter)\b", lines[i]):
                    ln += " " + lines[i].strip()
                    i += 1
            blocks[cur].append(ln)
        self._blocks = {}
        self._order = order
        for b, lns in blocks.items():
            self._blocks[b] = [self._instr(l) for l in lns]
            self._blocks[b] = [x for x in self._blocks[b] if x is not None]

    # ---- instructions
    def _instr(self, ln):
        mod = self.mod
        dbg = None
        m = re.search(r",? !dbg !(\d+)", ln)
        if m:
            dbg = m.group(1)
        # strip all trailing metadata
        body = re.sub(r",? ![a-zA-Z_.]+ !\d+", "", ln)
        body = re.sub(r", !srcloc !\d+", "", body)
        s = body.strip()
        res = None
        m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = (.*)$', s)
        if m:
            res = m.group(1)
            s = m.group(2)
        tk = Tok(s)
        op = tk.next()
        while op in ("tail", "musttail", "notail"):
            op = tk.next()
        a = None
        if op == "alloca":
            t = mod.parse_type(tk)
            n = None
            if tk.accept(","):
                if tk.peek() != "align":
                    n = mod.typed(tk)
            a = (t, n)
        elif op == "load":
            atomic = tk.accept("atomic")
            tk.accept("volatile")
            t = mod.parse_type(tk)
            tk.expect(",")
            _, p = mod.typed(tk)
            a = (t, p, atomic)
        elif op == "store":
            atomic = tk.accept("atomic")
            tk.accept("volatile")
            t, v = mod.typed(tk)
            tk.expect(",")
            _, p = mod.typed(tk)
            a = (t, v, p, atomic)
        elif op == "getelementptr":
            mod.skip_attrs(tk)
            bt = mod.parse_type(tk)
            args = []
            while tk.accept(","):
                args.append(mod.typed(tk))
            a = (bt, args)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                    "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = set()
            while tk.peek() in ATTR_WORDS:
                fl.add(tk.next())
            t = mod.parse_type(tk)
            x = mod.parse_value(tk, t)
            tk.expect(",")
            y = mod.parse_value(tk, t)
            a = (t, x, y, fl)
        elif op == "fneg":
            mod.skip_attrs(tk)
            a = mod.typed(tk)
        elif op in ("icmp", "fcmp"):
            mod.skip_attrs(tk)
            pred = tk.next()
            t = mod.parse_type(tk)
            x = mod.parse_value(tk, t)
            tk.expect(",")
            y = mod.parse_value(tk, t)
            a = (pred, t, x, y)
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp",
                    "fpext", "fptrunc", "addrspacecast"):
            mod.skip_attrs(tk)
            t, v = mod.typed(tk)
            tk.expect("to")
            t2 = mod.parse_type(tk)
            a = (t, v, t2)
        elif op == "br":
            if tk.peek() == "label":
                tk.next()
                a = (tk.next(),)
            else:
                t, c = mod.typed(tk)
                tk.expect(",")
                tk.expect("label")
                l1 = tk.next()
                tk.expect(",")
                tk.expect("label")
                a = (c, l1, tk.next())
        elif op == "switch":
            t, v = mod.typed(tk)
            tk.expect(",")
            tk.expect("label")
            d = tk.next()
            tk.expect("[")
            cases = []
            while not tk.accept("]"):
                _, c = mod.typed(tk)
                tk.expect(",")
                tk.expect("label")
                cases.append((c, tk.next()))
            a = (t, v, d, cases)
        elif op == "ret":
            t = mod.parse_type(tk)
            a = None if t.k == "void" else (t, mod.parse_value(tk, t))
        elif op == "phi":
            mod.skip_attrs(tk)
            t = mod.parse_type(tk)
            inc = []
            while True:
                tk.expect("[")
                v = mod.parse_value(tk, t)
                tk.expect(",")
                l = tk.next()
                tk.expect("]")
                inc.append((v, l))
                if not tk.accept(","):
                    break
            a = (t, inc)
        elif op == "select":
            mod.skip_attrs(tk)
            _, c = mod.typed(tk)
            tk.expect(",")
            t, x = mod.typed(tk)
            tk.expect(",")
            _, y = mod.typed(tk)
            a = (c, t, x, y)
        elif op in ("call", "invoke"):
            mod.skip_attrs(tk)
            rt = mod.parse_type(tk)
            mod.skip_attrs(tk)
            if tk.peek() == "(":  # explicit function type
                d = 0
                while True:
                    v = tk.next()
                    if v == "(":
                        d += 1
                    elif v == ")":
                        d -= 1
                        if d == 0:
                            break
                tk.accept("*")
            if tk.peek() == "asm":
                a = (rt, ("asm", s), [], None)
            else:
                callee = mod.parse_value(tk, PTR)
                tk.expect("(")
                args = []
                if not tk.accept(")"):
                    while True:
                        t = mod.parse_type(tk)
                        at = mod.skip_attrs(tk)
                        if t.k == "metadata":
                            d = 0
                            while not (d == 0 and tk.peek() in (",", ")")):
                                v = tk.next()
                                if v == "(":
                                    d += 1
                                elif v == ")":
                                    d -= 1
                            args.append((t, ("undef", t), at))
                        else:
                            args.append((t, mod.parse_value(tk, t), at))
                        if tk.accept(")"):
                            break
                        tk.expect(",")
                tgt = None
                if op == "invoke":
                    mod.skip_attrs(tk)
                    while tk.peek() != "to":
                        tk.next()
                    tk.expect("to")
                    tk.expect("label")
                    n1 = tk.next()
                    tk.expect("unwind")
                    tk.expect("label")
                    tgt = (n1, tk.next())
                a = (rt, callee, args, tgt)
            op = "call"
        elif op == "extractvalue":
            t, v = mod.typed(tk)
            idx = []
            while tk.accept(","):
                idx.append(int(tk.next()))
            a = (t, v, idx)
        elif op == "insertvalue":
            t, v = mod.typed(tk)
            tk.expect(",")
            t2, v2 = mod.typed(tk)
            idx = []
            while tk.accept(","):
                idx.append(int(tk.next()))
            a = (t, v, t2, v2, idx)
        elif op == "landingpad":
            t = mod.parse_type(tk)
            cl = False
            clauses = []
            while not tk.eof():
                w = tk.next()
                if w == "cleanup":
                    cl = True
                elif w in ("catch", "filter"):
                    clauses.append((w, mod.typed(tk)))
            a = (t, cl, clauses)
        elif op == "resume":
            a = mod.typed(tk)
        elif op == "unreachable":
            a = None
        elif op == "cmpxchg":
            weak = tk.accept("weak")
            tk.accept("volatile")
            _, p = mod.typed(tk)
            tk.expect(",")
            t, c = mod.typed(tk)
            tk.expect(",")
            _, n = mod.typed(tk)
            a = (t, p, c, n, weak)
        elif op == "atomicrmw":
            tk.accept("volatile")
            rop = tk.next()
            _, p = mod.typed(tk)
            tk.expect(",")
            t, v = mod.typed(tk)
            a = (t, rop, p, v)
        elif op == "fence":
            a = None
        elif op == "freeze":
            a = mod.typed(tk)
        else:
            raise IRError("instruction %r" % ln)
        return Instr(op, res, a, dbg, ln)

    # ---- loops
    def loops(self):
        """back edges {(pred, header)} and header -> set of body blocks"""
        if self._loops is not None:
            return self._loops
        succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t.op == "br":
                succ[b] = [x for x in t.a if isinstance(x, str) and x.startswith("%")]
            elif t.op == "switch":
                succ[b] = [t.a[2]] + [l for _, l in t.a[3]]
            elif t.op == "call" and t.a[3]:
                succ[b] = list(t.a[3])
            else:
                succ[b] = []
        entry = self.order[0]
        back = set()
        color = {}
        st = [(entry, iter(succ[entry]))]
        color[entry] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    back.add((n, s))
            else:
                color[n] = 2
                st.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, set()).add(b)
        body = {}
        for (t, h) in back:
            bs = body.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in bs:
                    continue
                bs.add(x)
                work.extend(pred.get(x, ()))
        self._loops = (back, body)
        return self._loops


def load(path):
    with open(path) as f:
        return Module(f.read())
