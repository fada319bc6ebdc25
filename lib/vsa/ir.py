"""Front end: /repo/src -> LLVM IR text -> Python data structures.

Nothing of the analysed program is executed; clang is only used to type-check
and lower it.
"""
import os, re, subprocess, tempfile, shutil

REPO = os.environ.get("VSA_REPO", "/repo")
CLANG = shutil.which("clang-18") or shutil.which("clang") or "/usr/lib/llvm-18/bin/clang"
_B = "/usr/lib/llvm-18/bin/"


def _tool(n):
    for c in (n + "-18", n):
        p = shutil.which(c)
        if p:
            return p
    return _B + n


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unknown construct)."""


def dasm_sources():
    mk = open(os.path.join(REPO, "src/Makefile")).read()
    mk = mk.replace("\\\n", " ")
    m = re.search(r"^OBJS\s*=(.*)$", mk, re.M)
    if not m:
        raise AnalysisBroken("src/Makefile: OBJS not found")
    return [o[:-2] + ".c" for o in m.group(1).split() if o.endswith(".o")]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-2000:]))
    return r.stdout


def build(which="dasm"):
    """Return linked IR text for 'dasm', 'ftohex' or 'ftobin'."""
    src = os.path.join(REPO, "src")
    files = dasm_sources() if which == "dasm" else [which + ".c"]
    d = tempfile.mkdtemp(prefix="vsa")
    try:
        procs = []
        outs = []
        for f in files:
            o = os.path.join(d, f[:-2] + ".ll")
            outs.append(o)
            procs.append((f, subprocess.Popen(
                [CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-w",
                 "-fno-discard-value-names", "-I", src, os.path.join(src, f), "-o", o],
                stderr=subprocess.PIPE, text=True)))
        for f, p in procs:
            _, err = p.communicate()
            if p.returncode != 0:
                raise AnalysisBroken("clang failed on %s:\n%s" % (f, err[-2000:]))
        l = os.path.join(d, "all.ll")
        _run([_tool("llvm-link"), "-S", "-o", l] + outs)
        m = os.path.join(d, "m.ll")
        _run([_tool("opt"), "-S", "-passes=mem2reg", l, "-o", m])
        return open(m).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def constants(names):
    """Values of integer constants / macros of asm.h, evaluated by the compiler front end."""
    d = tempfile.mkdtemp(prefix="vsa")
    try:
        c = os.path.join(d, "k.c")
        with open(c, "w") as f:
            f.write('#include "asm.h"\n')
            for n in names:
                f.write("const long long k_%s = (long long)(%s);\n" % (n, n))
        ll = os.path.join(d, "k.ll")
        _run([CLANG, "-O0", "-S", "-emit-llvm", "-w", "-I", os.path.join(REPO, "src"), c, "-o", ll])
        res = {}
        for m in re.finditer(r"^@k_(\w+) = .*constant i64 (-?\d+)", open(ll).read(), re.M):
            res[m.group(1)] = int(m.group(2))
        for n in names:
            if n not in res:
                raise AnalysisBroken("constant %s not found" % n)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ("k", "n", "e", "size", "align", "offs")

    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e
        self.size = None
        self.offs = None
        self.align = 1

    def __repr__(self):
        return "%s%s" % (self.k, self.n or "")


PTR = Ty("ptr")
PTR.size, PTR.align = 8, 8
VOID = Ty("void")
VOID.size = 0
_ints = {}


def IntTy(n):
    if n not in _ints:
        t = Ty("int", n)
        b = (n + 7) // 8
        t.size = b if b in (1, 2, 4, 8) else 16
        t.align = t.size
        _ints[n] = t
    return _ints[n]


_tok = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<num>-?\d+(?![\w.\-]*\w*:))
|(?P<id>[%@!]?[-a-zA-Z$._0-9]+|[%@]"(?:[^"\\]|\\.)*"|!)
|(?P<p>\.\.\.|[()\[\]{}<>,=*\#|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise AnalysisBroken("cannot tokenize IR: " + s[i:i + 80])
        t = m.group(m.lastgroup)
        out.append(t)
        i = m.end()
    return out


_ATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "returned",
         "signext", "zeroext", "inreg", "immarg", "noreturn", "nounwind", "inbounds", "nuw", "nsw", "exact",
         "dso_local", "tail", "musttail", "notail", "volatile", "disjoint", "nneg", "allocptr", "allocalign", "fastcc", "ccc"}


class Parser:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise AnalysisBroken("IR parse: expected %s at %s" % (x, self.t[self.i:self.i + 6]))

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in _ATTR:
                self.i += 1
            elif p in ("align", "dereferenceable", "dereferenceable_or_null", "allocsize", "memory", "sret", "byval", "range"):
                self.i += 1
                if self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.i += 1
            else:
                break

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif re.fullmatch(r"i\d+", x):
            t = IntTy(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            assert self.next() == "x"
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
            t.size = n * e.size
            t.align = e.align
        elif x == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = mkstruct(fs)
        elif x == "<" and self.peek() == "{":
            self.next()
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            self.expect(">")
            t = mkstruct(fs, True)
        elif x == "<":
            raise AnalysisBroken("vector types not supported")
        elif x.startswith("%"):
            t = self.m.types.get(x)
            if t is None:
                raise AnalysisBroken("unknown type " + x)
        elif x in ("float", "double"):
            t = Ty(x)
            t.size = 4 if x == "float" else 8
            t.align = t.size
        elif x in ("metadata", "label", "opaque", "token"):
            t = Ty(x)
            t.size = 0
        else:
            raise AnalysisBroken("unknown type token " + x)
        # function type
        if self.peek() == "(" and t.k != "metadata":
            d = 0
            j = self.i
            while True:
                if self.t[j] == "(":
                    d += 1
                elif self.t[j] == ")":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            # only in call instructions: "call i32 (ptr, ...) @printf("
            nxt = self.t[j + 1] if j + 1 < len(self.t) else None
            if nxt and (nxt.startswith("@") or nxt.startswith("%")):
                self.i = j + 1
        return t

    def value(self, ty):
        """Return an operand: ('c',w,v) ('l',name) ('g',name) ('null',) ('undef',) ('ce',op,...)."""
        x = self.next()
        if x.startswith("%"):
            return ("l", x)
        if x.startswith("@"):
            return ("g", x[1:].strip('"'))
        if x == "null":
            return ("c", 64, 0)
        if x == "true":
            return ("c", 1, 1)
        if x == "false":
            return ("c", 1, 0)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x == "zeroinitializer":
            return ("zero", ty)
        if re.fullmatch(r"-?\d+", x):
            w = ty.n if ty.k == "int" else 64
            return ("c", w, int(x) & ((1 << w) - 1))
        if x.startswith('c"'):
            return ("bytes", cstr(x[2:-1]))
        if x == "getelementptr":
            self.skip_attrs()
            self.expect("(")
            base = self.type()
            self.expect(",")
            ops = []
            while True:
                t = self.type()
                self.skip_attrs()
                ops.append((t, self.value(t)))
                if self.accept(")"):
                    break
                self.expect(",")
            return ("ce", "gep", base, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            assert self.next() == "to"
            t2 = self.type()
            self.expect(")")
            return ("ce", x, t, v, t2)
        if x in ("add", "sub", "mul", "and", "or", "xor", "shl"):
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("ce", "bin", x, t, a, b)
        if x == "<" and self.peek() == "{":
            self.next()
            els = []
            while True:
                t = self.type()
                els.append((t, self.value(t)))
                if self.accept("}"):
                    break
                self.expect(",")
            self.expect(">")
            return ("agg", ty, els)
        if x == "{" or x == "[":
            close = "}" if x == "{" else "]"
            els = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", ty, els)
        if re.match(r"-?\d", x) or x.startswith("0x"):
            return ("undef", ty)   # floating point literal
        raise AnalysisBroken("IR parse: value %r near %s" % (x, self.t[self.i - 2:self.i + 6]))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("latin-1", "replace")
            i += 1
    return bytes(out)


def mkstruct(fs, packed=False):
    t = Ty("struct", 0, fs)
    o = 0
    al = 1
    offs = []
    for f in fs:
        a = 1 if packed else (f.align or 1)
        o = (o + a - 1) // a * a
        offs.append(o)
        o += f.size
        al = max(al, a)
    t.size = (o + al - 1) // al * al
    t.align = al
    t.offs = offs
    return t


class Inst:
    __slots__ = ("op", "res", "ty", "a", "dbg", "fn", "n", "blk")

    def __init__(self, op, res, ty, a, dbg):
        self.op, self.res, self.ty, self.a, self.dbg = op, res, ty, a, dbg


class Block:
    __slots__ = ("name", "insts", "succ", "phis", "rpo", "livein", "loop")


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ptys = []
        self.rty = VOID
        self.blocks = {}
        self.entry = None
        self.dbg = None
        self.file = None
        self.line = 0
        self.vararg = False


class Glob:
    def __init__(self, name, ty, init, const, ext):
        self.name, self.ty, self.init, self.const, self.ext = name, ty, init, const, ext


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self.parse(text)

    # -- metadata (debug info) -------------------------------------------
    def mdget(self, k):
        v = self.md.get(k)
        if isinstance(v, str):
            v = parse_md(v)
            self.md[k] = v
        return v

    def loc(self, dbg):
        """dbg id -> (file, line)"""
        if dbg is None:
            return ("?", 0)
        d = self.mdget(dbg)
        if not d or d[0] != "DILocation":
            return ("?", 0)
        line = int(d[1].get("line", "0"))
        sc = d[1].get("scope")
        return (self.scope_file(sc), line)

    def scope_file(self, sc):
        for _ in range(50):
            d = self.mdget(sc)
            if not d:
                return "?"
            if "file" in d[1]:
                f = self.mdget(d[1]["file"])
                fn = f[1].get("filename", "?").strip('"')
                return os.path.relpath(fn, REPO) if fn.startswith(REPO + "/") else fn
            sc = d[1].get("scope")
        return "?"

    def struct_fields(self, cname):
        """Field name -> (byte offset, byte size) of C struct `cname`, from debug info."""
        for k in list(self.md):
            v = self.md[k]
            if isinstance(v, str):
                if "DICompositeType" not in v or ('name: "%s"' % cname) not in v:
                    continue
            d = self.mdget(k)
            if d and d[0] == "DICompositeType" and d[1].get("name") == '"%s"' % cname and "elements" in d[1]:
                els = self.mdget(d[1]["elements"])
                res = {}
                for e in els[2]:
                    m = self.mdget(e)
                    if m[0] == "DIDerivedType" and "name" in m[1]:
                        res[m[1]["name"].strip('"')] = (int(m[1].get("offset", "0")) // 8, self.md_size(e))
                return res
        raise AnalysisBroken("struct %s not found in debug info" % cname)

    def md_size(self, e):
        m = self.mdget(e)
        return int(m[1].get("size", "0")) // 8

    # -- parsing -----------------------------------------------------------
    def parse(self, text):
        lines = text.split("\n")
        # types first (may be forward referenced)
        tdefs = {}
        for l in lines:
            m = re.match(r'(%[-\w.$"]+) = type (.*)$', l)
            if m:
                tdefs[m.group(1)] = m.group(2)
        pend = dict(tdefs)
        while pend:
            prog = False
            for k in list(pend):
                b = pend[k]
                if b.strip() == "opaque":
                    t = Ty("opaque")
                    t.size = 8
                    self.types[k] = t
                    del pend[k]
                    prog = True
                    continue
                deps = set(re.findall(r'%[-\w.$]+', b))
                if deps - set(self.types):
                    continue
                self.types[k] = Parser(tokenize(b), self).type()
                del pend[k]
                prog = True
            if not prog:
                raise AnalysisBroken("recursive types " + ",".join(pend))
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("!"):
                m = re.match(r"!(\S+) = (.*)$", l)
                if m:
                    self.md["!" + m.group(1)] = m.group(2)
            elif l.startswith("@"):
                self.parse_global(l)
            elif l.startswith("define"):
                j = i
                while lines[j] != "}":
                    j += 1
                self.parse_func(lines[i:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@([-\w.$"]+)\(', l)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            i += 1
        for f in self.funcs.values():
            analyse_cfg(f)

    def parse_global(self, l):
        m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)$', l)
        name, rest = m.group(1).strip('"'), m.group(2)
        rest = re.sub(r", !dbg !\d+", "", rest)
        rest = re.sub(r", align \d+$", "", rest)
        ext = bool(re.match(r"(external|extern_weak)\b", rest))
        mm = re.search(r"\b(global|constant) ", rest)
        if not mm:
            return
        const = mm.group(1) == "constant"
        toks = tokenize(rest[mm.end():])
        p = Parser(toks, self)
        ty = p.type()
        init = None
        if not ext and p.i < len(toks):
            init = p.value(ty)
        self.globals[name] = Glob(name, ty, init, const, ext)

    def parse_func(self, ls):
        h = ls[0]
        m = re.search(r'@("[^"]+"|[-\w.$]+)\(', h)
        f = Func(m.group(1).strip('"'))
        md = re.search(r"!dbg (!\d+)", h)
        f.dbg = md.group(1) if md else None
        # params
        d = 0
        j = m.end() - 1
        k = j
        while True:
            if h[k] == "(":
                d += 1
            elif h[k] == ")":
                d -= 1
                if d == 0:
                    break
            k += 1
        pt = tokenize(h[j + 1:k])
        p = Parser(pt, self)
        while p.i < len(pt):
            if p.accept("..."):
                f.vararg = True
                break
            t = p.type()
            p.skip_attrs()
            f.params.append(p.next())
            f.ptys.append(t)
            p.accept(",")
        rt = tokenize(h[len("define"):m.start()])
        rt = [x for x in rt if x not in _ATTR and x not in ("internal", "private", "linkonce_odr", "weak", "hidden")]
        f.rty = Parser(rt, self).type()
        cur = None
        seq = 0
        l = ls
        i = 1
        while i < len(ls):
            s = ls[i]
            i += 1
            if not s.strip():
                continue
            mm = re.match(r'^("[^"]+"|[-\w.$]+):', s)
            if mm and not s.startswith(" "):
                cur = Block()
                cur.name = "%" + mm.group(1).strip('"')
                cur.insts = []
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur.name
                continue
            if cur is None:
                cur = Block()
                cur.name = "%entry.0"
                cur.insts = []
                f.blocks[cur.name] = cur
                f.entry = cur.name
            s = s.strip()
            if s.startswith("switch"):
                while not re.search(r"\]", s):
                    s += " " + ls[i].strip()
                    i += 1
            ins = self.parse_inst(s)
            if ins is None:
                continue
            ins.fn = f.name
            ins.n = seq
            ins.blk = cur.name
            seq += 1
            cur.insts.append(ins)
        self.funcs[f.name] = f

    def parse_inst(self, s):
        m = re.search(r", !dbg (!\d+)", s)
        dbg = m.group(1) if m else None
        s = re.sub(r"(, ![-\w.]+ ![\d]+)+$", "", s)
        s = re.sub(r" #\d+$", "", s)
        if "@llvm.dbg." in s:
            return None
        toks = tokenize(s)
        p = Parser(toks, self)
        res = None
        if len(toks) > 1 and toks[1] == "=":
            res = toks[0]
            p.i = 2
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        I = lambda ty, a: Inst(op, res, ty, a, dbg)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return I(t, (a, b))
        if op == "icmp":
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return I(IntTy(1), (pred, t, a, b))
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.next()
            t2 = p.type()
            return I(t2, (t, a))
        if op == "load":
            p.skip_attrs()
            t = p.type()
            p.expect(",")
            pt = p.type()
            return I(t, (p.value(pt),))
        if op == "store":
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            return I(t, (v, p.value(pt)))
        if op == "alloca":
            t = p.type()
            n = None
            if p.accept(","):
                if p.peek() != "align":
                    nt = p.type()
                    n = p.value(nt)
            return I(t, (n,))
        if op == "getelementptr":
            p.skip_attrs()
            base = p.type()
            p.expect(",")
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.accept(","):
                    break
            return I(PTR, (base, ops))
        if op == "br":
            if p.peek() == "label":
                p.next()
                return I(VOID, (None, p.next()))
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.next()
            a = p.next()
            p.expect(",")
            p.next()
            b = p.next()
            return I(VOID, (c, a, b))
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.next()
            d = p.next()
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.next()
                cases.append((cv[2], p.next()))
            return I(t, (v, d, cases))
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return I(t, (None,))
            return I(t, (p.value(t),))
        if op == "phi":
            t = p.type()
            ins = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = p.next()
                p.expect("]")
                ins.append((b, v))
                if not p.accept(","):
                    break
            return I(t, ins)
        if op == "select":
            t = p.type()
            c = p.value(t)
            p.expect(",")
            t1 = p.type()
            a = p.value(t1)
            p.expect(",")
            t2 = p.type()
            b = p.value(t2)
            return I(t1, (c, a, b))
        if op == "unreachable":
            return I(VOID, ())
        if op == "freeze":
            t = p.type()
            return I(t, (p.value(t),))
        if op == "call":
            p.skip_attrs()
            t = p.type()
            p.skip_attrs()
            callee = p.value(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    at = p.type()
                    p.skip_attrs()
                    if at.k == "metadata":
                        return None
                    args.append((at, p.value(at)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            if callee[0] == "g" and callee[1].startswith("llvm.") and callee[1].split(".")[1] in ("lifetime", "dbg", "stacksave", "stackrestore"):
                return None
            return I(t, (callee, args))
        raise AnalysisBroken("unsupported IR instruction: " + s[:120])


def parse_md(s):
    s = s.strip()
    if s.startswith("distinct "):
        s = s[9:]
    if s.startswith("!{"):
        return ("tuple", {}, [x.strip() for x in s[2:-1].split(",") if x.strip()])
    m = re.match(r"!(DI\w+)\((.*)\)$", s)
    if not m:
        return ("other", {}, s)
    d = {}
    for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', m.group(2)):
        d[k] = v.strip()
    return (m.group(1), d)


# ------------------------------------------------------------ CFG analyses

def operands(ins):
    """Local names used by an instruction (phi excluded)."""
    out = []

    def v(o):
        if o is None:
            return
        if o[0] == "l":
            out.append(o[1])
        elif o[0] == "ce":
            for x in o[1:]:
                if isinstance(x, tuple):
                    v(x)
    a = ins.a
    op = ins.op
    if op in ("icmp",):
        v(a[2]); v(a[3])
    elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
        v(a[1])
    elif op == "getelementptr":
        for _, x in a[1]:
            v(x)
    elif op == "br":
        v(a[0])
    elif op == "switch":
        v(a[0])
    elif op == "call":
        v(a[0])
        for _, x in a[1]:
            v(x)
    elif op == "phi":
        pass
    else:
        for x in a:
            if isinstance(x, tuple):
                v(x)
    return out


class Loop:
    __slots__ = ("header", "blocks", "parent", "fn")


def analyse_cfg(f):
    bl = f.blocks
    for b in bl.values():
        if not b.insts:
            raise AnalysisBroken("empty block in " + f.name)
        t = b.insts[-1]
        if t.op == "br":
            b.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
        elif t.op == "switch":
            b.succ = list(dict.fromkeys([t.a[1]] + [x for _, x in t.a[2]]))
        else:
            b.succ = []
        b.phis = [x for x in b.insts if x.op == "phi"]
        b.loop = None
    # RPO
    seen = set()
    post = []
    stack = [(f.entry, iter(bl[f.entry].succ))]
    seen.add(f.entry)
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(bl[s].succ)))
                break
        else:
            post.append(n)
            stack.pop()
    rpo = post[::-1]
    f.rpo = rpo
    idx = {n: i for i, n in enumerate(rpo)}
    for n in list(bl):
        if n not in idx:
            del bl[n]
    for n in rpo:
        bl[n].rpo = idx[n]
    preds = {n: [] for n in rpo}
    for n in rpo:
        for s in bl[n].succ:
            preds[s].append(n)
    f.preds = preds
    # dominators
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in preds[n]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = idom[a]
                            while idx[b] > idx[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new
                ch = True
    f.idom = idom

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    f.dom = dom
    # loops
    loops = {}
    for n in rpo:
        for s in bl[n].succ:
            if idx[s] <= idx[n]:
                if not dom(s, n):
                    raise AnalysisBroken("irreducible control flow in " + f.name)
                L = loops.get(s)
                if L is None:
                    L = Loop()
                    L.header = s
                    L.blocks = {s}
                    L.fn = f.name
                    loops[s] = L
                work = [n]
                while work:
                    x = work.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        work.extend(preds[x])
    f.loops = loops
    hs = sorted(loops.values(), key=lambda L: len(L.blocks))
    for L in hs:
        L.parent = None
        for M in hs:
            if M is not L and L.header in M.blocks and L.blocks < M.blocks:
                L.parent = M
                break
    # innermost loop of a block
    for L in sorted(loops.values(), key=lambda L: -len(L.blocks)):
        for n in L.blocks:
            bl[n].loop = L
    # liveness (block level)
    use = {}
    de = {}
    for n in rpo:
        u, d = set(), set()
        for ins in bl[n].insts:
            for o in operands(ins):
                if o not in d:
                    u.add(o)
            if ins.res:
                d.add(ins.res)
        use[n], de[n] = u, d
    live = {n: set() for n in rpo}
    ch = True
    while ch:
        ch = False
        for n in reversed(rpo):
            out = set()
            for s in bl[n].succ:
                out |= live[s]
                for ph in bl[s].phis:
                    for b, v in ph.a:
                        if b == n and v[0] == "l":
                            out.add(v[1])
            new = use[n] | (out - de[n])
            if new != live[n]:
                live[n] = new
                ch = True
    for n in rpo:
        # phi results are defined at block entry; keep them with live-in
        bl[n].livein = frozenset(live[n])
