"""Reader of the machine support files (machines/): statements, symbol values and macro bodies, from their text."""
import os, re
from .ir import REPO
from .dasm import *

CPU = {"atari2600": "Mne6502", "atari7800": "Mne6502", "channel-f": "MneF8", "68hc11": "Mne68HC11", "68hc908": "Mne68908"}


class Stmt:
    def __init__(self, file, line, label, op, arg):
        self.file, self.line, self.label, self.op, self.arg = file, line, label, op, arg

    @property
    def name(self):
        """Operation without its leading dot or hash and its suffix, in lower case."""
        o = self.op.lower()
        o = o[1:] if o[:1] == "#" else o
        return o[1:] if o[:1] == "." else o.split(".")[0]

    @property
    def where(self):
        return "machines/%s:%d" % (self.file, self.line)


def files():
    base = os.path.join(REPO, "machines")
    out = []
    for d in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, d)):
            for f in sorted(os.listdir(os.path.join(base, d))):
                if f.endswith((".h", ".asm", ".inc")):
                    out.append(d + "/" + f)
    return out


def code(line):
    """The line without its comment."""
    out, q = "", None
    for c in line:
        if q:
            if c == q:
                q = None
        elif c == '"':
            q = c
        elif c == ";":
            break
        out += c
    return out


def read(file):
    """Statements of the file; file is relative to machines/."""
    text = open(os.path.join(REPO, "machines", file), encoding="latin-1").read()
    text = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group().count("\n"), text, flags=re.S)
    out = []
    for n, l in enumerate(text.split("\n"), 1):
        if l.startswith("//"):
            continue
        l = code(l.rstrip("\r")).rstrip()
        if not l.strip():
            continue
        m = re.match(r"([^\s:=]*):?", l)
        label = m.group(1)
        rest = l[m.end():]
        if label.startswith("#"):
            label, rest = "", l
        rest = rest.strip()
        if rest.startswith("="):
            op, arg = "=", rest[1:].strip()
        else:
            p = rest.split(None, 1)
            op, arg = (p + ["", ""])[:2]
            m2 = re.match(r"#\s*$", op)
            if m2 and arg:
                p = arg.split(None, 1)
                op, arg = "#" + p[0], (p + [""])[1]
        if arg.startswith("=") and not label:
            label, op, arg = op, "=", arg[1:].strip()
        out.append(Stmt(file, n, label, op, arg))
    return out


def included(st):
    """Name in an include statement."""
    return st.arg.strip().strip('"')


class Machine:
    """What including the files of one directory in turn defines: symbol values (None: not known), macros."""

    def __init__(self, first, defs=None, known=()):
        self.sym = {k: (v, None) for k, v in (defs or {}).items()}
        self.macros = {}
        self.problems = []           # (kind, statement, text)
        self.multiple = []
        self.done = []
        self.org = {}
        self.seg = None
        self.known = known
        self.cond = []
        for f in first:
            self.file(f)

    def file(self, f, depth=0):
        if depth > 8 or not os.path.exists(os.path.join(REPO, "machines", f)):
            raise AnalysisBroken("machine file %s not found" % f)
        self.done.append(f)
        sts = read(f)
        i, base = 0, len(self.cond)
        while i < len(sts):
            s = sts[i]
            i += 1
            n = s.name
            if n in ("mac", "macro"):
                body, depth_ = [], 1
                while i < len(sts):
                    b = sts[i]
                    i += 1
                    if b.name in ("mac", "macro"):
                        depth_ += 1
                    if b.name == "endm":
                        depth_ -= 1
                        if depth_ == 0:
                            break
                    body.append(b)
                else:
                    self.problems.append(("macro", s, "macro %s is not closed" % s.arg))
                if all(self.cond):
                    self.macros[(s.arg.split() or [""])[0].lower()] = (s, body)
                continue
            if n == "endm":
                self.problems.append(("macro", s, "ENDM outside a macro"))
                continue
            if n in ("if", "ifconst", "ifnconst", "ifdef", "ifndef"):
                if not all(self.cond):
                    self.cond.append(False)
                elif n == "if":
                    v = self.value(s.arg)
                    self.cond.append(bool(v))
                else:
                    v = self.value(s.arg)
                    self.cond.append((v is not None) == (n in ("ifconst", "ifdef")))
                continue
            if n in ("endif", "eif"):
                if len(self.cond) <= base:
                    self.problems.append(("conditional", s, "ENDIF without IF"))
                else:
                    self.cond.pop()
                continue
            if n == "else":
                if len(self.cond) <= base:
                    self.problems.append(("conditional", s, "ELSE without IF"))
                elif all(self.cond[:-1]):
                    self.cond[-1] = not self.cond[-1]
                continue
            if not all(self.cond):
                continue
            if n == "include":
                g = os.path.join(os.path.dirname(f), included(s))
                if not os.path.exists(os.path.join(REPO, "machines", g)):
                    self.problems.append(("include", s, "file %s does not exist" % included(s)))
                else:
                    self.file(g, depth + 1)
                continue
            if n in ("=", "equ", "set"):
                v = self.value(s.arg)
                old = self.sym.get(s.label)
                if n != "set" and old is not None and old[0] is not None and v != old[0]:
                    self.problems.append(("value", s, "%s is defined with different values" % s.label))
                self.sym[s.label] = (v, s)
                if v is None:
                    self.problems.append(("unknown", s, "value of %s is not known" % s.label))
                continue
            if n == "seg":
                self.seg = s.arg.strip()
                self.org.setdefault(self.seg, None)
                continue
            if n == "org":
                self.org[self.seg] = self.value(s.arg.split(",")[0])
                continue
            if n in ("ds", "res", "rmb"):
                a = self.org.get(self.seg)
                if s.label:
                    self.sym[s.label] = (a, s)
                k = self.value(s.arg.split(",")[0] or "1")
                size = {"w": 2, "l": 4}.get(s.op.lower().lstrip(".#").partition(".")[2][:1], 1)
                self.org[self.seg] = None if a is None or k is None else a + k * size
                continue
            if s.label:
                self.sym[s.label] = (self.org.get(self.seg), s)
        if len(self.cond) != base:
            self.problems.append(("conditional", sts[-1], "IF without ENDIF in %s" % f))
            del self.cond[base:]

    def value(self, text):
        """Value of an expression of numbers and symbols, None if a symbol is not known."""
        t = text.strip()
        toks = re.findall(r"\s*(0x[0-9a-fA-F]+|\$[0-9a-fA-F]+|%[01]+|\d+|[A-Za-z_.][\w.]*|<<|>>|[-+*/&|^~()\[\]<>])", t)
        if "".join(toks) != re.sub(r"\s", "", t) or not toks:
            return None
        py = []
        for k in toks:
            if k[0] == "$":
                py.append(str(int(k[1:], 16)))
            elif k[:2].lower() == "0x":
                py.append(str(int(k, 16)))
            elif k[0] == "%" and len(k) > 1:
                py.append(str(int(k[1:], 2)))
            elif k.isdigit():
                py.append(str(int(k, 8 if k[0] == "0" and len(k) > 1 else 10)))
            elif k[0].isalpha() or k[0] in "_.":
                v = self.sym.get(k)
                if v is None or v[0] is None:
                    return None
                py.append(str(v[0]))
            else:
                py.append({"[": "(", "]": ")", "/": "//"}.get(k, k))
        try:
            return eval(" ".join(py), {"__builtins__": {}})
        except Exception:
            return None
