"""The main program on scripted source lines: reading, dispatch, end of file, pass decisions, options.

The environment (source lines, what the line's handler does, file opening) is given per scenario; the
program's own control flow, tables and globals are analysed as they are."""
from .dasm import *


class Line:
    """One source line: label, mnemonic (None: none on the line), flags of the table entry (None: unknown word)
    and the effect of its handler."""

    def __init__(self, label="", word="", flags=None, effect=None, name="", text=""):
        self.label, self.word, self.flags, self.effect, self.name, self.text = label, word, flags, effect, name, text


class Run:
    def __init__(self, st, kind, code, trace):
        self.st, self.kind, self.code, self.trace = st, kind, code, trace


class Main:
    def __init__(self, ck, real=(), models=None):
        self.ck = ck
        ev = lambda n, *ix: (lambda I, s, a, ins: s.ev(n, *[a[i] for i in ix]))
        md = {
            "addhashtable": ev("table", 0), "panic": m_panic, "permalloc": m_zalloc, "zmalloc": m_zalloc, "ckmalloc": m_alloc,
            "fopen": self.m_fopen, "fclose": self.m_fclose, "fgets": self.m_fgets, "cleanup": self.m_cleanup, "parse": self.m_parse,
            "*indirect": self.m_handler, "programlabel": ev("label"), "outlistfile": ev("list"), "closegenerate": ev("closegen"),
            "ShowSegments": ev("showsegs"), "ShowSymbols": ev("showsyms"), "ShowUnresolvedSymbols": ev("showunres"),
            "DumpSymbolTable": ev("dump"), "passbuffer_clear": ev("clear", 0), "passbuffer_update": self.m_update,
            "passbuffer_output": ev("output", 0), "passbuffer_cleanup": ev("pbfree"), "clearrefs": ev("clearrefs"), "clearsegs": ev("clearsegs"),
            "unlink": lambda I, s, a, ins: (s.ev("unlink", a[0]), C(0, 32))[1], "remove": lambda I, s, a, ins: (s.ev("unlink", a[0]), C(0, 32))[1],
            "v_set": ev("set", 0), "v_eqm": ev("eqm", 0), "v_incdir": ev("incdir", 0), "free": ev("free", 0),
            "fseek": lambda I, s, a, ins: (s.ev("seek", a[0], a[1], a[2]), C(0, 32))[1],
            "fprintf": self.m_fprintf, "fputs": lambda I, s, a, ins: s.ev("write", a[1]), "fputc": lambda I, s, a, ins: s.ev("write", a[1]),
            "putc": lambda I, s, a, ins: s.ev("write", a[1]), "fwrite": lambda I, s, a, ins: (s.ev("write", a[3]), a[2])[1],
            "ferror": lambda I, s, a, ins: C(1 if self.sname(s, a[0]) in self.badwrite else 0, 32),
            "getenv": lambda I, s, a, ins: C(0, 64),
        }
        for r in real:
            md.pop(r, None)
        md.update(models or {})
        self.w = ck.world(md, fixed=set(ck.m.globals), unroll=5000)
        self.opens = {}
        self.badwrite, self.badclose = (), ()
        self.script = []

    # -- models
    def m_fopen(self, I, s, a, ins):
        from .interp import cstring as cs
        n = cs(I, s, a[0])
        mode = cs(I, s, a[1])
        n = n.decode() if n is not None else "?"
        k = s.note.get("nopen", 0) + 1
        s.note["nopen"] = k
        out = []
        for ok in self.opens.get(n, (True,)):
            s2 = s.copy()
            if ok:
                p = I.mkptr("stream%d" % k)
                s2.ev("fopen", n, mode.decode() if mode else "?", p)
                out.append((s2, p))
            else:
                s2.ev("fopenfail", n)
                out.append((s2, C(0, 64)))
        return out

    def m_fclose(self, I, s, a, ins):
        s.ev("fclose", a[0])
        return C(-1 if self.sname(s, a[0]) in self.badclose else 0, 32)

    def sname(self, s, p):
        """Name of the file last opened as stream p."""
        for e in reversed(s.trace):
            if e[0] == "fopen" and e[3] is p:
                return e[1]
        return None

    def m_fprintf(self, I, s, a, ins):
        s.ev("write", a[0])
        return C(1, 32)

    def m_fgets(self, I, s, a, ins):
        k = s.note.get("ln", 0)
        s.note["ln"] = k + 1
        s.ev("read", k, a[2])
        I.store(s, a[0], C(0, 8))
        return a[0] if k < len(self.script) and self.script[k] is not None else C(0, 64)

    def cur(self, s):
        """The line just parsed: from the script, or the macro line named by the text '@n'."""
        return self.script[s.note["line"]]

    def m_cleanup(self, I, s, a, ins):
        s.ev("clean")
        return I.mkstr(s, "comment", "c")

    def m_parse(self, I, s, a, ins):
        from .interp import cstring as cs
        t = cs(I, s, a[0])
        k = s.note["ln"] - 1
        if t and t[:1] == b"@":
            k = int(t[1:].strip())
            s.ev("macroline", k)
        s.note["line"] = k
        L = self.cur(s)
        s.ev("parse")
        for i, t in enumerate((L.label, L.word, L.text)):
            I.gset(s, "Av", I.mkstr(s, "av%d_%d" % (i, k), t), 8 * i, 8)
        if L.word and L.flags is not None:
            p = I.mkobj(s, "mne%d" % k, None, "zero")
            I.fset(s, p, "_MNE", "flags", L.flags)
            I.fset(s, p, "_MNE", "vect", I.mkptr("handler%d" % k))
            I.fset(s, p, "_MNE", "name", I.mkstr(s, "mname%d" % k, L.word))
            return p
        return C(0, 64)

    def m_handler(self, I, s, a, ins):
        s.ev("handler", s.note["line"], a[1] if len(a) > 1 else None)
        L = self.cur(s)
        if L.effect:
            return L.effect(I, s)

    def m_update(self, I, s, a, ins):
        from .interp import cstring as cs
        t = cs(I, s, a[1])
        s.ev("update", a[0], t)

    # -- driving
    def argv(self, s, args):
        w = self.w
        p = w.mkobj(s, "argv", None, "zero")
        o = w.getobj(s, "H:argv").mod()
        ptrs = []
        for i, t in enumerate(args):
            if isinstance(t, str):
                q = w.mkobj(s, "arg%d" % i, len(t) + 1, "zero")
                oo = w.getobj(s, q.a[0]).mod()
                for j, c in enumerate(t.encode()):
                    w.put(oo, j, C(c, 8))
                s.mem[q.a[0]] = oo
            else:
                q = t
            w.put(o, 8 * i, q)
        s.mem["H:argv"] = o
        return p

    def go(self, script, args=(), entry="main", setup=None, opens=None):
        """[(state, 'return'|'exit'|'panic', code)]"""
        w = self.w
        self.script = list(script)
        self.opens = opens or {}
        s = State()
        av = self.argv(s, ["dasm", "src"] + list(args))
        if setup:
            setup(s)
        n0 = len(w.exits)
        a = [C(2 + len(args), 32), av]
        if entry != "main":
            a.append(w.mkobj(s, "sortmode", 4, "zero"))
        out = [(st, "return", rv) for st, rv in w.run(s, entry, a)]
        for kind, st, ins in w.exits[n0:]:
            code = C(1, 32)
            for e in reversed(st.trace):
                if e[0] == "exit":
                    code = e[1]
                    break
            out.append((st, kind, code))
        return out


def effect(**g):
    """Handler effect: assign globals (int, or callable(I, s) -> term)."""
    def f(I, s):
        for k, v in g.items():
            I.gset(s, k, v(I, s) if callable(v) else v)
    return f


def report(e, abort=False, **g):
    """Handler effect: an error report through the program's own reporting function, then assignments."""
    def f(I, s):
        out = []
        for st, rv in I.call(s, "asmerr", [C(e, 32), C(1 if abort else 0, 1), I.mkstr(s, "etext", "text")]):
            effect(**g)(I, st)
            out.append((st, None))
        return out
    return f


def bypass(*effects):
    """Handler effect that differs from pass to pass (the last one from then on)."""
    def f(I, s):
        k = sv(I.gget(s, "pass")) - 1
        e = effects[min(k, len(effects) - 1)]
        return e(I, s) if e else None
    return f
