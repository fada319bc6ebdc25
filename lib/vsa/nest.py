"""Nesting of conditionals, repeats, macros and include files.

The directive handlers are entered with lists of include frames, conditionals and loops of bounded length; released
blocks are events, and every access to a released block is recorded."""
from .data import *


class Nest:
    def __init__(self, ck, models=None, real=(), watch=True):
        self.ck = ck
        md = dict(BASE_MODELS)
        md["eval"] = self.m_eval
        md["programlabel"] = lambda I, s, a, ins: s.ev("label")
        md["FreeSymbolList"] = lambda I, s, a, ins: s.ev("freelist", a[0])
        md["free"] = self.m_free
        md["fseek"] = lambda I, s, a, ins: (s.ev("seek", a[0], a[1], a[2]), C(0, 32))[1]
        md["ftell"] = lambda I, s, a, ins: sym("filepos", 64)
        md["rewind"] = lambda I, s, a, ins: s.ev("seek", a[0], C(0, 64), C(0, 32))
        md["outlistfile"] = lambda I, s, a, ins: s.ev("list")
        md["generate"] = lambda I, s, a, ins: s.ev("gen")
        md["fclose"] = lambda I, s, a, ins: (s.ev("fclose", a[0]), C(0, 32))[1]
        md.update(models or {})
        for r in real:
            md.pop(r, None)
        self.w = ck.world(md, fixed=set(ck.m.globals), unroll=3000)
        if watch:
            self.w.on_load = lambda s, oid, off, n, inst: self.touch(s, oid, inst)
            self.w.on_store = lambda s, oid, off, v, inst: self.touch(s, oid, inst)
        self.UNK = K("SYM_UNKNOWN")
        self.IFB, self.INFM, self.MFIF = K("IFF_BASE", "INF_MACRO", "MF_IF")
        self.ops = {}
        for e in mne_table(ck.m, "Ops"):
            self.ops.setdefault(e.name, e)

    def touch(self, s, oid, inst):
        if inst is not None and oid in s.note.get("freed", ()):
            s.ev("afterfree", oid, self.w.where(inst))

    def m_free(self, I, s, a, ins):
        oid, off = I.resolve(s, a[0])
        s.ev("free", a[0])
        if oid is None:
            return
        fr = s.note.get("freed", ())
        if oid in fr:
            s.ev("doublefree", oid, I.where(ins))
        s.note["freed"] = fr + (oid,)

    def m_eval(self, I, s, a, ins):
        s.ev("eval")
        p = s.note.get("opnd")
        if p is None:
            raise AnalysisBroken("evaluation of unexpected text")
        return p

    def state(self, frames="f", ifs=(), reps=(), value=None, unknown=False, local=7, dollar=9, strict=0):
        """frames: 'f' file, 'm' macro, outermost first; ifs: [(frame, xtrue, acctrue)]; reps: [(frame, count, unknown)];
        value: operand of the directive (term or int)."""
        w = self.w
        s = State()
        self.frames, self.ifp, self.rp = [], [], []
        prev = C(0, 64)
        for i, k in enumerate(frames):
            p = w.mkobj(s, "frame%d" % i, None, "zero")
            w.fset(s, p, "_INCFILE", "next", prev)
            w.fset(s, p, "_INCFILE", "name", w.mkstr(s, "fname%d" % i, "name%d" % i))
            w.fset(s, p, "_INCFILE", "fi", w.mkptr("stream%d" % len([x for x in frames[:i + 1] if x == "f"])))
            w.fset(s, p, "_INCFILE", "lineno", 100 + i)
            w.fset(s, p, "_INCFILE", "flags", self.INFM if k == "m" else 0)
            if k == "m":
                w.fset(s, p, "_INCFILE", "saveidx", 1000 + i)
                w.fset(s, p, "_INCFILE", "savedolidx", 2000 + i)
                a2 = w.mkobj(s, "arg%d_1" % i, None, "zero")
                a1 = w.mkobj(s, "arg%d_0" % i, None, "zero")
                w.fset(s, a1, "_STRLIST", "next", a2)
                w.fset(s, a2, "_STRLIST", "next", 0)
                w.fset(s, p, "_INCFILE", "args", a1)
                w.fset(s, p, "_INCFILE", "strlist", w.mkptr("body%d" % i))
            self.frames.append(p)
            prev = p
        w.gset(s, "pIncfile", prev)
        w.gset(s, "Inclevel", len(frames) - frames.count("m"))
        w.gset(s, "Mlevel", frames.count("m"))
        p = w.mkobj(s, "ifbase", None, "zero")
        w.fset(s, p, "_IFSTACK", "flags", self.IFB)
        w.fset(s, p, "_IFSTACK", "xtrue", 1)
        w.fset(s, p, "_IFSTACK", "acctrue", 1)
        self.ifp.append(p)
        for i, (fr, x, a) in enumerate(ifs):
            q = w.mkobj(s, "if%d" % i, None, "zero")
            w.fset(s, q, "_IFSTACK", "next", p)
            w.fset(s, q, "_IFSTACK", "file", self.frames[fr])
            w.fset(s, q, "_IFSTACK", "flags", 0)
            w.fset(s, q, "_IFSTACK", "xtrue", x)
            w.fset(s, q, "_IFSTACK", "acctrue", a)
            self.ifp.append(q)
            p = q
        w.gset(s, "Ifstack", p)
        p = C(0, 64)
        for i, (fr, n, unk) in enumerate(reps):
            q = w.mkobj(s, "rep%d" % i, None, "zero")
            w.fset(s, q, "_REPLOOP", "next", p)
            w.fset(s, q, "_REPLOOP", "file", self.frames[fr])
            w.fset(s, q, "_REPLOOP", "count", n)
            w.fset(s, q, "_REPLOOP", "seek", sym("seek%d" % i, 64))
            w.fset(s, q, "_REPLOOP", "lineno", 50 + i)
            w.fset(s, q, "_REPLOOP", "flags", 1 if unk else 0)
            self.rp.append(q)
            p = q
        w.gset(s, "Reploop", p)
        w.gset(s, "Localindex", local)
        w.gset(s, "Localdollarindex", dollar)
        w.gset(s, "Lastlocalindex", 40)
        w.gset(s, "Lastlocaldollarindex", 50)
        w.gset(s, "Redo", 0)
        w.gset(s, "bStrictMode", strict)
        w.gset(s, "pass", 3)
        if value is not None:
            self.operand(s, value, unknown)
        return s

    def operand(self, s, value, unknown=False, string=False):
        w = self.w
        p = w.mkobj(s, "opnd", None, "zero")
        w.fset(s, p, "_SYMBOL", "value", value)
        fl = (self.UNK if unknown else 0) | (K("SYM_STRING") if string else 0)
        w.fset(s, p, "_SYMBOL", "flags", fl)
        if string:
            w.fset(s, p, "_SYMBOL", "string", w.mkstr(s, "opstr", string if isinstance(string, str) else "abc"))
        s.note["opnd"] = p

    def run(self, s, name, text="text", fn=None):
        """[(state, kind)] of the directive's handler."""
        w = self.w
        if fn is None:
            e = self.ops.get(name)
            if e is None:
                raise AnalysisBroken("directive %s not in the table" % name)
            fn = e.vect
        mp = w.mkobj(s, "mne", None, "zero")
        w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", name))
        n0 = len(w.exits)
        s.trace = ()
        p = w.mkstr(s, "text", text) if isinstance(text, str) else text
        out = [(st, "return") for st, rv in w.run(s, fn, [p, mp])]
        return out + [(st, k) for k, st, i in w.exits[n0:]]

    def where(self, name):
        e = self.ops.get(name)
        return self.ck.fnline(e.vect) if e else "?"

    # -- observations
    def top(self, st):
        return self.w.gget(st, "Ifstack")

    def active(self, st):
        """Is the current line assembled?  True/False/None"""
        w = self.w
        t = self.top(st)
        r = True
        for f in ("xtrue", "acctrue"):
            v = w.truth(st, T.eq(w.fget(st, t, "_IFSTACK", f), C(0, 8)))
            if v is None:
                return None
            if v:
                r = False
        return r

    def events(self, st, *kinds):
        return [e for e in flat(st.trace) if not kinds or e[0] in kinds]

    def changed(self, s0, st, ignore=()):
        """Objects that existed before and differ now (by contents)."""
        out = []
        for oid, o in st.mem.items():
            if oid in ignore or oid.startswith("A:"):
                continue
            o0 = s0.mem.get(oid)
            if o0 is None:
                if oid.startswith("g:"):
                    o0 = self.w.baseobj(oid)
                else:
                    continue
            if o0 is o or o0.key() == o.key():
                continue
            for k, v in o.cells.items():
                n = v.w // 8
                old = self.w.load(s0.copy(), T.add(obj(oid), C(k, 64)), n)
                if not same(self.w, st, self.w.subst(st, v), self.w.subst(st, old)):
                    out.append(oid)
                    break
            else:
                if o.log != o0.log:
                    out.append(oid)
        return out
