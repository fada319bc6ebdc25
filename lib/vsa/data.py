"""Analysis of directive handlers: operands are abstract lists, emission and labels are events."""
from .mnem import *

CH = [sym("ch%d" % i, 8) for i in range(8)]


class Num:
    def __init__(self, cl="1..255", unknown=False):
        self.cl, self.unknown = cl, unknown

    def __repr__(self):
        return "%s%s" % (self.cl, " unresolved" if self.unknown else "")


class Str:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "string of %d" % self.n


class Data:
    """Directive handlers."""

    def __init__(self, ck, models=None, real=(), advance=False):
        self.ck = ck
        self.advance = advance
        md = dict(BASE_MODELS)
        md["eval"] = self.m_eval
        md["programlabel"] = lambda I, s, a, ins: s.ev("label", I.gget(s, "Csegment"), self.pc(I, s))
        md["generate"] = self.m_generate
        md["genfill"] = lambda I, s, a, ins: s.ev("fill", a[0], a[1], a[2])
        md["FreeSymbolList"] = lambda I, s, a, ins: s.ev("free")
        md["findsymbol"] = self.m_findsymbol
        md["setspecial"] = lambda I, s, a, ins: s.ev("special", a[0], a[1])
        md.update(models or {})
        for r in real:
            md.pop(r, None)
        self.w = ck.world(md)
        self.AM = {n: K("AM_" + n) for n in MODES}
        self.SFU, self.SFR, self.SFB, self.SFREF = K("SF_UNKNOWN", "SF_RORG", "SF_BSS", "SF_REF")
        self.UNK, self.STRING, self.MACRO = K("SYM_UNKNOWN", "SYM_STRING", "SYM_MACRO")
        if "Gen" not in ck.m.globals:
            raise AnalysisBroken("output buffer not found")
        self.GEN = ck.m.globals["Gen"].ty.size
        self.ops = {}
        for e in mne_table(ck.m, "Ops"):
            self.ops.setdefault(e.name, e)

    def pc(self, I, s):
        seg = I.gget(s, "Csegment")
        return tuple(I.fget(s, seg, "_SEGMENT", f) for f in ("org", "rorg", "flags", "rflags"))

    def m_findsymbol(self, I, s, a, ins):
        p = s.note.get("found")
        s.ev("find", a[1])
        return p if p is not None else C(0, 64)

    def m_eval(self, I, s, a, ins):
        L = dict(s.note["evals"])
        k = None
        oid, off = I.resolve(s, a[0])
        k = oid if oid in L else "*"
        s.ev("eval", k)
        v = L.get(k)
        if v is None:
            raise AnalysisBroken("evaluation of unexpected text")
        return v

    def m_generate(self, I, s, a, ins):
        n = I.gget(s, "Glen")
        by = None
        if isc(n) and 0 <= sv(n) <= self.GEN:
            by = tuple(I.gget(s, "Gen", i, 1) for i in range(sv(n)))
        s.ev("gen", n, by)
        if self.advance:
            seg = I.gget(s, "Csegment")
            n64 = T.sext(n, 64)
            I.fset(s, seg, "_SEGMENT", "org", T.add(I.fget(s, seg, "_SEGMENT", "org"), n64))
            fl = I.fget(s, seg, "_SEGMENT", "flags")
            if isc(fl) and cv(fl) & self.SFR:
                I.fset(s, seg, "_SEGMENT", "rorg", T.add(I.fget(s, seg, "_SEGMENT", "rorg"), n64))

    def operands(self, s, items, prefix="opnd"):
        """Build an evaluated operand list; returns pointer to its head."""
        w = self.w
        if not items:
            items = [None]
        for k, it in enumerate(items):
            p = w.mkptr("%s%d" % (prefix, k))
            fl = 0
            v = C(0, 64)
            if isinstance(it, Num):
                fl = self.UNK if it.unknown else 0
                if isinstance(it.cl, int):
                    v = C(it.cl, 64)
                elif isinstance(it.cl, T.T):
                    v = it.cl
                else:
                    v = sym("%sv%d" % (prefix, k), 64)
                    lo, hi = (CLASSES[it.cl] if isinstance(it.cl, str) else it.cl)[:2]
                    w.assume_range(s, v, lo, hi)
                w.fset(s, p, "_SYMBOL", "string", 0)
            elif isinstance(it, Str):
                fl = self.STRING
                so = w.mkobj(s, "%sstr%d" % (prefix, k), it.n + 1, "zero")
                oid = so.a[0]
                o = w.getobj(s, oid).mod()
                for j in range(it.n):
                    c = sym("%sc%d_%d" % (prefix, k, j), 8)
                    w.limit(s, c, ((1, 255),))
                    w.put(o, j, c)
                s.mem[oid] = o
                w.fset(s, p, "_SYMBOL", "string", so)
            else:
                w.fset(s, p, "_SYMBOL", "string", 0)
            w.fset(s, p, "_SYMBOL", "flags", fl)
            w.fset(s, p, "_SYMBOL", "addrmode", self.AM["IMP"] if it is None else self.AM["BYTEADR"])
            w.fset(s, p, "_SYMBOL", "value", v)
            w.fset(s, p, "_SYMBOL", "next", 0 if k == len(items) - 1 else w.mkptr("%s%d" % (prefix, k + 1)))
        return w.mkptr(prefix + "0")

    def val(self, k, prefix="opnd"):
        return sym("%sv%d" % (prefix, k), 64)

    def state(self, items=None, mnext=-1, msb=0, segflags=0, rflags=0, strict=0, org=ORG, rorg=RORG):
        w = self.w
        s = State()
        org = C(org, 64) if isinstance(org, int) else org
        rorg = C(rorg, 64) if isinstance(rorg, int) else rorg
        seg = w.mkptr("cseg")
        w.gset(s, "Csegment", seg)
        w.fset(s, seg, "_SEGMENT", "flags", segflags)
        w.fset(s, seg, "_SEGMENT", "rflags", rflags)
        w.fset(s, seg, "_SEGMENT", "org", org)
        w.fset(s, seg, "_SEGMENT", "rorg", rorg)
        w.limit(s, ORG, ((0, 1 << 40),))
        w.limit(s, RORG, ((0, 1 << 40),))
        w.gset(s, "Mnext", mnext if isinstance(mnext, int) else self.AM[mnext])
        w.gset(s, "MsbOrder", msb)
        w.gset(s, "bStrictMode", strict)
        w.gset(s, "bTrace", 0)
        ev = {}
        if items is not None:
            ev["*"] = self.operands(s, items)
        s.note["evals"] = tuple(ev.items())
        return s

    def run(self, s, e, text="operand"):
        """Run the handler of table entry e (or a function name)."""
        w = self.w
        name = e if isinstance(e, str) else e.vect
        mp = w.mkobj(s, "mne", None, "zero")
        w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", e if isinstance(e, str) else e.name))
        redo0 = w.gget(s, "Redo")
        n0 = len(w.exits)
        p = text if not isinstance(text, str) else w.mkstr(s, "text", text)
        out = [Result(self, st, redo0) for st, rv in w.run(s, name, [p, mp])]
        out += [Result(self, st, redo0, kind) for kind, st, ins in w.exits[n0:]]
        return out

    def need(self, name):
        e = self.ops.get(name)
        if e is None:
            return None
        return e


def element(v, size, msb):
    bs = [T.extract(v, 8 * i, 8) for i in range(size)]
    return bs[::-1] if msb else bs
