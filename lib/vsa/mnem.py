"""Analysis of the instruction handler from abstract operand lists.

The handler is entered with an abstract mnemonic (its real flags and mode set, symbolic opcodes of one or two
bytes) and an abstract list of evaluated operands; emission, label definition and expression evaluation are
the boundary of the analysis.
"""
import sys, os
from .dasm import *

OPSIZE = dict(IMP=0, IMM8=1, IMM16=2, BYTEADR=1, BYTEADRX=1, BYTEADRY=1, WORDADR=2, WORDADRX=2, WORDADRY=2, REL=0, BYTEREL=1,
              INDBYTEX=1, INDBYTEY=1, INDWORD=2, INDWORDX=2, INDBYTE=1, BITMOD=1, BITBRAMOD=1, BYTEADR_SP=1, WORDADR_SP=2)
OPSIZE["0X"] = OPSIZE["0Y"] = 0
# written form -> encodings of that form, smallest first
FORMS = {
    "IMP": ["IMP"], "IMM8": ["IMM8", "IMM16"], "BYTEADR": ["BYTEADR", "WORDADR", "REL"],
    "0X": ["0X", "BYTEADRX", "WORDADRX"], "0Y": ["0Y", "BYTEADRY", "WORDADRY"], "BYTEADR_SP": ["BYTEADR_SP", "WORDADR_SP"],
    "INDWORD": ["INDWORD"], "INDBYTEX": ["INDBYTEX"], "INDBYTEY": ["INDBYTEY"], "INDBYTE": ["INDBYTE"], "BYTEREL": ["BYTEREL"],
}
FORCED = ("IMP", "0X", "0Y", "INDWORD", "BYTEADR", "BYTEADRX", "BYTEADRY", "BITMOD", "BITBRAMOD", "WORDADR", "WORDADRX", "WORDADRY", "REL")
M63 = (1 << 63) - 1
# value classes: name -> (lo, hi, needed operand bytes)
CLASSES = {
    "0": (0, 0, 0), "1..255": (1, 255, 1), "256..65535": (256, 65535, 2), ">65535": (65536, M63, 2),
    "-255..-1": (-255, -1, 1), "-65535..-256": (-65535, -256, 1), "<-65535": (-M63 - 1, -65536, 1), "unresolved": (-M63 - 1, M63, 2),
}
VAL = [sym("val%d" % i, 64) for i in range(4)]
ORG, RORG = sym("org", 64), sym("rorg", 64)


DISP = sym("disp", 64)


class Target:
    """Branch target: displacement lo..hi from the address pc+after."""

    def __init__(self, after, lo=-128, hi=127):
        self.after, self.lo, self.hi = after, lo, hi

    def __repr__(self):
        return "target %d..%d" % (self.lo, self.hi)


def combos(m, tables):
    """Distinct mnemonic shapes: (cpu number class, flags, modes with opcode width) -> example entries."""
    c = {}
    for cpu, t in tables:
        for e in mne_table(m, t):
            if e.vect != "v_mnemonic":
                continue
            k = (cpu == 16502, e.flags, tuple((MODES[b], e.modes[b] > 255) for b in sorted(e.modes)))
            c.setdefault(k, []).append("%s.%s" % (t, e.name))
    return c


TABLES = ((6502, "Mne6502"), (16502, "Mne65c02"), (6803, "Mne6803"), (6303, "MneHD6303"), (6811, "Mne68HC11"), (68705, "Mne68705"),
          (68908, "Mne68908"), (0xf8, "MneF8"))


class Mnem:
    def __init__(self, ck, handler="v_mnemonic"):
        self.ck = ck
        self.handler = handler
        md = dict(BASE_MODELS)
        md["eval"] = self.m_eval
        md["programlabel"] = lambda I, s, a, ins: s.ev("label")
        md["generate"] = self.m_generate
        md["FreeSymbolList"] = lambda I, s, a, ins: s.ev("free")
        self.w = ck.world(md)
        if handler not in ck.m.funcs:
            raise AnalysisBroken("%s not found" % handler)
        self.where = ck.fnline(handler)
        self.MASK, self.REL, self.IMOD = K("MF_MASK", "MF_REL", "MF_IMOD")
        self.SFU, self.SFR = K("SF_UNKNOWN", "SF_RORG")
        self.AM = {n: K("AM_" + n) for n in MODES}
        self.gensz = ck.m.globals["Gen"].ty.size if "Gen" in ck.m.globals else None

    def m_eval(self, I, s, a, ins):
        s.ev("eval")
        return s.note["opnd"]

    def m_generate(self, I, s, a, ins):
        n = I.gget(s, "Glen")
        if isc(n) and sv(n) <= 16:
            by = tuple(I.gget(s, "Gen", i, 1) for i in range(sv(n)))
        else:
            by = None
        s.ev("gen", n, by)

    def state(self, shape, operands, mode, mnext=-1, msb=0, cpu=6502, segflags=0, rflags=0, strict=0):
        """operands: list of value-class names."""
        w = self.w
        cmos, flags, modes = shape
        s = State()
        mp = w.mkobj(s, "mne", None, "zero")
        w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", "xxx"))
        w.fset(s, mp, "_MNE", "flags", flags)
        w.fset(s, mp, "_MNE", "okmask", sum(1 << self.AM[n] for n, _ in modes))
        off, sz = w.fld("_MNE", "opcode")
        oid = "H:mne"
        o = w.getobj(s, oid).mod()
        for n, wide in modes:
            v = sym("op_" + n, 32)
            if cmos and n in ("INDBYTEX", "INDBYTE") and any(x == "INDWORDX" for x, _ in modes):
                v = C(0x42, 32)        # marker opcode, never emitted
            else:
                w.limit(s, v, ((0x100, 0xffff),) if wide else ((0, 0x41), (0x43, 0xff)))
            w.put(o, off + 4 * self.AM[n], v)
        s.mem[oid] = o
        seg = w.mkptr("cseg")
        w.gset(s, "Csegment", seg)
        w.fset(s, seg, "_SEGMENT", "flags", segflags)
        w.fset(s, seg, "_SEGMENT", "rflags", rflags)
        w.fset(s, seg, "_SEGMENT", "org", ORG)
        w.fset(s, seg, "_SEGMENT", "rorg", RORG)
        w.limit(s, ORG, ((0, 1 << 40),))
        w.limit(s, RORG, ((0, 1 << 40),))
        w.gset(s, "Mnext", mnext if mnext == -1 else self.AM[mnext])
        w.gset(s, "MsbOrder", msb)
        w.gset(s, "Processor", cpu)
        w.gset(s, "bStrictMode", strict)
        w.gset(s, "bTrace", 0)
        for k, cl in enumerate(operands or [None]):
            p = w.mkptr("opnd%d" % k)
            w.fset(s, p, "_SYMBOL", "addrmode", self.AM[mode] if k == 0 else 0)
            w.fset(s, p, "_SYMBOL", "flags", 1 if cl == "unresolved" else 0)
            if cl is None:
                w.fset(s, p, "_SYMBOL", "value", 0)
            elif isinstance(cl, Target):
                w.assume_range(s, DISP, cl.lo, cl.hi)
                pc = RORG if segflags & self.SFR else ORG
                w.fset(s, p, "_SYMBOL", "value", T.add(T.add(pc, C(cl.after, 64)), DISP))
            else:
                lo, hi, _ = CLASSES[cl] if isinstance(cl, str) else cl
                if lo == hi:
                    w.fset(s, p, "_SYMBOL", "value", C(lo, 64))
                else:
                    w.fset(s, p, "_SYMBOL", "value", VAL[k])
                    w.assume_range(s, VAL[k], lo, hi)
            last = k == max(len(operands), 1) - 1
            w.fset(s, p, "_SYMBOL", "next", 0 if last else w.mkptr("opnd%d" % (k + 1)))
        s.note["opnd"] = w.mkptr("opnd0")
        return s, mp

    def run(self, *a, **kw):
        """Final states as Result objects (returning and aborting)."""
        w = self.w
        s, mp = self.state(*a, **kw)
        redo0 = w.gget(s, "Redo")
        n0 = len(w.exits)
        out = []
        for st, rv in w.run(s, self.handler, [obj("H:mnestr") if "H:mnestr" in s.mem else self.strarg(s), mp]):
            out.append(Result(self, st, redo0))
        for kind, st, ins in w.exits[n0:]:
            out.append(Result(self, st, redo0, kind))
        return out

    def strarg(self, s):
        return self.w.mkptr("operandtext")

    def val(self, k, cl):
        lo, hi, _ = CLASSES[cl] if isinstance(cl, str) else cl
        return C(lo, 64) if lo == hi else VAL[k]


class Result:
    def __init__(self, M, st, redo0, kind="return"):
        self.M, self.st, self.kind = M, st, kind
        ev = flat(st.trace)
        self.errs = [e for e in ev if e[0] in ("err", "panic", "exit")]
        self.gens = [e for e in st.trace if e[0] == "gen"]
        w = M.w
        d = T.sub(w.gget(st, "Redo"), redo0)
        self.redo = not (isc(d) and cv(d) == 0)
        self.redo_sure = isc(d) and 0 < cv(d) < 1000
        # certain to make the assembly fail (events inside loop summaries are not certain)
        self.fails = self.redo_sure or any(fatal_err(M.ck.m, e) for e in st.trace if e[0] in ("err", "panic", "exit"))
        self.labels = sum(1 for e in ev if e[0] == "label")

    @property
    def bytes(self):
        return self.gens[0][2] if len(self.gens) == 1 else None


def choose(shape, mode, needed):
    """Documented mode choice: (mode or None, fits?)"""
    cmos, flags, modes = shape
    have = [n for n, _ in modes]
    fam = [n for n in FORMS[mode] if n in have]
    if cmos and "INDWORDX" in have and mode in ("INDBYTE", "INDBYTEX"):
        fam = ["INDWORD" if mode == "INDBYTE" else "INDWORDX"]
    if not fam:
        return None, False
    for n in fam:
        if OPSIZE[n] >= needed or n == "REL":
            return n, True
    return fam[-1], False


def force(mode, req):
    """Requested mode adapted to the written index register."""
    if mode in ("INDBYTEX", "INDBYTEY"):
        return None
    if mode == "BYTEADR_SP":
        return "WORDADR_SP" if req == "WORDADR" else "BYTEADR_SP"
    if mode == "0X":
        return {"WORDADR": "WORDADRX", "WORDADRX": "WORDADRX", "BYTEADR": "BYTEADRX", "BYTEADRX": "BYTEADRX"}.get(req, "0X")
    if mode == "0Y":
        return {"WORDADR": "WORDADRY", "WORDADRY": "WORDADRY", "BYTEADR": "BYTEADRY", "BYTEADRY": "BYTEADRY"}.get(req, "0Y")
    return req


def opbytes(shape, mode):
    """Opcode bytes of a mode."""
    wide = dict(shape[2])[mode]
    o = sym("op_" + mode, 32)
    return [T.extract(o, 8, 8), T.extract(o, 0, 8)] if wide else [T.extract(o, 0, 8)]


def operand_bytes(mode, v, msb):
    n = OPSIZE[mode]
    lo, hi = T.extract(v, 0, 8), T.extract(v, 8, 8)
    return [] if n == 0 else [lo] if n == 1 else ([hi, lo] if msb else [lo, hi])


def same_bytes(w, st, got, want):
    return got is not None and len(got) == len(want) and all(same(w, st, g, x) for g, x in zip(got, want))


def showb(bs):
    return "(" + " | ".join(str(b) for b in bs) + ")" if bs is not None else "not determined"
