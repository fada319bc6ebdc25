"""Analysis of the F8 instruction handlers from operand texts whose expressions are abstract values."""
from .mnem import *

BYTE = dict(ai=0x24, ci=0x25, li=0x20, ni=0x21, oi=0x22, out=0x27, xi=0x23)
BYTE["in"] = 0x26
WORD = dict(dci=0x2a, jmp=0x29, pi=0x28)
SREG = dict(asd=0xd0, ds=0x30, ns=0xf0, xs=0xe0)
SREG["as"] = 0xc0
BRANCHES = dict(bc=0x82, bm=0x91, bnc=0x92, bno=0x98, bnz=0x94, bp=0x81, br=0x90, br7=0x8f, bz=0x84)
COND = dict(bf=(0x90, 15), bt=(0x80, 7))
NIB = dict(ins=(0xa0, 15), outs=(0xb0, 15), lis=(0x70, 15), lisl=(0x68, 7), lisu=(0x60, 7))
SHIFT = dict(sl={1: 0x13, 4: 0x15}, sr={1: 0x12, 4: 0x14})
IMPLIED = dict(adc=0x8e, am=0x88, amd=0x89, clr=0x70, cm=0x8d, com=0x18, di=0x1a, ei=0x1b, inc=0x1f, lm=0x16, lnk=0x19, nm=0x8a,
               nop=0x2b, om=0x8b, pk=0x0c, pop=0x1c, st=0x17, xdc=0x2c, xm=0x8c)
# scratchpad registers by name
SNAMES = {"s": 12, "(is)": 12, "i": 13, "(is)+": 13, "d": 14, "(is)-": 14, "j": 9, "hu": 10, "hl": 11}
SPECIAL = {"a": "a", "dc0": "dc", "dc": "dc", "h": "h", "is": "is", "k": "k", "ku": "ku", "kl": "kl", "pc0": "p0", "p0": "p0",
           "pc1": "p", "p": "p", "q": "q", "qu": "qu", "ql": "ql", "w": "w"}
LR = {("a", "ku"): 0x00, ("a", "kl"): 0x01, ("a", "qu"): 0x02, ("a", "ql"): 0x03, ("ku", "a"): 0x04, ("kl", "a"): 0x05,
      ("qu", "a"): 0x06, ("ql", "a"): 0x07, ("k", "p"): 0x08, ("p", "k"): 0x09, ("a", "is"): 0x0a, ("is", "a"): 0x0b,
      ("p0", "q"): 0x0d, ("q", "dc"): 0x0e, ("dc", "q"): 0x0f, ("dc", "h"): 0x10, ("h", "dc"): 0x11, ("w", 9): 0x1d, (9, "w"): 0x1e}


def lr(dst, src):
    """Opcode of LR dst,src or None (dst, src: special name or scratchpad number)."""
    if (dst, src) in LR:
        return LR[(dst, src)]
    if dst == "a" and isinstance(src, int) and src < 15:
        return 0x40 | src
    if src == "a" and isinstance(dst, int) and dst < 15:
        return 0x50 | dst
    return None


class F8(Mnem):
    def __init__(self, ck):
        super().__init__(ck, "v_mnemonic")
        self.table = {}
        for e in mne_table(ck.m, "MneF8"):
            self.table.setdefault(e.name, e)

    def m_eval(self, I, s, a, ins):
        txt = cstring(I, s, a[0]).strip()
        s.ev("eval", txt)
        p = dict(s.note["ops"]).get(txt)
        if p is None:
            s.ev("err", C(K("ERROR_SYNTAX_ERROR"), 32), True)
            I.exits.append(("abort", s, ins))
            return "stop"
        return p

    def go(self, name, text, ops, segflags=0, rflags=0):
        """ops: expression text -> value class / (lo,hi,n) / int / Target."""
        w = self.w
        e = self.table.get(name)
        if e is None:
            return None
        s, mp = self.state((False, 0, ()), [], "BYTEADR", cpu=0xf8, msb=1, segflags=segflags, rflags=rflags)
        off, sz = w.fld("_MNE", "opcode")
        oid = "H:mne"
        o = w.getobj(s, oid).mod()
        for b, v in e.modes.items():
            w.put(o, off + 4 * b, C(v, 32))
        s.mem[oid] = o
        w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", name))
        d = {}
        for k, (t, cl) in enumerate(ops.items()):
            p = w.mkptr("f8op%d" % k)
            d[t] = p
            w.fset(s, p, "_SYMBOL", "next", 0)
            w.fset(s, p, "_SYMBOL", "addrmode", self.AM["BYTEADR"])
            w.fset(s, p, "_SYMBOL", "flags", 1 if cl == "unresolved" else 0)
            if isinstance(cl, int):
                v = C(cl, 64)
            elif isinstance(cl, Target):
                w.assume_range(s, DISP, cl.lo, cl.hi)
                v = T.add(T.add(RORG if segflags & self.SFR else ORG, C(cl.after, 64)), DISP)
            else:
                lo, hi, _ = CLASSES[cl] if isinstance(cl, str) else cl
                v = VAL[k]
                w.assume_range(s, v, lo, hi)
            w.fset(s, p, "_SYMBOL", "value", v)
        s.note["ops"] = tuple(d.items())
        redo0 = w.gget(s, "Redo")
        n0 = len(w.exits)
        out = []
        for st, rv in w.run(s, e.vect, [w.mkstr(s, "f8text", text), mp]):
            out.append(Result(self, st, redo0))
        for kind, st, ins in w.exits[n0:]:
            out.append(Result(self, st, redo0, kind))
        return out
