"""Analysis of byte emission: generate and closegenerate on an abstract output file."""
from .data import *
from .fio import Files


class Emit:
    def __init__(self, ck):
        self.ck = ck
        self.files = Files()
        md = dict(BASE_MODELS)
        md.update(self.files.models())
        md["sftos"] = lambda I, s, a, ins: I.mkstr(s, "sftos", "x")
        self.w = ck.world(md)
        self.SFU, self.SFR, self.SFB = K("SF_UNKNOWN", "SF_RORG", "SF_BSS")
        self.fi = self.w.mkptr("outstream")
        self.where = ck.fnline("generate")
        self.UNK = K("SYM_UNKNOWN")

    def state(self, fmt, redo=0, flags=0, fresh=True, org=ORG, maxsize=1 << 60):
        w = self.w
        s = State()
        seg = w.mkptr("cseg")
        w.gset(s, "Csegment", seg)
        for f, v in (("flags", flags), ("rflags", 0), ("org", org), ("rorg", RORG)):
            w.fset(s, seg, "_SEGMENT", f, v)
        w.limit(s, ORG, ((0, 1 << 40),))
        w.limit(s, RORG, ((0, 1 << 40),))
        w.gset(s, "F_format", fmt)
        w.gset(s, "Redo", redo)
        w.gset(s, "Fisclear", 1 if fresh else 0)
        w.gset(s, "FI_temp", self.fi)
        w.gset(s, "maxFileSize", maxsize)
        return s

    def emit(self, s, bs):
        """States after emitting the bytes (terms); aborting ones with kind."""
        w = self.w
        for i, b in enumerate(bs):
            w.gset(s, "Gen", b, i, 1)
        w.gset(s, "Glen", len(bs))
        n0 = len(w.exits)
        out = [(st, "return") for st, rv in w.run(s, "generate", [])]
        return out + [(st, k) for k, st, i in w.exits[n0:]]

    def close(self, s):
        return [(st, "return") for st, rv in self.w.run(s, "closegenerate", [])]

    def seg(self, s, field):
        return self.w.fget(s, self.w.gget(s, "Csegment"), "_SEGMENT", field)

    def setseg(self, s, field, v):
        self.w.fset(s, self.w.gget(s, "Csegment"), "_SEGMENT", field, v)

    def content(self, s):
        return list(self.files.data(s, self.fi))
