"""What the PROCESSOR directive makes available: analysed from the directive's handler."""
from .dasm import *

# documented name -> (ISA in spec/isa.py, high byte first)
NAMES = {"6502": ("6502", 0), "65c02": ("65c02", 0), "65C02": ("65c02", 0), "6803": ("6803", 1), "HD6303": ("hd6303", 1), "hd6303": ("hd6303", 1),
         "68705": ("68705", 1), "68HC11": ("68hc11", 1), "68hc11": ("68hc11", 1), "F8": ("f8", 1), "f8": ("f8", 1), "68908": ("68908", 1),
         "68hc908": ("68908", 1)}


class Proc:
    def __init__(self, ck):
        md = dict(BASE_MODELS)
        md["addhashtable"] = lambda I, s, a, ins: s.ev("table", a[0])
        md["programlabel"] = lambda I, s, a, ins: s.ev("label")
        ck.m.globals
        self.w = ck.world(md, fixed=set(ck.m.globals), undecided_unroll={"*": 64})
        self.ck = ck
        e = [x for x in mne_table(ck.m, "Ops") if x.name == "processor"]
        if not e:
            raise AnalysisBroken("PROCESSOR directive not in the table")
        self.handler = e[0].vect
        self.where = ck.fnline(self.handler)

    def call(self, s, text):
        """[(state, kind)] of one PROCESSOR line."""
        w = self.w
        p = w.mkstr(s, "pname", text) if isinstance(text, str) else text
        n0 = len(w.exits)
        out = [(st, "return") for st, rv in w.run(s, self.handler, [p, C(0, 64)])]
        return out + [(st, k) for k, st, i in w.exits[n0:]]

    def tables(self, st):
        out = []
        for e in flat(st.trace):
            if e[0] == "table":
                t = e[1]
                if t.op != "obj" or not t.a[0].startswith("g:"):
                    raise AnalysisBroken("table argument not a static table")
                out.append(t.a[0][2:])
        return out

    def selected(self, name):
        """Tables made available by the first PROCESSOR line with this name."""
        rs = self.call(State(), name)
        if len(rs) != 1 or rs[0][1] != "return":
            return None, None
        st = rs[0][0]
        return self.tables(st), st
