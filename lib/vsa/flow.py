"""Path-insensitive data flow over the control flow graphs, with function summaries."""
from .dasm import *


def fn_params(f):
    return [p[1] if isinstance(p, tuple) else p for p in f.params]


class Flow:
    """Which diagnostics may reach the end of a line's processing without making the assembly fail?

    Per program point: the set of pending report sites (reported, neither fatal nor followed by a request
    for another pass) and whether another pass has certainly been requested since the function was entered.
    A call adds what its callee leaves pending."""

    def __init__(self, ck, request=("Redo",)):
        self.ck, self.m = ck, ck.m
        self.request = request
        self.d = errdefs(self.m)
        self.sum = {}
        self.reports = {}      # site -> (function, error set or None, abort set or None)
        self.solve()

    # -- values of an operand: set of integer constants, 'param i', or None
    def values(self, f, v, seen=()):
        if v[0] == "c":
            return {v[2]}
        if v[0] == "l":
            ps = fn_params(f)
            if v[1] in ps:
                return {("param", ps.index(v[1]))}
            ins = self.defs(f).get(v[1])
            if ins is None or v[1] in seen:
                return set() if v[1] in seen else None
            seen = seen + (v[1],)
            if ins.op == "phi":
                out = set()
                for _, x in ins.a:
                    r = self.values(f, x, seen)
                    if r is None:
                        return None
                    out |= r
                return out
            if ins.op == "select":
                out = set()
                for x in ins.a[1:]:
                    r = self.values(f, x, seen)
                    if r is None:
                        return None
                    out |= r
                return out
            if ins.op in ("zext", "sext", "trunc"):
                return self.values(f, ins.a[1], seen)
            if ins.op == "icmp":
                if ins.a[0] == "ne" and ins.a[3][0] == "c" and ins.a[3][2] == 0:
                    return self.values(f, ins.a[2], seen)
        return None

    def defs(self, f):
        if not hasattr(f, "_defs"):
            f._defs = {i.res: i for b in f.blocks.values() for i in b.insts if i.res}
        return f._defs

    def isrequest(self, f, ins):
        """A counter of reasons for another pass is increased."""
        if ins.op != "store" or ins.a[1][0] != "g" or ins.a[1][1] not in self.request:
            return False
        v = ins.a[0]
        if v[0] == "c":
            return v[2] != 0
        d = self.defs(f).get(v[1]) if v[0] == "l" else None
        return d is not None and d.op == "add" and any(isinstance(x, tuple) and x[0] == "c" and 0 < x[2] < 1 << 31 for x in d.a)

    def report(self, f, ins):
        """(error values, abort values) if the call reports an error."""
        if ins.op != "call" or ins.a[0][0] != "g":
            return None
        n = ins.a[0][1]
        if n == "asmerr":
            idx = (0, 1)
        elif n in self.wrap:
            idx = self.wrap[n]
        else:
            return None
        out = []
        for k in idx:
            if isinstance(k, int):
                out.append(self.values(f, ins.a[1][k][1]))
            else:
                out.append(k[1])
        return out

    def solve(self):
        m = self.m
        self.wrap = {}
        # functions that pass their own parameters on as error number or abort flag
        for _ in range(4):
            for f in m.funcs.values():
                if f.name == "asmerr":
                    continue
                for b in f.blocks.values():
                    for ins in b.insts:
                        r = self.report(f, ins)
                        if r is None:
                            continue
                        idx = []
                        hit = False
                        for v in r:
                            p = [x for x in (v or ()) if isinstance(x, tuple)]
                            if len(p) == 1 and len(v) == 1:
                                idx.append(p[0][1])
                                hit = True
                            else:
                                idx.append(("set", v))
                        if hit:
                            self.wrap[f.name] = tuple(idx)
        self.sum = {n: (frozenset(), False) for n in m.funcs}
        for _ in range(30):
            new = {n: self.function(f) for n, f in m.funcs.items()}
            # pending sets grow, certain requests are recomputed from the greatest assumption down
            if new == self.sum:
                break
            self.sum = new
        else:
            raise AnalysisBroken("summaries do not settle")

    def function(self, f):
        """(pending sites at return, another pass certainly requested)"""
        if f.name in ("asmerr", "panic", "exit"):
            return (frozenset(), False)
        IN = {f.entry: (frozenset(), False)}
        work = [f.entry]
        ret = None
        outs = {}
        while work:
            bn = work.pop(0)
            st = IN[bn]
            r = self.block(f, f.blocks[bn], st)
            if r is None:                # does not continue
                continue
            st, term = r
            if term.op == "ret":
                outs[bn] = st
                continue
            for nx in f.blocks[bn].succ:
                old = IN.get(nx)
                j = st if old is None else (old[0] | st[0], old[1] and st[1])
                if j != old:
                    IN[nx] = j
                    if nx not in work:
                        work.append(nx)
        if not outs:
            return (frozenset(), True)
        p = frozenset().union(*[o[0] for o in outs.values()])
        return (p, all(o[1] for o in outs.values()))

    def block(self, f, b, st):
        pend, req = st
        for ins in b.insts:
            if self.isrequest(f, ins):
                pend, req = frozenset(), True
            elif ins.op == "call" and ins.a[0][0] == "g":
                n = ins.a[0][1]
                r = self.report(f, ins)
                if r is not None and not (f.name in self.wrap and any(isinstance(x, tuple) for v in r for x in (v or ()))):
                    ev, av = r
                    self.reports[(f.name, id(ins))] = (f, ins, ev, av)
                    if av is not None and av and 0 not in av:
                        return None
                    fatal = ev is not None and all(isinstance(e, int) and 0 <= e < len(self.d) and self.d[e][1] for e in ev)
                    if not fatal and not req:
                        pend = pend | {(f.name, id(ins))}
                elif n in ("exit", "panic", "abort"):
                    return None
                elif n in self.sum:
                    p, q = self.sum[n]
                    if not req:
                        pend = pend | p
                    if q:
                        pend, req = frozenset(), True
        return (pend, req), b.insts[-1]
