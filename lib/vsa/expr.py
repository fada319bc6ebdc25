"""Transfer functions of the expression evaluator.

One iteration of eval()'s scanning loop is analysed from abstract header states
(stack shape and current characters fixed, operand values and flags arbitrary).
"""
from .dasm import *


class Expr:
    def __init__(self, ck, wantmode=0, models=None, recursion=6):
        self.ck = ck
        md = dict(BASE_MODELS)
        md["findsymbol"] = self.m_findsymbol
        md["CreateSymbol"] = self.m_create
        md["eval"] = self.m_rec
        if models:
            md.update(models)
        self.w = ck.world(md, recursion=recursion, maxdepth=40 if recursion < 10 else 400)
        m = ck.m
        if "eval" not in m.funcs:
            raise AnalysisBroken("eval not found")
        f = m.funcs["eval"]
        top = [L for L in f.loops.values() if L.parent is None]
        if not top:
            raise AnalysisBroken("eval: no scanning loop")
        self.L = max(top, key=lambda L: len(L.blocks))
        self.wantmode = wantmode
        self.nsym = {}

    def m_findsymbol(self, I, s, a, ins):
        """Any name: either a symbol with arbitrary contents or none."""
        k = s.cnt.get("fs", 0)
        s.cnt["fs"] = k + 1
        p = I.mkptr("sym%d" % k)
        s.ev("lookup", a[0], a[1])
        mode = s.note.get("find")
        if mode == "none":
            return C(0, 64)
        return p

    def m_create(self, I, s, a, ins):
        p = I.mkptr("newsym")
        s.ev("create", a[0], a[1])
        I.fset(s, p, "_SYMBOL", "flags", K("SYM_UNKNOWN"))
        return p

    def m_rec(self, I, s, a, ins):
        s.ev("rec", *a)
        p = I.mkptr("recres")
        return p

    def start(self, text, nargs=0, nops=0, lastwasop=None, setup=None, processor=6502, symbolic_tail=False, find=None):
        """Header states with the line positioned at text."""
        w = self.w
        s = State()
        line = w.mkobj(s, "line", None, "zero")
        o = w.getobj(s, "H:line").mod()
        b = text if isinstance(text, (bytes, list)) else text.encode("latin-1")
        for i, c in enumerate(b):
            w.put(o, i, C(c, 8) if isinstance(c, int) else c)
        if not symbolic_tail:
            w.put(o, len(b), C(0, 8))
        else:
            o.default = ("lazy", "tail")
        s.mem["H:line"] = o
        w.gset(s, "Argi", 0)
        w.gset(s, "Opi", 0)
        w.gset(s, "Argibase", 0)
        w.gset(s, "Opibase", 0)
        if processor is not None:
            w.gset(s, "Processor", processor)
        if find:
            s.note["find"] = find
        if "ucasm_indexed_notation" in self.ck.m.globals:
            w.gset(s, "ucasm_indexed_notation", 0)
        if setup:
            setup(s)
        hs = w.to_header(s, "eval", [obj("H:line"), C(self.wantmode, 32)], self.L.header)
        if not hs:
            raise AnalysisBroken("eval: scanning loop not reached")
        out = []
        for env, st in hs:
            w.gset(st, "Argi", nargs)
            w.gset(st, "Opi", nops)
            if lastwasop is not None:
                w.gset(st, "Lastwasop", lastwasop)
            for i in range(nargs):
                self.setarg(st, i, "v%d" % (i + 1), "f%d" % (i + 1))
            out.append((env, st))
        return out

    def setarg(self, s, i, v, f, strv=0):
        w = self.w
        if isinstance(v, str):
            v = sym(v, 64)
        if isinstance(f, str):
            f = sym(f, 8)
        elif isinstance(f, int):
            f = C(f, 8)
        w.gset(s, "Argstack", v, 8 * i, 8)
        w.gset(s, "Argflags", f, i, 1)
        w.gset(s, "Argstring", C(strv, 64) if isinstance(strv, int) else strv, 8 * i, 8)

    def argv(self, s, i):
        return self.w.gget(s, "Argstack", 8 * i, 8)

    def argf(self, s, i):
        return self.w.gget(s, "Argflags", i, 1)

    def n(self, s, name):
        v = self.w.gget(s, name)
        return sv(v) if isc(v) else v

    def pos(self, env, s):
        """Offset of the scanning pointer into the line."""
        offs = set()
        f = self.ck.m.funcs["eval"]
        for ph in f.blocks[self.L.header].phis:
            v = env.get(ph.res)
            if v is not None and v.w == 64:
                k = T.sub(v, obj("H:line"))
                if isc(k):
                    offs.add(sv(k))
        if len(offs) != 1:
            # pointer kept in memory: look in the locals of eval
            for oid, o in s.mem.items():
                if oid.startswith("A:"):
                    for c in o.cells.values():
                        if c.w == 64:
                            k = T.sub(c, obj("H:line"))
                            if isc(k):
                                offs.add(sv(k))
            offs.discard(0) if len(offs) > 1 else None
        return offs.pop() if len(offs) == 1 else None

    def step(self, env, s):
        return self.w.iterate("eval", self.L.header, env, s)

    def steps_to(self, items, target, limit=40):
        """Iterate until the scan position reaches target; returns header states there."""
        out = []
        work = list(items)
        n = 0
        while work:
            env, s = work.pop()
            p = self.pos(env, s)
            if p is None:
                raise AnalysisBroken("eval: scanning position unknown")
            if p >= target:
                out.append((env, s, p))
                continue
            n += 1
            if n > limit:
                raise AnalysisBroken("eval: scanner does not advance")
            r, ex, bk = self.step(env, s)
            work += bk
            for st, rv in r:
                out.append((None, st, None))
        return out

    def end(self, env, s):
        """From a header state positioned at the end of line: list of (state, returned SYMBOL*)."""
        r, ex, bk = self.step(env, s)
        if bk:
            raise AnalysisBroken("eval: loop continues at end of line")
        return r + self.w.resume("eval", ex)

    def symf(self, s, p, field):
        return self.w.fget(s, p, "_SYMBOL", field)


# documented operators: spelling -> (precedence, function name)
BINARY = {
    "*": (20, "mul"), "/": (20, "div"), "%": (20, "mod"), "+": (19, "add"), "-": (19, "sub"),
    "<<": (18, "shl"), ">>": (18, "shr"), ">": (17, "gt"), "<": (17, "lt"), ">=": (17, "ge"), "<=": (17, "le"),
    "==": (16, "eq"), "=": (16, "eq"), "!=": (16, "ne"), "&": (15, "and"), "^": (14, "xor"), "|": (13, "or"),
    "&&": (12, "land"), "||": (11, "lor"), "?": (10, "cond"),
}
UNARY = {"-": "neg", "~": "inv", "!": "not", "<": "lsb", ">": "msb"}
