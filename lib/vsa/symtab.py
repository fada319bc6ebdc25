"""Symbol table: lookup, creation and label definition on tables of bounded shape.

Every bucket of the table holds the same chain, so the result does not depend on the hash function."""
from .data import *


class Symtab:
    def __init__(self, ck, models=None):
        self.ck = ck
        md = dict(BASE_MODELS)
        md["sftos"] = lambda I, s, a, ins: I.mkstr(s, "sftos", "x")
        md.update(models or {})
        self.w = ck.world(md, unroll=4096)
        m = ck.m
        if "SHash" not in m.globals:
            raise AnalysisBroken("symbol table not found")
        self.nb = m.globals["SHash"].ty.size // 8
        (self.UNK, self.REF, self.STRING, self.SET, self.MACRO) = K("SYM_UNKNOWN", "SYM_REF", "SYM_STRING", "SYM_SET", "SYM_MACRO")
        self.SFU, self.SFR, self.SFB = K("SF_UNKNOWN", "SF_RORG", "SF_BSS")

    def state(self, chain=(), local=0, dollar=0, segflags=0, rflags=0):
        """chain: [(name bytes, flags, value term)]"""
        w = self.w
        s = State()
        seg = w.mkptr("cseg")
        w.gset(s, "Csegment", seg)
        for f, v in (("flags", segflags), ("rflags", rflags), ("org", ORG), ("rorg", RORG)):
            w.fset(s, seg, "_SEGMENT", f, v)
        self.scope(s, local, dollar)
        w.gset(s, "Xdebug", 0)
        w.gset(s, "bTrace", 0)
        w.gset(s, "SymbolCount", len(chain))
        if "SymAlloc" in self.ck.m.globals:
            w.gset(s, "SymAlloc", 0)
        head = C(0, 64)
        self.ptrs = []
        for k in reversed(range(len(chain))):
            name, fl, val = chain[k]
            p = w.mkptr("entry%d" % k)
            self.setsym(s, p, name, fl, val, head, k + 1, "ename%d" % k)
            head = p
            self.ptrs.insert(0, p)
        o = w.getobj(s, "g:SHash").mod()
        o.cells = {8 * i: head for i in range(self.nb)}
        o._key = None
        s.mem["g:SHash"] = o
        return s

    def setsym(self, s, p, name, fl, val, nxt, order, oname):
        w = self.w
        b = name if isinstance(name, bytes) else name.encode("latin-1")
        w.fset(s, p, "_SYMBOL", "name", w.mkstr(s, oname, b))
        w.fset(s, p, "_SYMBOL", "namelen", len(b))
        w.fset(s, p, "_SYMBOL", "flags", fl)
        w.fset(s, p, "_SYMBOL", "addrmode", 0)
        w.fset(s, p, "_SYMBOL", "value", val)
        w.fset(s, p, "_SYMBOL", "string", 0)
        w.fset(s, p, "_SYMBOL", "next", nxt)
        w.fset(s, p, "_SYMBOL", "order", order)

    def scope(self, s, local, dollar):
        self.w.gset(s, "Localindex", local)
        self.w.gset(s, "Localdollarindex", dollar)

    def text(self, s, name, oname="name"):
        """Object holding a name given as bytes/str or list of byte terms, followed by other characters."""
        w = self.w
        p = w.mkobj(s, oname, None, "zero")
        o = w.getobj(s, p.a[0]).mod()
        bs = name if isinstance(name, list) else [C(c, 8) for c in (name if isinstance(name, bytes) else name.encode("latin-1"))]
        for i, c in enumerate(bs):
            w.put(o, i, c)
        s.mem[p.a[0]] = o
        return p, len(bs)

    def find(self, s, name, tail=b""):
        """[(state, result)]; the text goes on with tail after the name."""
        if isinstance(name, str):
            name = name.encode("latin-1")
        n = len(name)
        t = ([C(c, 8) for c in name] if isinstance(name, bytes) else list(name)) + [C(c, 8) for c in tail]
        p, _ = self.text(s, t)
        return self.w.run(s, "findsymbol", [p, C(n, 32)])

    def create(self, s, name, order=1, tail=b""):
        if isinstance(name, str):
            name = name.encode("latin-1")
        n = len(name)
        t = ([C(c, 8) for c in name] if isinstance(name, bytes) else list(name)) + [C(c, 8) for c in tail]
        p, _ = self.text(s, t)
        k = len(self.ck.m.funcs["CreateSymbol"].params)
        return self.w.run(s, "CreateSymbol", [p, C(n, 32)] + ([C(order, 1)] if k > 2 else []))

    def f(self, s, p, field):
        return self.w.fget(s, p, "_SYMBOL", field)
