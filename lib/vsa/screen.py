"""Models of the calls that write to the screen: each adds the event ("screen", text) whichever call is used."""
from .dasm import *
from .interp import cstring, format_bytes


def shown(s, bs):
    s.ev("screen", "".join(chr(cv(x)) if isc(x) else "#" for x in bs) if bs is not None else None)


def screen_models(md=None, streams=("stdout",)):
    """md with the models of the screen added; writes to other streams keep their model in md."""
    md = dict(md or {})
    rest = {k: md.get(k) for k in ("fprintf", "fputs", "fputc", "putc", "fwrite")}

    def onscreen(I, s, p):
        return any(g in I.m.globals and I.subst(s, I.gget(s, g)) is I.subst(s, p) for g in streams)

    def other(name, I, s, a, ins, rv):
        f = rest[name]
        if f is None:
            s.ev("write", a[{"fprintf": 0, "fwrite": 3}.get(name, 1)])
            return rv
        return f(I, s, a, ins)

    def printf(I, s, a, ins):
        shown(s, format_bytes(I, s, a[0], a[1:]))
        return C(1, 32)

    def puts(I, s, a, ins):
        t = cstring(I, s, a[0])
        s.ev("screen", None if t is None else t.decode("latin-1") + "\n")
        return C(1, 32)

    def putchar(I, s, a, ins):
        shown(s, [T.extract(a[0], 0, 8)])
        return a[0]

    def fprintf(I, s, a, ins):
        if not onscreen(I, s, a[0]):
            return other("fprintf", I, s, a, ins, C(1, 32))
        return printf(I, s, a[1:], ins)

    def fputs(I, s, a, ins):
        if not onscreen(I, s, a[1]):
            return other("fputs", I, s, a, ins, C(1, 32))
        t = cstring(I, s, a[0])
        s.ev("screen", None if t is None else t.decode("latin-1"))
        return C(1, 32)

    def putc(name):
        def f(I, s, a, ins):
            if not onscreen(I, s, a[1]):
                return other(name, I, s, a, ins, a[0])
            return putchar(I, s, a, ins)
        return f

    def fwrite(I, s, a, ins):
        if not onscreen(I, s, a[3]):
            return other("fwrite", I, s, a, ins, a[2])
        n = I.subst(s, T.mul(a[1], a[2]))
        shown(s, [I.load(s, T.add(a[0], C(i, 64)), 1) for i in range(cv(n))] if isc(n) and cv(n) <= 4096 else None)
        return a[2]
    md.update({"printf": printf, "puts": puts, "putchar": putchar, "fprintf": fprintf, "fputs": fputs, "fputc": putc("fputc"), "putc": putc("putc"), "fwrite": fwrite})
    return md
