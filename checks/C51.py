"""C51: ftobin."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.dasm import *
from vsa.fio import Files
from vsa.interp import cstring as text


def run(ck):
    files = Files()
    openable = {}

    def m_fopen(I, s, a, ins):
        n, mode = text(I, s, a[0]), text(I, s, a[1])
        n = n.decode() if n is not None else "?"
        s.ev("open", n, mode.decode() if mode else "?")
        if not openable.get(n, True):
            return C(0, 64)
        return I.mkptr("stream_" + n)

    md = dict(files.models())
    say = lambda old, k: lambda I, s, a, ins: C(1, 32) if "std" in T.show(a[k]) else old(I, s, a, ins)
    md.update({"fopen": m_fopen, "fclose": lambda I, s, a, ins: (s.ev("close", T.show(a[0])), C(0, 32))[1],
               "puts": lambda I, s, a, ins: C(1, 32), "printf": lambda I, s, a, ins: C(1, 32), "fputs": say(md["fputs"], 1), "fprintf": say(md["fprintf"], 0)})
    w = ck.world(md, fixed=set(ck.m.globals), unroll=3000)
    where = ck.fnline("convert") if "convert" in ck.m.funcs else ck.fnline("main")
    IN, OUT = w.mkptr("stream_in"), w.mkptr("stream_out")

    def go(args, data):
        s = State()
        p = w.mkobj(s, "argv", None, "zero")
        o = w.getobj(s, "H:argv").mod()
        for i, t in enumerate(args):
            w.put(o, 8 * i, w.mkstr(s, "arg%d" % i, t))
        s.mem["H:argv"] = o
        files.fill(s, IN, data)
        for g in ("stdout", "stderr"):
            if g in ck.m.globals:
                w.gset(s, g, w.mkptr("stream_" + g))
        n0 = len(w.exits)
        out = [(st, "return", w.subst(st, rv)) for st, rv in w.run(s, "main", [C(len(args), 32), p])]
        for kind, st, ins in w.exits[n0:]:
            code = [e[1] for e in st.trace if e[0] == "exit"]
            out.append((st, kind, code[-1] if code else C(1, 32)))
        return out

    def check(rule, inst, fmt, data, want):
        rs = go(["ftobin", str(fmt), "in", "out"], data)
        ck.ob(rule, inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            if not ck.ob(rule, inst, kind == "return" and isc(code) and cv(code) == 0, "ends with %s %s" % (kind, code), where):
                continue
            got = [w.subst(st, x) for x in files.data(st, OUT)]
            bad = [i for i, (x, y) in enumerate(zip(got, want)) if not same(w, st, x, y)]
            ck.ob(rule, inst, not bad, "byte %d of the image is %s, expected %s" % (bad[0], got[bad[0]], want[bad[0]]) if bad else "", where)
            ck.ob("length", inst, len(got) == len(want), "image has %d bytes, expected %d" % (len(got), len(want)), where)
            ck.ob("closed", inst, [e[1] for e in st.trace if e[0] == "close"].count("stream_out") == 1, "output not closed once", where)
            o = [(e[1], e[2][:1]) for e in st.trace if e[0] == "open"]
            ck.ob("closed", inst, o == [("in", "r"), ("out", "w")], "opens %s" % o, where)

    X = sym("x", 8)

    def sample(n, k, at=None):
        return [X if i == at else C((i * 37 + 11 + k * 59) % 251, 8) for i in range(n)]

    def word(v):
        return [C(v & 255, 8), C(v >> 8, 8)]

    SIZES = (0, 1, 2, 127, 128, 255, 256, 257, 300, 512, 513, 700)

    def plain():
        for n in SIZES:
            for at in sorted({0, n // 2, n - 1} & set(range(n))) or (None,):
                bs = sample(n, 0, at)
                check("format 3", "%d bytes, arbitrary %s" % (n, at), 3, bs, bs)
                for o in (0, 0x1234, 0xffff):
                    check("format 1", "%d bytes at %x, arbitrary %s" % (n, o, at), 1, word(o) + bs, bs)

    def chunks(cs, at=None):
        """cs: (origin, length) of each chunk; the image starts at the first origin."""
        base = cs[0][0]
        data, img = [], {}
        for k, (o, n) in enumerate(cs):
            bs = sample(n, k, at if k == len(cs) - 1 else None)
            data += word(o) + word(n) + bs
            for i, b in enumerate(bs):
                img[o + i - base] = b
        want = [img.get(i, C(255, 8)) for i in range(max(img, default=-1) + 1)]
        check("format 2", "chunks %s%s" % (" ".join("%x+%d" % c for c in cs), "" if at is None else ", arbitrary %d" % at), 2, data, want)
    SEQS = [[(0x1000, n)] for n in SIZES]
    SEQS += [[(0x1000, a), (0x1000 + a + gap, b)] for a in (1, 200, 256, 300) for gap in (0, 1, 255, 256, 257, 600) for b in (1, 256, 300)]
    SEQS += [[(0x1000, a), (0x1000 + d, b)] for a in (20, 300, 600) for d in (0, 1, 10, a - 1) for b in (1, 5, 300)]
    SEQS += [[(0x1000, a), (0x1000 + d, b), (0x1000 + a + gap, c)] for a in (20, 600) for d in (0, 3, a - 4) for b in (2, 4) for gap in (0, 1, 300) for c in (1, 260)]
    SEQS += [[(0x1000, 10), (0x1020, 5), (0x1008, 2), (0x1010, 3), (0x1040, 7), (0x1000, 1)], [(0, 4), (0x300, 4), (0x100, 4), (0x400, 1)],
             [(0xff00, 256), (0xff80, 2)], [(0xff00, 255), (0xffff, 1), (0xff10, 1)], [(0xfe00, 512), (0xfe00, 1), (0xfff0, 16)], [(0xfffc, 4), (0xfffd, 1)],
             [(0x1000, 5), (0x1002, 0), (0x1003, 4), (0x1010, 1)], [(0x1000, 3), (0x1003, 0)], [(0x1000, 300), (0x1100, 300), (0x1080, 300), (0x1400, 3)]]

    def ras(part):
        for i, cs in enumerate(SEQS):
            if i % 8 == part:
                chunks(cs)
                n = cs[-1][1]
                if n:
                    chunks(cs, n - 1)

    def status():
        for fmt in ("0", "4", "-1", "x"):
            for st, kind, code in go(["ftobin", fmt, "in", "out"], sample(4, 0)):
                ck.ob("status", "format argument %s" % fmt, isc(code) and cv(code) & 255 != 0, "succeeds", where)
        for n in (1, 2):
            for st, kind, code in go(["ftobin", "1", "in"][:n], sample(4, 0)):
                ck.ob("status", "%d arguments" % n, isc(code) and cv(code) & 255 != 0, "succeeds", where)
        for bad in ("in", "out"):
            openable[bad] = False
            for args in (["ftobin", "1", "in", "out"], ["ftobin", "2", "in", "out"], ["ftobin", "1", "in"]):
                for st, kind, code in go(args, sample(4, 0)) if bad in args else ():
                    ck.ob("status", "%s, %s cannot be opened" % (" ".join(args[1:]), bad), isc(code) and cv(code) & 255 != 0, "succeeds", where)
            del openable[bad]
        for d in (1, 2, 0x80, 0x1000):
            for st, kind, code in go(["ftobin", "2", "in", "out"], word(0x1000) + word(3) + sample(3, 0) + word(0x1000 - d) + word(1) + sample(1, 1)):
                ck.ob("status", "an origin %d below the first" % d, isc(code) and cv(code) & 255 != 0, "succeeds", where)
        for st, kind, code in go(["ftobin", "3", "in"], sample(4, 0)):
            outs = {k: v for k, v in st.note.items() if k.startswith("file:") and k != "file:stream_in" and len(v) == 4}
            ck.ob("status", "no output name", kind == "return" and len(outs) == 1, "writes %s" % {k: len(v) for k, v in st.note.items() if k.startswith("file:")}, where)

    ck.fan([(plain,), (status,)] + [(ras, i) for i in range(8)])
    for r, n in (("format 1", 60), ("format 2", 200), ("format 3", 20), ("length", 300), ("status", 12)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C51", run, which="ftobin")
