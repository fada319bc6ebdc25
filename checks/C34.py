"""C34: ftohex."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.dasm import *
from vsa.fio import Files
from vsa.interp import cstring as text


def run(ck):
    files = Files()
    openable = {}

    def m_fopen(I, s, a, ins):
        n, mode = text(I, s, a[0]), text(I, s, a[1])
        n = n.decode() if n is not None else "?"
        s.ev("open", n, mode.decode() if mode else "?")
        if not openable.get(n, True):
            return C(0, 64)
        return I.mkptr("stream_" + n)

    md = dict(files.models())
    md.update({"fopen": m_fopen, "fclose": lambda I, s, a, ins: (s.ev("close", T.show(a[0])), C(0, 32))[1],
               "puts": lambda I, s, a, ins: C(1, 32), "printf": lambda I, s, a, ins: C(1, 32)})
    fputs = md["fputs"]

    def m_fputs(I, s, a, ins):
        return C(1, 32) if "stderr" in T.show(a[1]) else fputs(I, s, a, ins)
    md["fputs"] = m_fputs
    fpr = md["fprintf"]
    md["fprintf"] = lambda I, s, a, ins: C(1, 32) if "stderr" in T.show(a[0]) else fpr(I, s, a, ins)
    w = ck.world(md, fixed=set(ck.m.globals), unroll=3000)
    where = ck.fnline("convert") if "convert" in ck.m.funcs else ck.fnline("main")
    IN, OUT = w.mkptr("stream_in"), w.mkptr("stream_out")

    def go(args, data, setup=None):
        s = State()
        p = w.mkobj(s, "argv", None, "zero")
        o = w.getobj(s, "H:argv").mod()
        for i, t in enumerate(args):
            w.put(o, 8 * i, w.mkstr(s, "arg%d" % i, t) if isinstance(t, str) else t)
        s.mem["H:argv"] = o
        files.fill(s, IN, data)
        for g in ("stdout", "stderr"):
            if g in ck.m.globals:
                w.gset(s, g, w.mkptr("stream_" + g))
        if setup:
            setup(s)
        n0 = len(w.exits)
        out = [(st, "return", w.subst(st, rv)) for st, rv in w.run(s, "main", [C(len(args), 32), p])]
        for kind, st, ins in w.exits[n0:]:
            code = [e[1] for e in st.trace if e[0] == "exit"]
            out.append((st, kind, code[-1] if code else C(1, 32)))
        return out

    def record(addr, data):
        """Expected text of one data record, as 8-bit terms for its hex digits."""
        bs = [C(len(data), 8), T.extract(addr, 8, 8), T.extract(addr, 0, 8), C(0, 8)] + data
        t = C(0, 8)
        for b in bs:
            t = T.add(t, b)
        return bs + [T.sub(C(0, 8), t)]

    END = b":00000001FF\r\n"

    def digits(b):
        return [T.app("digit", 8, "X", 1, T.zext(b, 32)), T.app("digit", 8, "X", 0, T.zext(b, 32))]

    def parse(st, got, inst, rule):
        """Split the output into records of byte terms; the number of data bytes is read from the text."""
        recs = []
        i = 0

        def num(k, n):
            v = 0
            for c in got[k:k + n]:
                c = w.subst(st, c)
                if not isc(c) or chr(cv(c)) not in "0123456789ABCDEF":
                    return None
                v = v * 16 + "0123456789ABCDEF".index(chr(cv(c)))
            return v
        while i < len(got):
            if not (isc(got[i]) and cv(got[i]) == 58):
                return None
            n = num(i + 1, 2)
            if n is None:
                return None
            e = i + 1 + 2 * (5 + n)
            if [cv(c) if isc(c) else None for c in got[e:e + 2]] not in ([13, 10],):
                return None
            recs.append((n, got[i + 1:e]))
            i = e + 2
        return recs

    def check(inst, fmt, data, want, trail=b""):
        """want: [(address term, [bytes])], the chunks of the input."""
        rule = "format %d" % fmt
        rs = go(["ftohex", str(fmt), "in", "out"], data)
        ck.ob(rule, inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            if not ck.ob(rule, inst, kind == "return" and isc(code) and cv(code) == 0, "ends with %s %s" % (kind, code), where):
                continue
            got = [w.subst(st, x) for x in files.data(st, OUT)]
            recs = parse(st, got, inst, rule)
            if not ck.ob(rule, inst, recs is not None, "output is not a sequence of records", where):
                continue
            ok = recs and recs[-1][0] == 0 and "".join(chr(cv(c)) if isc(c) else "?" for c in recs[-1][1]) == "00000001FF"
            ck.ob("end record", inst, ok, "last record is not the end record", where)
            ck.ob("end record", inst, all(r[0] for r in recs[:-1]), "empty record before the end", where)
            # every input byte once, at its address, in order
            flat = [(T.add(a, C(k, 32)), b) for a, bs in want for k, b in enumerate(bs)]
            n = 0
            good = True
            for cnt, ds in recs[:-1]:
                if not ck.ob("record length", inst, 1 <= cnt <= 16, "record of %d bytes" % cnt, where):
                    good = False
                    break
                seg = flat[n:n + cnt]
                if len(seg) < cnt or any(T.sub(seg[k][0], seg[0][0]) is not C(k, 32) for k in range(cnt)):
                    good = ck.ob("coverage", inst, False, "record of %d bytes at byte %d does not match the input" % (cnt, n), where)
                    break
                exp = [d for b in record(seg[0][0], [b for _, b in seg]) for d in digits(b)]
                for k, (x, y) in enumerate(zip(ds, exp)):
                    fld = ("count", "address", "address", "type")[k // 2] if k < 8 else "checksum" if k >= 8 + 2 * cnt else "data"
                    ck.ob(fld, "%s record at byte %d" % (inst, n), same(w, st, x, y), "digit %d is %s, expected %s" % (k, x, y), where)
                n += cnt
            if good:
                ck.ob("coverage", inst, n == len(flat), "%d of %d input bytes written" % (n, len(flat)), where)
            ck.ob("closed", inst, [e[1] for e in st.trace if e[0] == "close"].count("stream_out") == 1, "output not closed once", where)
            md_ = [e for e in st.trace if e[0] == "open"]
            ck.ob("files", inst, [(e[1], e[2][:1]) for e in md_] == [("in", "r"), ("out", "w")], "opens %s" % md_, where)

    X = sym("x", 8)

    def sample(n, at=None):
        """n bytes, one of them arbitrary."""
        return [X if i == at else C((i * 37 + 11) & 255, 8) for i in range(n)]

    def word(v):
        return [C(v & 255, 8), C(v >> 8, 8)]

    def addr(lo, hi):
        return T.zext(T.mkcat(T.pieces(lo) + T.pieces(hi)), 32)

    SIZES = (0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 255, 256, 300)

    def plain(fmt):
        for n in SIZES:
            pos = sorted({None, 0, 15, 16, n - 1} & ({None} | set(range(n))), key=lambda x: -1 if x is None else x)
            for at in pos:
                bs = sample(n, at)
                if fmt == 3:
                    check("%d bytes, arbitrary %s" % (n, at), 3, bs, [(C(0, 32), bs)])
                else:
                    for o in (0x1234, 0xff00):
                        check("%d bytes at %x, arbitrary %s" % (n, o, at), fmt, word(o) + bs, [(C(o, 32), bs)])
        if fmt == 1:
            for n in (1, 16, 20):
                bs = sample(n)
                check("arbitrary low address byte, %d bytes" % n, 1, [X, C(0x80, 8)] + bs, [(addr(X, C(0x80, 8)), bs)])
                check("arbitrary high address byte, %d bytes" % n, 1, [C(0xf8, 8), X] + bs, [(addr(C(0xf8, 8), X), bs)])

    def ras():
        for lens in ((), (0,), (1,), (16,), (17,), (256,), (300,), (3, 2), (16, 16), (17, 1), (5, 0, 4), (33, 2, 1), (260, 258)):
            for at in (None, 0, 1, 2):
                if at is not None and at >= sum(lens):
                    continue
                data, want = [], []
                for i, n in enumerate(lens):
                    o = (0x1080 + i * 0x2fc1) & 0xffff
                    bs = sample(n, at if i == len(lens) - 1 and at is not None and at < n else None)
                    data += word(o) + word(n) + bs
                    want.append((C(o, 32), bs))
                check("chunks %s arbitrary %s" % (lens, at), 2, data, want)
        bs = sample(3)
        check("arbitrary low address", 2, word(16) + word(1) + [C(5, 8)] + [X, C(9, 8)] + word(3) + bs, [(C(16, 32), [C(5, 8)]), (addr(X, C(9, 8)), bs)])
        check("arbitrary high address", 2, [C(0xf0, 8), X] + word(20) + sample(20), [(addr(C(0xf0, 8), X), sample(20))])

    def status():
        """Requests that cannot be served end with an error status."""
        for fmt in ("0", "4", "-1", "x"):
            for st, kind, code in go(["ftohex", fmt, "in", "out"], sample(4)):
                ck.ob("status", "format argument %s" % fmt, isc(code) and cv(code) & 255 != 0, "succeeds", where)
        for n in (1, 2):
            for st, kind, code in go(["ftohex", "1", "in"][:n], sample(4)):
                ck.ob("status", "%d arguments" % n, isc(code) and cv(code) & 255 != 0, "succeeds", where)
        for bad in ("in", "out"):
            openable[bad] = False
            for st, kind, code in go(["ftohex", "1", "in", "out"], sample(4)):
                ck.ob("status", "%s cannot be opened" % bad, isc(code) and cv(code) & 255 != 0, "succeeds", where)
            del openable[bad]
        for st, kind, code in go(["ftohex", "3", "in"], sample(4)):
            outs = {k: v for k, v in st.note.items() if k.startswith("file:") and k != "file:stream_in" and len(v) > 11}
            ck.ob("status", "no output name", kind == "return" and len(outs) == 1, "writes %s" % {k: len(v) for k, v in st.note.items() if k.startswith("file:")}, where)

    ck.rule(plain, 1)
    ck.rule(plain, 3)
    ck.rule(ras)
    ck.rule(status)
    for r, n in (("format 1", 50), ("format 2", 20), ("format 3", 20), ("checksum", 100), ("address", 100), ("data", 100), ("status", 8)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C34", run, which="ftohex")
