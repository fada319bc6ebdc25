"""C11: output file containers."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.emit import *


def run(ck):
    E = Emit(ck)
    w = E.w
    RAW, RAS, DEF = K("FORMAT_RAW", "FORMAT_RAS", "FORMAT_DEFAULT")
    B = [sym("byte%d" % i, 8) for i in range(24)]
    ck.ob("format numbers", "1 2 3", (DEF, RAS, RAW) == (1, 2, 3), "format numbers changed", "asm.h")

    def le(t):
        return [T.extract(t, 0, 8), T.extract(t, 8, 8)]

    def expected(fmt, steps, org0, fill):
        """steps: (gap before, bytes, fill value or None)"""
        out = []
        addr = org0
        cur = None
        hdr = None
        for gap, bs, f in steps:
            start = T.add(addr, C(gap, 64))
            if fmt == RAS:
                if hdr is None or gap:
                    hdr = len(out) + 2
                    out += le(start) + [C(0, 8), C(0, 8)]
                    cur = 0
                out += bs
                cur += len(bs)
                out[hdr:hdr + 2] = le(C(cur, 64))
            else:
                if hdr is None:
                    hdr = 0
                    if fmt == DEF:
                        out += le(start)
                else:
                    out += [f] * gap
                out += bs
            addr = T.add(start, C(len(bs), 64))
        return out

    def scenario(fmt, plan, constorg=None):
        """plan: list of (gap, nbytes)"""
        org0 = ORG if constorg is None else C(constorg, 64)
        s = E.state(fmt, org=org0)
        steps = []
        k = 0
        addr = org0
        states = [s]
        fills = [sym("fill%d" % i, 8) for i in range(len(plan))]
        for i, (gap, n) in enumerate(plan):
            bs = B[k:k + n]
            k += n
            addr = T.add(addr, C(gap, 64))
            nxt = []
            for st in states:
                w.gset(st, "OrgFill", T.zext(fills[i], 8 * w.gsize("OrgFill")))
                if i:
                    E.setseg(st, "org", addr)
                else:
                    E.setseg(st, "org", addr)
                for s2, kind in E.emit(st, bs):
                    if kind != "return":
                        ck.ob("container", "format %d %s" % (fmt, plan), False, "emission aborts", E.where)
                    else:
                        nxt.append(s2)
            states = nxt
            steps.append((gap, bs, fills[i]))
            addr = T.add(addr, C(n, 64))
        ck.ob("container", "format %d %s" % (fmt, plan), len(states) > 0, "no result", E.where)
        want = expected(fmt, steps, org0, None)
        for st in states:
            cl = E.close(st)
            for s2, kind in cl:
                got = E.content(s2)
                ck.ob("container", "format %d (gap,bytes) %s from %s" % (fmt, plan, org0), same_bytes(w, s2, got, want),
                      "file is %s, expected %s" % (showb(got), showb(want)), E.where)
                ck.ob("end of file", "format %d %s" % (fmt, plan), E.files.pos(s2, E.fi) == len(got), "output position not at the end", E.where)

    plans = [[(0, 1)], [(0, 3)], [(0, 2), (0, 3)], [(0, 2), (1, 1)], [(0, 1), (5, 2), (0, 2)], [(0, 2), (0, 0), (0, 1)], [(3, 2), (2, 2), (3, 1)],
             [(0, 1), (1, 1), (0, 1), (1, 1)], [(0, 2), (300, 2)]]
    for fmt in (DEF, RAS, RAW):
        for p in plans:
            ck.rule(scenario, fmt, p)
            ck.rule(scenario, fmt, p, 0x1234)
            ck.rule(scenario, fmt, p, 0xfff0)

    def back():
        for fmt in (DEF, RAW):
            for d in (1, 2, 100):
                s = E.state(fmt)
                w.limit(s, ORG, ((1000, 1 << 30),))
                for st, kind in E.emit(s, B[:2]):
                    if kind != "return":
                        continue
                    E.setseg(st, "org", T.add(ORG, C(2 - d, 64)))
                    rs = E.emit(st, B[2:4])
                    ck.ob("backward origin", "format %d back by %d" % (fmt, d), len(rs) > 0, "no result", E.where)
                    for s2, k2 in rs:
                        ck.ob("backward origin", "format %d back by %d" % (fmt, d),
                              k2 != "return" and any(e[0] in ("err", "panic", "exit") for e in s2.trace), "accepted", E.where)

    def backras():
        for d in (1, 2, 100):
            s = E.state(RAS)
            w.limit(s, ORG, ((1000, 1 << 30),))
            for st, kind in E.emit(s, B[:2]):
                E.setseg(st, "org", T.add(ORG, C(2 - d, 64)))
                for s2, k2 in E.emit(st, B[2:4]):
                    for s3, k3 in E.close(s2):
                        want = le(ORG) + le(C(2, 64)) + B[:2] + le(T.add(ORG, C(2 - d, 64))) + le(C(2, 64)) + B[2:4]
                        ck.ob("container", "format 2 back by %d" % d, k2 == "return" and same_bytes(w, s3, E.content(s3), want),
                              "file is %s" % showb(E.content(s3)), E.where)

    def bss():
        """An uninitialised segment in between leaves no trace in the file."""
        for fmt in (DEF, RAS, RAW):
            s = E.state(fmt)
            w.limit(s, ORG, ((1000, 1 << 30),))
            for st, kind in E.emit(s, B[:2]):
                if kind != "return":
                    continue
                E.setseg(st, "flags", E.SFB)
                E.setseg(st, "org", C(128, 64))
                for s2, k2 in E.emit(st, B[2:4]):
                    if k2 != "return":
                        ck.ob("uninitialised", "format %d" % fmt, False, "aborts", E.where)
                        continue
                    E.setseg(s2, "flags", 0)
                    E.setseg(s2, "org", T.add(ORG, C(2, 64)))
                    for s3, k3 in E.emit(s2, B[4:5]):
                        for s4, k4 in E.close(s3):
                            want = expected(fmt, [(0, B[:2], None), (0, B[4:5], None)], ORG, None)
                            ck.ob("uninitialised", "format %d" % fmt, k3 == "return" and same_bytes(w, s4, E.content(s4), want),
                                  "file is %s, expected %s" % (showb(E.content(s4)), showb(want)), E.where)

    def bssfirst():
        for fmt in (DEF, RAS, RAW):
            s = E.state(fmt, flags=E.SFB, org=C(128, 64))
            for st, kind in E.emit(s, B[:2]):
                E.setseg(st, "flags", 0)
                E.setseg(st, "org", ORG)
                for s2, k2 in E.emit(st, B[2:5]):
                    for s3, k3 in E.close(s2):
                        want = expected(fmt, [(0, B[2:5], None)], ORG, None)
                        ck.ob("uninitialised", "format %d first" % fmt, k2 == "return" and same_bytes(w, s3, E.content(s3), want),
                              "file is %s, expected %s" % (showb(E.content(s3)), showb(want)), E.where)

    def long(total, gap):
        """Chunk lengths need both bytes of the length field."""
        inst = "format 2 chunk of %d%s" % (total, " then another" if gap else "")
        st = E.state(RAS, org=C(0x1000, 64))
        n = total
        addr = 0x1000
        while n:
            k = min(n, GEN)
            rs = E.emit(st, [C(0x55, 8)] * k)
            if len(rs) != 1 or rs[0][1] != "return":
                ck.ob("long chunk", inst, False, "emission does not return one result", E.where)
                return
            st = rs[0][0]
            n -= k
            addr += k
        want = [total]
        if gap:
            E.setseg(st, "org", C(addr + gap, 64))
            rs = E.emit(st, [C(1, 8)])
            st = rs[0][0]
        for s2, kind in E.close(st):
            got = E.content(s2)
            ck.ob("long chunk", inst, len(got) == 4 + total + (5 if gap else 0) and same_bytes(w, s2, got[:4], le(C(0x1000, 64)) + le(C(total, 64)))
                  and all(isc(x) and cv(x) == 0x55 for x in got[4:4 + total])
                  and (not gap or same_bytes(w, s2, got[4 + total:], le(C(addr + gap, 64)) + le(C(1, 64)) + [C(1, 8)])),
                  "%d bytes, header %s" % (len(got), showb(got[:4])), E.where)

    def empty():
        for fmt in (DEF, RAS, RAW):
            for s2, kind in E.close(E.state(fmt)):
                ck.ob("empty output", "format %d" % fmt, not E.content(s2), "file holds %s" % showb(E.content(s2)), E.where)

    def overlong(total):
        """More bytes than a length field can count: the chunks still cover them in order."""
        inst = "format 2, %d contiguous bytes" % total
        st = E.state(RAS, org=C(0x800, 64))
        n = total
        while n:
            k = min(n, GEN)
            rs = E.emit(st, [C(0x55, 8)] * k)
            if len(rs) != 1 or rs[0][1] != "return":
                ck.ob("long chunk", inst, False, "emission does not return one result", E.where)
                return
            st = rs[0][0]
            n -= k
        for s2, kind in E.close(st):
            got = [cv(x) if isc(x) else -1 for x in E.content(s2)]
            i, a, ok = 0, 0x800, True
            while i < len(got) and ok:
                h = got[i:i + 4]
                if len(h) < 4:
                    ok = False
                    break
                o, l = h[0] | h[1] << 8, h[2] | h[3] << 8
                ok = o == a & 0xffff and got[i + 4:i + 4 + l] == [0x55] * l
                i += 4 + l
                a += l
            ck.ob("long chunk", inst, ok and a - 0x800 == total, "chunks do not cover the bytes: %s" % showb(E.content(s2)[:4]), E.where)

    GEN = ck.m.globals["Gen"].ty.size
    ck.rule(empty)
    ck.rule(overlong, 70001)
    ck.need("empty output", 3)
    for total in (256, 0x1234, 0x8000, 0xfffe):
        for gap in (0, 7):
            ck.rule(long, total, gap)
    ck.need("long chunk", 8)
    ck.rule(back)
    ck.rule(backras)
    ck.rule(bss)
    ck.rule(bssfirst)
    ck.need("container", 80)
    ck.need("backward origin", 6)
    ck.need("uninitialised", 6)


if __name__ == "__main__":
    main("C11", run)
