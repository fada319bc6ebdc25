"""C10: location counter and checksum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.emit import *


def run(ck):
    E = Emit(ck)
    w = E.w
    RAW, RAS, DEF = K("FORMAT_RAW", "FORMAT_RAS", "FORMAT_DEFAULT")
    B = [sym("byte%d" % i, 8) for i in range(8)]

    def one(fmt, redo, flags, fresh, n):
        inst = "format %d %s segment flags %#x %s %d bytes" % (fmt, "writing pass" if redo == 0 else "non-writing pass", flags, "first" if fresh else "later", n)
        s = E.state(fmt, redo, flags, True)
        if not fresh:
            # a first emission of two bytes brings the output to this address
            s0 = E.state(fmt, 0, 0, True, org=T.sub(ORG, C(2, 64)))
            rs = [x for x in E.emit(s0, [C(1, 8), C(2, 8)]) if x[1] == "return"]
            ck.ob("advance", inst, len(rs) == 1, "first emission undecided", E.where)
            if len(rs) != 1:
                return
            s = rs[0][0]
            E.setseg(s, "flags", flags)
            w.gset(s, "Redo", redo)
        cs = w.gget(s, "CheckSum")
        f0 = E.content(s)
        rs = E.emit(s, B[:n])
        ck.ob("advance", inst, len(rs) > 0, "no result", E.where)
        for st, kind in rs:
            if kind != "return":
                ck.ob("advance", inst, False, "emission aborts", E.where)
                continue
            ck.ob("advance", inst, same(w, st, E.seg(st, "org"), T.add(ORG, C(n, 64))), "address becomes %s" % E.seg(st, "org"), E.where)
            want = T.add(RORG, C(n, 64)) if flags & E.SFR else RORG
            ck.ob("relocated address", inst, same(w, st, E.seg(st, "rorg"), want), "relocated address becomes %s" % E.seg(st, "rorg"), E.where)
            ck.ob("segment flags", inst, same(w, st, E.seg(st, "flags"), C(flags, 8)), "segment flags become %s" % E.seg(st, "flags"), E.where)
            tot = cs
            if redo == 0 and not flags & E.SFB:
                for b in B[:n]:
                    tot = T.add(tot, T.zext(b, 64))
            ck.ob("checksum", inst, same(w, st, w.gget(st, "CheckSum"), tot), "checksum becomes %s, expected %s" % (w.gget(st, "CheckSum"), tot), E.where)
            if redo != 0 or flags & E.SFB:
                ck.ob("no output", inst, E.content(st) == f0, "writes to the output", E.where)
            else:
                ck.ob("bytes written", inst, E.content(st)[len(E.content(st)) - n:] == B[:n] and len(E.content(st)) >= len(f0) + n,
                      "bytes not written", E.where)
            ck.ob("pass state", inst, same(w, st, w.gget(st, "Redo"), C(redo, 32)), "asks for another pass", E.where)

    def gap():
        """The checksum does not include fill bytes."""
        for fmt in (RAW, DEF, RAS):
            for g in (1, 4):
                s = E.state(fmt)
                w.limit(s, ORG, ((0, 1 << 30),))
                rs = E.emit(s, B[:1])
                for st, kind in rs:
                    if kind != "return":
                        continue
                    E.setseg(st, "org", T.add(ORG, C(1 + g, 64)))
                    cs = w.gget(st, "CheckSum")
                    for s2, k2 in E.emit(st, B[1:3]):
                        ck.ob("checksum without fill", "format %d gap %d" % (fmt, g), k2 == "return" and same(
                            w, s2, w.gget(s2, "CheckSum"), T.add(T.add(cs, T.zext(B[1], 64)), T.zext(B[2], 64))),
                            "checksum becomes %s" % w.gget(s2, "CheckSum"), E.where)
                        if k2 == "return":
                            ck.ob("advance", "format %d after gap %d" % (fmt, g), same(w, s2, E.seg(s2, "org"), T.add(ORG, C(g + 3, 64))),
                                  "address %s" % E.seg(s2, "org"), E.where)

    def lengths():
        """Undetermined byte counts in passes that do not write."""
        for flags in (0, E.SFR, E.SFB, E.SFB | E.SFR):
            for redo in (1, 7):
                s = E.state(DEF, redo, flags)
                n = sym("count", 32)
                w.assume_range(s, n, 0, 1 << 24)
                w.gset(s, "Glen", n)
                rs = w.run(s, "generate", [])
                ck.ob("advance", "any count, flags %#x" % flags, len(rs) > 0, "no result", E.where)
                for st, rv in rs:
                    n64 = T.sext(n, 64)
                    ck.ob("advance", "any count, flags %#x" % flags, same(w, st, E.seg(st, "org"), T.add(ORG, n64)), "address becomes %s" % E.seg(st, "org"), E.where)
                    want = T.add(RORG, n64) if flags & E.SFR else RORG
                    ck.ob("relocated address", "any count, flags %#x" % flags, same(w, st, E.seg(st, "rorg"), want), "becomes %s" % E.seg(st, "rorg"), E.where)

    for fmt in (DEF, RAS, RAW):
        for redo in (0, 1, 5):
            for flags in (0, E.SFR, E.SFB, E.SFB | E.SFR, K("SF_REF"), K("SF_REF") | E.SFR):
                for fresh in (True, False):
                    for n in (0, 1, 2, 3, 8):
                        ck.rule(one, fmt, redo, flags, fresh, n)
    ck.rule(gap)
    ck.rule(lengths)
    for r, n in (("advance", 500), ("relocated address", 500), ("checksum", 500), ("no output", 300), ("bytes written", 90)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C10", run)
