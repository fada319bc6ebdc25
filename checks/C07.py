"""C07: relative branches."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.f8 import *

FAR = 1 << 40


def run(ck):
    M = Mnem(ck)
    w = M.w
    cs = combos(ck.m, TABLES)

    def judge(tag, mk, mkrun, length, where):
        """mk(Target) -> results; the displacement byte is the last one."""
        for seg, segname in ((0, "origin"), (M.SFR, "relocated origin")):
            for lo, hi in ((-128, -1), (0, 0), (1, 127), (-128, 127)):
                inst = "%s displacement %d..%d from %s" % (tag, lo, hi, segname)
                rs = mkrun(mk(lo, hi), seg)
                ck.ob("exact", inst, len(rs) > 0, "no result", where)
                for r in rs:
                    d = C(lo & 255, 8) if lo == hi else T.extract(DISP, 0, 8)
                    ok = r.kind == "return" and not r.errs and not r.redo and r.bytes is not None
                    ck.ob("exact", inst, ok and len(r.bytes) == length and same(w if mkrun is not f8run else F.w, r.st, r.bytes[-1], d),
                          "emits %s, expected displacement %s last of %d bytes" % (showb(r.bytes) if ok else "an error", d, length), where)
            for lo, hi in ((128, 128), (128, FAR), (-129, -129), (-FAR, -129)):
                inst = "%s displacement %d..%d from %s" % (tag, lo, hi, segname)
                rs = mkrun(mk(lo, hi), seg)
                ck.ob("out of range", inst, len(rs) > 0, "no result", where)
                for r in rs:
                    ck.ob("out of range", inst, r.fails, "assembles successfully, emits %s" % showb(r.bytes), where)

    F = F8(ck)

    def f8run(x, seg):
        return F.go(x[0], x[1], x[2], segflags=seg)

    def shape_rule(shape, names):
        cmos, flags, modes = shape
        cpu = 16502 if cmos else 6502
        for mode, wide in modes:
            rel = flags & M.REL or mode in ("REL", "BYTEREL")
            if not rel:
                continue
            pre = []
            if flags & M.IMOD:
                pre = [(0, 7, 1), (0, 255, 1)]
                form = "BYTEADR"
                n = 2
            elif mode == "REL":
                form, n = "BYTEADR", 1 + wide
            else:
                form = [f for f, fam in FORMS.items() if mode in fam][0]
                n = 1 + wide + OPSIZE[mode]
                pre = ["0" if OPSIZE[mode] == 0 else "1..255"]
            if flags & M.MASK:
                n += 1
                pre.append((0, 255, 1))
            n += 1
            ck.cov.setdefault("branching_instructions", []).append("%s %s (%d with this shape)" % (names[0], mode, len(names)))
            judge("%s %s" % (names[0], mode), lambda lo, hi: pre + [Target(n, lo, hi)],
                  lambda ops, seg: M.run(shape, ops, form, cpu=cpu, segflags=seg), n, M.where)

    def f8_rule():
        for n in BRANCHES:
            judge("F8 " + n, lambda lo, hi: (n, "e1", {"e1": Target(1, lo, hi)}), f8run, 2, ck.fnline(F.table[n].vect))
        for n, (op, mx) in COND.items():
            judge("F8 " + n, lambda lo, hi: (n, "e1,e2", {"e1": (0, mx, 1), "e2": Target(1, lo, hi)}), f8run, 2, ck.fnline(F.table[n].vect))

    for shape, names in cs.items():
        ck.rule(shape_rule, shape, names)
    ck.rule(f8_rule)
    ck.need("exact", 300)
    ck.need("out of range", 300)


if __name__ == "__main__":
    main("C07", run)
