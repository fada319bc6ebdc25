"""C06: values that do not fit are errors, values that fit are not."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.f8 import *
from vsa import data as DA


def run(ck):
    M = Mnem(ck)
    cs = combos(ck.m, TABLES)
    ck.cov["mnemonic_shapes"] = len(cs)
    HI, LO = (256, M63, 1), (-M63 - 1, -256, 1)
    FIT = [(0, 0, 1), (1, 255, 1), (-255, -1, 1)]
    STRICT_BAD = [(65536, M63, 2), (-M63 - 1, -65536, 2)]

    def go(shape, ops, form, **kw):
        return M.run(shape, ops, form, cpu=16502 if shape[0] else 6502, **kw)

    def instr(shape, names):
        cmos, flags, modes = shape
        have = dict(modes)
        tag = names[0]
        tail = []
        if flags & M.MASK:
            tail.append((0, 255, 1))
        rel = flags & M.REL
        n0 = 1
        if flags & M.IMOD:
            tgt = [Target(3)] if rel else []
            for cl in ((8, M63, 1), (-M63 - 1, -1, 1)):
                for r in go(shape, [cl, (0, 255, 1)] + tgt, "BYTEADR"):
                    ck.ob("bit number", "%s bit %s" % (tag, cl[:2]), r.fails, "accepted", M.where)
            for r in go(shape, [(0, 7, 1), HI] + tgt, "BYTEADR"):
                ck.ob("too large", "%s address of the bit" % tag, r.fails, "accepted", M.where)
            for cl in FIT[:2]:
                for r in go(shape, [(0, 7, 1), cl] + tgt, "BYTEADR"):
                    ck.ob("fits", "%s bit 0..7 address %s" % (tag, cl[:2]), not r.errs, "rejected", M.where)
            return
        for form in FORMS:
            fam = [n for n in FORMS[form] if n in have]
            if cmos and "INDWORDX" in have and form in ("INDBYTE", "INDBYTEX"):
                fam = ["INDWORDX" if form == "INDBYTEX" else "INDWORD"]
            if not fam or form == "IMP":
                continue
            last = fam[-1]
            if last == "REL":
                if flags & M.MASK:
                    for cl, bad in ((HI, True), ((0, 255, 1), False)):
                        for r in go(shape, [cl, Target(3)], form):
                            ck.ob("mask", "%s mask %s" % (tag, cl[:2]), r.fails if bad else not r.errs, "accepted" if bad else "rejected", M.where)
                continue
            # length for branches behind the operand
            mode1 = [n for n in fam if OPSIZE[n] == 1]
            tgt = []
            if rel or form == "BYTEREL":
                m1 = mode1[0] if mode1 else last
                tgt = [Target(len(opbytes(shape, m1)) + OPSIZE[m1] + (1 if flags & M.MASK else 0) + 1)]
            inst = "%s form %s" % (tag, form)
            if OPSIZE[last] == 1:
                for r in go(shape, [HI] + tail + tgt, form):
                    ck.ob("too large", inst, r.fails, "value above 255 accepted", M.where)
            if mode1 and form != "BYTEREL":
                for r in go(shape, [LO] + tail + tgt, form):
                    ck.ob("too small", inst, r.fails, "value below -255 accepted", M.where)
            if OPSIZE[last] >= 1:
                for cl in FIT[1:]:
                    for r in go(shape, [cl] + tail + tgt, form):
                        ck.ob("fits", "%s %s" % (inst, cl[:2]), not r.errs, "rejected", M.where)
            if OPSIZE[last] == 2:
                for cl in [(256, 65535, 2)] + ([] if mode1 else [(-65535, -256, 2)]):
                    for strict in (0, 1):
                        for r in go(shape, [cl] + tail + tgt, form, strict=strict):
                            ck.ob("fits", "%s %s%s" % (inst, cl[:2], " strict" if strict else ""), not r.errs, "rejected", M.where)
                for cl in STRICT_BAD[:1] if mode1 else STRICT_BAD:
                    for r in go(shape, [cl] + tail + tgt, form, strict=1):
                        ck.ob("strict", "%s %s" % (inst, cl[:2]), r.fails, "accepted in strict mode", M.where)
            if flags & M.MASK:
                k = (1, 255, 1)
                for cl, bad in ((HI, True), ((0, 255, 1), False)):
                    for r in go(shape, [k, cl] + tgt, form):
                        ck.ob("mask", "%s mask %s" % (inst, cl[:2]), r.fails if bad else not r.errs, "accepted" if bad else "rejected", M.where)

    for shape, names in cs.items():
        ck.rule(instr, shape, names)

    def f8():
        F = F8(ck)

        def t(name, text, ops, bad):
            inst = "%s %s" % (name, " ".join(str(x) for x in ops.values()))
            for r in F.go(name, text, ops) or []:
                ck.ob("f8 field" if bad else "f8 fits", inst, r.fails if bad else (not r.errs and not r.redo),
                      "accepted" if bad else "rejected", ck.fnline(F.table[name].vect))
        fields = [(n, 255) for n in BYTE] + [(n, 65535) for n in WORD] + [(n, mx) for n, (op, mx) in NIB.items()] + [(n, 14) for n in SREG]
        for n, mx in fields:
            t(n, "e1", {"e1": (0, mx, 1)}, False)
            t(n, "e1", {"e1": (mx + 1, M63, 1)}, True)
        for n, (op, mx) in COND.items():
            t(n, "e1,e2", {"e1": (0, mx, 1), "e2": Target(1)}, False)
            t(n, "e1,e2", {"e1": (mx + 1, M63, 1), "e2": Target(1)}, True)
        for n in SHIFT:
            t(n, "e1", {"e1": (5, M63, 1)}, True)

    def dc():
        D = DA.Data(ck)
        Num = DA.Num
        where = ck.fnline("v_dc")

        def t(name, mnext, cl, strict, bad):
            e = D.ops.get(name)
            for pos in (0, 1):
                items = [Num(cl)] if pos == 0 else [Num((0, 255, 1)), Num(cl)]
                for r in D.run(D.state(items, mnext, 0, strict=strict), e):
                    ck.ob("data" if bad else "data fits", "%s %s item %d %s%s" % (name, mnext, pos, cl[:2], " strict" if strict else ""),
                          r.fails if bad else not r.errs, "accepted" if bad else "rejected", where)
        for strict in (0, 1):
            for name, mnext in (("dc", -1), ("dc", "BYTEADR"), ("byte", -1)):
                for cl in (HI, LO):
                    t(name, mnext, cl, strict, True)
                for cl in FIT:
                    t(name, mnext, cl, strict, False)
        for name, mnext in (("dc", "WORDADR"), ("word", -1), ("dc", "OTHER_ENDIAN")):
            for cl in STRICT_BAD:
                t(name, mnext, cl, 1, True)
                t(name, mnext, cl, 0, False)
            for strict in (0, 1):
                for cl in ((-65535, -1, 2), (0, 65535, 2)):
                    t(name, mnext, cl, strict, False)
        for strict in (0, 1):
            t("dc", "LONG", (-M63 - 1, M63, 4), strict, False)
            t("long", -1, (-M63 - 1, M63, 4), strict, False)

    ck.rule(f8)
    ck.rule(dc)
    for rule, n in (("too large", 40), ("too small", 40), ("fits", 200), ("strict", 40), ("mask", 8), ("bit number", 4), ("f8 field", 20),
                    ("f8 fits", 20), ("data", 24), ("data fits", 30)):
        ck.need(rule, n)


if __name__ == "__main__":
    main("C06", run)
