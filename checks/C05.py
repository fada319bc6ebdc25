"""C05: layout of an assembled instruction."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mnem import *

WRITTEN = {n: f for f, fam in FORMS.items() for n in fam}
WRITTEN["INDWORDX"] = "INDBYTEX"


def run(ck):
    M = Mnem(ck)
    w = M.w
    cs = combos(ck.m, TABLES)
    ck.cov["mnemonic_shapes"] = len(cs)
    ck.cov["mnemonics"] = sum(len(v) for v in cs.values())
    WORD = ["1..255", "256..65535", ">65535", "-255..-1"]

    def value_classes(shape, mode, form):
        """Value classes for which the documented choice is this mode."""
        n = OPSIZE[mode]
        if n == 0:
            return ["0"] if form != "IMP" else [None]
        fam = [x for x in FORMS[form] if x in dict(shape[2])]
        smaller = any(OPSIZE[x] == 1 for x in fam if x != mode) and n == 2
        out = []
        if not any(OPSIZE[x] < n for x in fam if x != mode):
            out.append("0")
        if n == 1:
            return out + ["1..255", "-255..-1"]
        return out + (["256..65535", ">65535"] if smaller else WORD)

    def layout(shape, names, mode):
        cmos, flags, modes = shape
        cpu = 16502 if cmos else 6502
        imod = flags & M.IMOD
        tag = "%s %s" % (names[0], mode)
        ob = opbytes(shape, mode)
        pcs = [0, M.SFR]
        if imod:
            cls = [((0, 7, 1),)]
            form = "BYTEADR"
        else:
            if cmos and mode in ("INDBYTE", "INDBYTEX") and "INDWORDX" in dict(modes):
                return                   # marker entries, encoded as the word modes
            form = WRITTEN[mode]
            if cmos and mode == "INDWORD" and "INDWORDX" in dict(modes):
                cls = [(c,) for c in ["0"] + WORD]
                form = "INDBYTE"
            else:
                cls = [(c,) for c in (["0"] + WORD if mode == "INDWORDX" else value_classes(shape, mode, form))]
        rel = bool(flags & M.REL) or mode in ("REL", "BYTEREL")
        for cl in cls:
            for msb in (0, 1):
                for seg in (pcs if rel else [0]):
                    want = list(ob)
                    ops = []
                    if imod:
                        ops = [(0, 7, 1), "1..255"]
                        want[0] = T.add(want[0], T.extract(T.shl(VAL[0], C(1, 64)), 0, 8))
                        want += [T.extract(VAL[1], 0, 8)]
                    elif mode == "REL" or cl[0] is None:
                        pass
                    else:
                        ops = [cl[0]]
                        want += operand_bytes(mode, M.val(0, cl[0]), msb)
                    if flags & M.MASK:
                        k = len(ops)
                        ops.append((-128, 255, 1))
                        want.append(T.extract(VAL[k], 0, 8))
                    if rel:
                        want.append(T.extract(DISP, 0, 8))
                        ops.append(Target(len(want)))
                    inst = "%s value %s %s%s" % (tag, cl[0], "high byte first" if msb else "low byte first", " relocated" if seg else "")
                    rs = M.run(shape, ops, form, msb=msb, cpu=cpu, segflags=seg)
                    ck.ob("layout", inst, len(rs) > 0, "no result", M.where)
                    for r in rs:
                        ck.ob("layout", inst, r.kind == "return" and not r.errs and len(r.gens) == 1, "not assembled", M.where)
                        if r.kind == "return" and not r.errs:
                            ck.ob("layout", inst, same_bytes(w, r.st, r.bytes, want),
                                  "emits %s, expected %s" % (showb(r.bytes), showb(want)), M.where)
                            ck.ob("label first", inst, r.labels == 1 and first_label(r), "label not defined before the bytes", M.where)

    def first_label(r):
        ev = [e[0] for e in r.st.trace]
        return "label" in ev and "gen" in ev and ev.index("label") < ev.index("gen") and \
            ("eval" not in ev or ev.index("label") < ev.index("eval"))

    def unresolved(shape, names, mode):
        """An instruction whose operands are unresolved still has its (largest) length."""
        cmos, flags, modes = shape
        cpu = 16502 if cmos else 6502
        tag = "%s %s" % (names[0], mode)
        imod = flags & M.IMOD
        if imod:
            form, n = "BYTEADR", 2
            nops = 2
        else:
            if mode in ("IMP",) or (cmos and mode in ("INDBYTE", "INDBYTEX") and "INDWORDX" in dict(modes)):
                return
            form = WRITTEN[mode]
            if cmos and mode == "INDWORD" and "INDWORDX" in dict(modes):
                form = "INDBYTE"
            fam = [x for x in FORMS.get(form, [mode]) if x in dict(modes)]
            if fam and fam[-1] != mode and mode not in ("INDWORDX", "INDWORD"):
                return
            n = len(opbytes(shape, mode)) + OPSIZE[mode]
            nops = 0 if mode == "REL" else 1
        if flags & M.MASK:
            n += 1
            nops += 1
        rel = bool(flags & M.REL) or mode in ("REL", "BYTEREL")
        if rel:
            n += 1
            nops += 1
        rs = M.run(shape, ["unresolved"] * nops, form, cpu=cpu)
        for r in rs:
            if r.kind != "return":
                continue
            ck.ob("unresolved length", tag, len(r.gens) == 1 and isc(r.gens[0][1]) and cv(r.gens[0][1]) == n,
                  "emits %s bytes, expected %d" % (r.gens and r.gens[0][1], n), M.where)

    for shape, names in cs.items():
        for mode, _ in shape[2]:
            ck.rule(layout, shape, names, mode)
            ck.rule(unresolved, shape, names, mode)
    ck.need("layout", 1500)
    ck.need("label first", 700)
    ck.need("unresolved length", 100)


if __name__ == "__main__":
    main("C05", run)
