"""C13: unresolved values never reach a finished output file."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.f8 import *
from vsa.emit import *

FULL = (-M63 - 1, M63, 0)
WRITTEN = dict({m: m for m in MODES}, WORDADR="BYTEADR", WORDADRX="BYTEADRX", WORDADRY="BYTEADRY", LONG="BYTEADR")


def run(ck):
    M = Mnem(ck)
    cs = combos(ck.m, TABLES)

    def check(rule, inst, rs, where):
        ck.ob(rule, inst, len(rs) > 0, "no result", where)
        for r in rs:
            ck.ob(rule, inst, r.fails, "a value that is not resolved is used and no other pass follows", where)

    def instr(shape, names):
        cmos, flags, modes = shape
        cpu = 16502 if cmos else 6502
        seen = set()
        for mode, _ in modes:
            if flags & M.IMOD:
                form = "BYTEADR"
                kinds = ["val", "val"]
            elif mode == "IMP":
                continue
            else:
                form = WRITTEN.get(mode, mode)
                if cmos and mode == "INDWORD" and "INDWORDX" in dict(modes):
                    form = "INDBYTE"
                if form == "REL":
                    kinds = []
                    form = "BYTEADR"
                else:
                    kinds = ["val"]
            if flags & M.MASK:
                kinds = kinds + ["val"]
            if flags & M.REL or mode in ("REL", "BYTEREL"):
                kinds = kinds + ["rel"]
            if (form, tuple(kinds)) in seen:
                continue
            seen.add((form, tuple(kinds)))
            for seg in (0, M.SFR):
                for k in range(len(kinds)):
                    for cl in ("unresolved",):
                        ops = []
                        for i, kd in enumerate(kinds):
                            ops.append(cl if i == k else (0, 7, 1) if kd == "val" else Target(4))
                        rs = M.run(shape, ops, form, cpu=cpu, segflags=seg)
                        check("instruction", "%s %s operand %d%s" % (names[0], mode, k + 1, " relocated" if seg else ""), rs, M.where)

    def f8():
        F = F8(ck)

        def bad(name, text, ops, **kw):
            e = F.table.get(name)
            if e is None:
                raise AnalysisBroken("%s not in the F8 table" % name)
            check("f8", "%s %s %s" % (name, text, " ".join("%s" % (v,) for v in ops.values())), F.go(name, text, ops, **kw) or [], ck.fnline(e.vect))
        U = "unresolved"
        for n in list(BYTE) + list(WORD) + list(NIB) + list(SHIFT) + list(SREG) + list(BRANCHES):
            bad(n, "e1", {"e1": U})
        for a in SPECIAL:
            bad("lr", a + ",e1", {"e1": U})
            bad("lr", "e1," + a, {"e1": U})
        bad("lr", "e1,e2", {"e1": U, "e2": U})
        for n, (op, mx) in COND.items():
            bad(n, "e1,e2", {"e1": U, "e2": Target(1)})
            bad(n, "e1,e2", {"e1": (0, mx, 1), "e2": U})

    def emission():
        """Bytes of a segment whose origin is not known ask for another pass."""
        E = Emit(ck)
        w = E.w
        for fmt in K("FORMAT_RAW", "FORMAT_RAS", "FORMAT_DEFAULT"):
            for fl in (0, E.SFR):
                for fresh in (True, False):
                    for n in (1, 2, 8):
                        inst = "format %d %s %d bytes%s" % (fmt, "first" if fresh else "later", n, " relocated" if fl else "")
                        s = E.state(fmt, 0, fl, True)
                        if not fresh:
                            s0 = E.state(fmt, 0, 0, True, org=T.sub(ORG, C(2, 64)))
                            rs = [x for x in E.emit(s0, [C(1, 8), C(2, 8)]) if x[1] == "return"]
                            if len(rs) != 1:
                                ck.ob("unknown origin", inst, False, "first emission undecided", E.where)
                                continue
                            s = rs[0][0]
                        E.setseg(s, "flags", fl | K("SF_UNKNOWN"))
                        rs = [Result(E, st, C(0, 32), kind) for st, kind in E.emit(s, [sym("byte%d" % i, 8) for i in range(n)])]
                        check("unknown origin", inst, rs, E.where)

    D = Data(ck)
    F8T = {e.name: e for e in mne_table(ck.m, "MneF8")}
    UN = lambda: Num("unresolved", True)

    def where(n):
        e = D.ops.get(n) or F8T.get(n)
        if e is None:
            raise AnalysisBroken("directive %s not in the table" % n)
        return e, ck.fnline(e.vect)

    def data():
        for n in ("dc", "byte", ".byte", "word", ".word", "long", "db", "dw", "dd"):
            if n.startswith(".") and n not in D.ops:
                continue
            e, wh = where(n)
            for mn in ((-1, "BYTEADR", "WORDADR", "LONG", "OTHER_ENDIAN") if n == "dc" else (-1,)):
                for msb in (0, 1):
                    for k in range(4):
                        for other in (lambda: Num("1..255"), lambda: Str(2)):
                            items = [UN() if i == k else other() for i in range(4)]
                            check("data", "%s %s item %d of 4 %s" % (n, mn, k + 1, other()), D.run(D.state(items, mn, msb), e), wh)
                    check("data", "%s %s alone" % (n, mn), D.run(D.state([UN()], mn, msb), e), wh)

    def dv():
        e, wh = where("dv")
        w = D.w

        def st(items, eqm, mn):
            s = D.state(items, mn, 0)
            f = w.mkobj(s, "eqmsym", None, "zero")
            w.fset(s, f, "_SYMBOL", "flags", D.MACRO)
            w.fset(s, f, "_SYMBOL", "string", w.mkstr(s, "eqmtext", ".. + 1"))
            s.note["found"] = f
            ev = dict(s.note["evals"])
            p = D.operands(s, [eqm], "eqm")
            ev["H:eqmtext"] = p
            s.note["evals"] = tuple(ev.items())
            return s
        for mn in (-1, "BYTEADR", "WORDADR", "LONG"):
            for k in range(3):
                items = [UN() if i == k else Num("1..255") for i in range(3)]
                check("dv", "%s element %d of 3" % (mn, k + 1), D.run(st(items, UN(), mn), e, "name text"), wh)
            for items in ([Num("1..255")], [Num("1..255"), Num(3)], [Str(1)]):
                check("dv", "%s EQM body, %d items" % (mn, len(items)), D.run(st(items, UN(), mn), e, "name text"), wh)

    def counts():
        for n in ("ds", "res"):
            e, wh = where(n)
            for mn in (-1, "BYTEADR", "WORDADR", "LONG"):
                for it in ([UN()], [Num(3), UN()], [UN(), Num(5)], [UN(), UN()]):
                    check("space", "%s %s %s" % (n, mn, it), D.run(D.state(it, mn), e), wh)
        e, wh = where("align")
        for seg, rfl, why in ((0, 0, ""), (D.SFR, 0, " relocated")):
            for it, what in (([UN()], "boundary"), ([Num(4), UN()], "filler"), ([UN(), Num(4)], "boundary and filler"), ([UN(), UN()], "both")):
                check("align", what + why, D.run(D.state(it, -1, 0, segflags=seg, rflags=rfl, org=5, rorg=9), e), wh)
            for k in (1, 4, 256):
                check("align", "to %d at unknown address%s" % (k, why),
                      D.run(D.state([Num(k)], -1, 0, segflags=seg | (0 if seg else D.SFU), rflags=D.SFU if seg else 0, org=5, rorg=9), e), wh)

    def origin():
        e, wh = where("org")
        for seg in (0, D.SFR, D.SFB, D.SFU):
            for it, what in (([UN()], "address"), ([UN(), Num("1..255")], "address with fill"), ([Num("256..65535"), UN()], "fill"), ([UN(), UN()], "both")):
                check("origin", "org %s flags %#x" % (what, seg), D.run(D.state(it, segflags=seg), e), wh)
        e, wh = where("rorg")
        for seg in (0, D.SFR, D.SFB, D.SFU):
            check("origin", "rorg flags %#x" % seg, D.run(D.state([UN()], segflags=seg), e), wh)

    N = Nest(ck)

    def nest():
        class R:
            pass

        def go(name, s):
            w = N.w
            out = []
            r0 = w.gget(s, "Redo")
            for st, kind in N.run(s, name):
                out.append(Result(N, st, r0, kind))
            return out
        for v in (0, 1, 2, 100, -1, -1000, sym("value", 64)):
            for frames in ("f", "fm", "ff"):
                inst = "%s value %s" % (frames, v)
                for ifs in ((), ((0, 1, 1),)):
                    check("if", inst, go("if", N.state(frames, ifs, value=v, unknown=True)), N.where("if"))
                check("repeat", inst, go("repeat", N.state(frames, value=v, unknown=True)), N.where("repeat"))

    def incbin():
        md = {"pfopen": lambda I, s, a, ins: I.mkptr("bin"), "getfilename": lambda I, s, a, ins: a[0],
              "fseek": lambda I, s, a, ins: C(0, 32), "ftell": lambda I, s, a, ins: C(100, 64),
              "fclose": lambda I, s, a, ins: C(0, 32), "free": lambda I, s, a, ins: None,
              "fread": lambda I, s, a, ins: C(0, 64)}
        B = Data(ck, md)
        e, wh = where("incbin")
        for redo in (0, 1):
            for it in ([Str(3), UN()], [UN()]):
                s = B.state(it)
                B.w.gset(s, "Redo", redo)
                check("incbin", "%s redo %d" % (it, redo), B.run(s, e), wh)

    for shape, names in cs.items():
        ck.rule(instr, shape, names)
    for g in (f8, emission, data, dv, counts, origin, nest, incbin):
        ck.rule(g)
    for r, n in (("instruction", 300), ("unknown origin", 36), ("f8", 60), ("data", 200), ("dv", 20), ("space", 32), ("align", 14),
                 ("origin", 20), ("if", 30), ("repeat", 20), ("incbin", 4)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C13", run)
