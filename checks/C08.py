"""C08: DC, DV, BYTE/WORD/LONG, DB/DW/DD, HEX."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.data import *
from vsa.sweep import Sweep

NAMED = {"byte": 1, "word": 2, "long": 4, "db": 1, "dw": 2, "dd": 4}
SUFFIX = {-1: 1, "BYTEADR": 1, "WORDADR": 2, "LONG": 4, "OTHER_ENDIAN": 2}
LISTS = [[Num("1..255")], [Num((-255, -1, 1))], [Num("1..255"), Num("0"), Num("1..255")], [Str(3)], [Num("1..255"), Str(2), Num((-255, -1, 1))],
         [Str(1), Str(0), Num("1..255")]]
WIDE = [[Num("256..65535")], [Num("256..65535"), Num((-65535, -256, 2))], [Num((-65535, -1, 2)), Str(2)]]
WIDER = [[Num(">65535")], [Num((-M63 - 1, M63, 4)), Num("256..65535")]]


def expected(D, items, size, msb):
    out = []
    for k, it in enumerate(items):
        if isinstance(it, Num):
            out += element(D.val(k), size, msb)
        else:
            for j in range(it.n):
                out += element(T.zext(sym("opndc%d_%d" % (k, j), 8), 64), size, msb)
    return out


def run(ck):
    D = Data(ck)
    w = D.w
    F8 = {}
    for e in mne_table(ck.m, "MneF8"):
        F8.setdefault(e.name, e)
    ents = {n: D.ops.get(n) for n in ("dc", "dv", "byte", "word", "long", "hex")}
    ents.update({n: F8.get(n) for n in ("db", "dw", "dd")})
    for n, e in ents.items():
        ck.ob("available", n, e is not None, "directive %s not in the table" % n, "globals.c")

    def lists(size):
        return LISTS + (WIDE if size >= 2 else []) + (WIDER if size >= 2 else [])

    def emits(rule, e, items, mnext, size, msb, swapped):
        where = ck.fnline(e.vect)
        inst = "%s%s %s %s" % (e.name, "" if mnext == -1 else " " + str(mnext), items, "high byte first" if msb else "low byte first")
        s = D.state(items, mnext, msb)
        rs = D.run(s, e)
        ck.ob(rule, inst, len(rs) > 0, "no result", where)
        for r in rs:
            ok = r.kind == "return" and not r.errs and not r.redo and len(r.gens) == 1
            want = expected(D, items, size, msb ^ swapped)
            ck.ob(rule, inst, ok and same_bytes(w, r.st, r.bytes, want),
                  "emits %s, expected %s" % (showb(r.bytes) if ok else "nothing or an error", showb(want)), where)
            ck.ob("label before data", inst, r.labels == 1 and [x[0] for x in r.st.trace].index("label") == 0, "label not defined first", where)

    def dc():
        for mnext, size in SUFFIX.items():
            for msb in (0, 1):
                for it in lists(size):
                    emits("dc", ents["dc"], it, mnext, size, msb, mnext == "OTHER_ENDIAN")

    def named():
        for n, size in NAMED.items():
            if ents[n] is None:
                continue
            for msb in (0, 1):
                for it in lists(size):
                    # whatever was in force before, the name decides the size
                    for mnext in (-1, "WORDADR"):
                        emits("named size", ents[n], it, mnext, size, msb, False)

    def dv():
        e = ents["dv"]
        where = ck.fnline(e.vect)
        for mnext, size in SUFFIX.items():
            for msb in (0, 1):
                for items in LISTS[:1] + LISTS[2:]:
                    inst = "dv %s %s msb %d" % (mnext, items, msb)
                    s = D.state(items, mnext, msb)
                    q = w.mkptr("eqmsym")
                    mac = w.mkstr(s, "eqmtext", "..+1")
                    w.fset(s, q, "_SYMBOL", "flags", D.MACRO)
                    w.fset(s, q, "_SYMBOL", "string", mac)
                    s.note["found"] = q
                    r1 = D.operands(s, [Num((-255, 255, 1))], "eqm")
                    s.note["evals"] = s.note["evals"] + (("H:eqmtext", r1),)
                    for r in D.run(s, e, "name 1,2"):
                        ok = r.kind == "return" and not r.errs and not r.redo and len(r.gens) == 1
                        ev = D.val(0, "eqm")
                        want, seq = [], []
                        for k, it in enumerate(items):
                            for v in ([D.val(k)] if isinstance(it, Num) else [T.zext(sym("opndc%d_%d" % (k, j), 8), 64) for j in range(it.n)]):
                                seq.append(v)
                                want += element(ev, size, msb ^ (mnext == "OTHER_ENDIAN"))
                        ck.ob("dv", inst, ok and same_bytes(w, r.st, r.bytes, want),
                              "emits %s, expected %s" % (showb(r.bytes) if ok else "nothing or an error", showb(want)), where)
                        if ok:
                            # each element is announced to '..' right before its evaluation
                            evs = [x for x in r.st.trace if x[0] == "special" or (x[0] == "eval" and x[1] == "H:eqmtext")]
                            good = len(evs) == 2 * len(seq) and all(
                                evs[2 * i][0] == "special" and evs[2 * i + 1][0] == "eval" and same(w, r.st, T.extract(evs[2 * i][1], 0, 32), T.extract(v, 0, 32))
                                for i, v in enumerate(seq))
                            ck.ob("dv element", inst, good, "element values not passed to the EQM expression", where)
                            fn = [x for x in r.st.trace if x[0] == "find"]
                            ck.ob("dv name", inst, len(fn) == 1 and isc(fn[0][1]) and sv(fn[0][1]) == 4, "EQM name not looked up", where)

    def dvline():
        """The label is followed by the operands, as written in the source."""
        S = Sweep(ck)
        S.w.gset(S.prelude(), "MsbOrder", 0)
        ev = [("..*2+3", lambda v: v * 2 + 3), ("[..+c5]*3", lambda v: (v + 42) * 3), ("c5-..", lambda v: 42 - v), ("..", lambda v: v)]
        for name in ("q", "qm", "a_long.name"):
            for text, fn in ev:
                for suffix, size in (("", 1), (".b", 1), (".w", 2), (".l", 4)):
                    for ops, vals in (("1", [1]), ("1,2,5", [1, 2, 5]), ("c5", [42]), ("2+3,4*5", [5, 20]), ('"ab"', [97, 98]), ('7,"a"', [7, 97])):
                        want = b"".join((fn(v) & (1 << 8 * size) - 1).to_bytes(size, "little") for v in vals)
                        if size == 1 and any(not -255 <= fn(v) <= 255 for v in vals):
                            continue
                        inst = "%s eqm %s; dv%s %s %s" % (name, text, suffix, name, ops)
                        rs = S.lines(S.base.copy(), ["%s eqm %s" % (name, text), " dv%s %s %s" % (suffix, name, ops)])
                        ck.ob("dv line", inst, len(rs) > 0, "no result", ck.fnline(ents["dv"].vect))
                        for st, kind in rs:
                            ok = kind == "return" and not has_err(st)
                            n = S.w.gget(st, "Glen")
                            got = [S.w.gget(st, "Gen", i, 1) for i in range(sv(n))] if isc(n) and 0 <= sv(n) <= 64 else []
                            ok = ok and all(isc(x) for x in got) and bytes(cv(x) for x in got) == want
                            ck.ob("dv line", inst, ok, "emits %s, expected %s" % (got, want.hex()), ck.fnline(ents["dv"].vect))

    def unresolved():
        for n in ("dc", "byte", "long"):
            e = ents[n]
            size = {"dc": 1, "byte": 1, "long": 4}[n]
            items = [Num("1..255"), Num("unresolved", True), Str(1)]
            for r in D.run(D.state(items, -1, 0), e):
                if r.kind == "return":
                    ck.ob("unresolved length", n, r.redo_sure and len(r.gens) == 1 and isc(r.gens[0][1]) and cv(r.gens[0][1]) == 3 * size,
                          "wrong length or no further pass", ck.fnline(e.vect))

    DIG = [((48, 57), -48), ((97, 102), -87), ((65, 70), -55)]

    def hexs():
        e = ents["hex"]
        where = ck.fnline(e.vect)

        def text(s, parts):
            so = w.mkobj(s, "text", len(parts) + 1, "zero")
            o = w.getobj(s, so.a[0]).mod()
            for i, p in enumerate(parts):
                if isinstance(p, str):
                    w.put(o, i, C(ord(p), 8))
                else:
                    w.limit(s, CH[p[0]], p[1])
                    w.put(o, i, CH[p[0]])
            s.mem[so.a[0]] = o
            return so

        def dig(i, off):
            return T.add(CH[i], C(off, 8))
        for a, oa in DIG:
            for b, ob in DIG:
                for layout in ("AB", "AB12", "f0AB", "12 AB", "AB  3c", " AB"):
                    s = D.state(None)
                    parts = [(0, (a,)) if c == "A" else (1, (b,)) if c == "B" else c for c in layout]
                    want = []
                    ds = [c for c in layout if c != " "]
                    for i in range(0, len(ds), 2):
                        if ds[i] == "A":
                            want.append(T.add(T.shl(dig(0, oa), C(4, 8)), dig(1, ob)))
                        else:
                            want.append(C(int(ds[i] + ds[i + 1], 16), 8))
                    for r in D.run(s, e, text(s, parts)):
                        ok = r.kind == "return" and not r.errs and len(r.gens) == 1
                        ck.ob("hex", "%s digits %s %s" % (layout, a, b), ok and same_bytes(w, r.st, r.bytes, want),
                              "emits %s, expected %s" % (showb(r.bytes) if ok else "nothing or an error", showb(want)), where)
        OTHER = ((1, 31), (33, 47), (58, 64), (71, 96), (103, 255))
        for layout in ("X1", "1X", "12X3", "123X", "12 X4"):
            s = D.state(None)
            parts = [(0, OTHER) if c == "X" else c for c in layout]
            rs = D.run(s, e, text(s, parts))
            ck.ob("bad hex digit", layout, len(rs) > 0, "no result", where)
            for r in rs:
                ck.ob("bad hex digit", layout, r.fails, "accepted", where)

    ck.rule(dc)
    ck.rule(named)
    ck.rule(dv)
    ck.rule(dvline)
    ck.rule(unresolved)
    ck.rule(hexs)
    ck.need("dc", 100)
    ck.need("named size", 200)
    ck.need("dv", 40)
    ck.need("dv element", 40)
    ck.need("dv line", 300)
    ck.need("hex", 50)
    ck.need("bad hex digit", 8)


if __name__ == "__main__":
    main("C08", run)
