"""C09: DS and ALIGN."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.data import *

MULT = {-1: 1, "BYTEADR": 1, "WORDADR": 2, "LONG": 4}
ANY = (-M63 - 1, M63, 0)


def run(ck):
    D = Data(ck, real=("genfill",), advance=True)
    w = D.w
    F8 = {e.name: e for e in mne_table(ck.m, "MneF8")}
    ents = [D.ops.get("ds"), F8.get("res")]
    al = D.ops.get("align")

    def emitted(r):
        out = []
        for g in r.gens:
            if g[2] is None:
                return None
            out += g[2]
        return out

    def order(r):
        ev = [x[0] for x in r.st.trace if x[0] in ("label", "gen")]
        return ev

    def ds(e, counts):
        where = ck.fnline(e.vect)
        for mnext, size in MULT.items():
            for msb in ((0, 1) if size > 1 else (0,)):
                for n in counts:
                    for filler in ([Num(ANY)], []):
                        inst = "%s %s count %d%s %s" % (e.name, mnext, n, " with filler" if filler else "", "high byte first" if msb else "low byte first")
                        rs = D.run(D.state([Num(n)] + filler, mnext, msb), e)
                        ck.ob("ds", inst, len(rs) > 0, "no result", where)
                        for r in rs:
                            ok = r.kind == "return" and not r.errs and not r.redo
                            got = emitted(r) if ok else None
                            v = D.val(1) if filler else C(0, 64)
                            want = element(v, size, msb) * n
                            ck.ob("ds", inst, ok and same_bytes(w, r.st, got, want),
                                  "emits %s bytes %s, expected %d of %s" % (
                                      len(got) if got is not None else "undetermined", showb(got[:4] if got else got), len(want), showb(want[:size])), where)
                            if n:
                                ck.ob("ds label", inst, order(r)[:1] == ["label"] and order(r).count("label") == 1, "label not at the first byte", where)

    def neg(e):
        where = ck.fnline(e.vect)
        for mnext in MULT:
            for cl in ((-M63 - 1, -1, 0), (-1, -1, 0)):
                for r in D.run(D.state([Num(cl)], mnext), e):
                    ck.ob("negative count", "%s %s %s" % (e.name, mnext, cl[:2]), r.fails and not r.gens, "accepted", where)

    def unresolved(e):
        where = ck.fnline(e.vect)
        for it in ([Num("unresolved", True)], [Num(3), Num("unresolved", True)], [Num("unresolved", True), Num(5)]):
            for r in D.run(D.state(it, -1), e):
                if r.kind == "return":
                    ck.ob("unresolved", "%s %s" % (e.name, it), r.redo_sure, "no further pass", where)

    def align(ns, addrs):
        where = ck.fnline(al.vect)
        for rel in (0, D.SFR):
            for n in ns:
                for a in addrs:
                    for filler in ([Num(ANY)], []):
                        inst = "align %d at %d%s%s" % (n, a, " with filler" if filler else "", " relocated" if rel else "")
                        s = D.state([Num(n)] + filler, -1, 0, segflags=rel, org=a if not rel else a + 7, rorg=a if rel else a + 13)
                        rs = D.run(s, al)
                        ck.ob("align", inst, len(rs) > 0, "no result", where)
                        for r in rs:
                            ok = r.kind == "return" and not r.errs and not r.redo
                            got = emitted(r) if ok else None
                            v = T.extract(D.val(1), 0, 8) if filler else C(0, 8)
                            want = [v] * (-a % n)
                            ck.ob("align", inst, ok and same_bytes(w, r.st, got, want),
                                  "emits %s bytes, expected %d" % (len(got) if got is not None else "undetermined", len(want)), where)
                            if ok:
                                lab = [x for x in r.st.trace if x[0] == "label"]
                                pc = lab[0][2][1 if rel else 0] if len(lab) == 1 else None
                                ck.ob("align label", inst, pc is not None and isc(pc) and cv(pc) == a + (-a % n), "label is not the aligned address", where)

    def align_unresolved():
        where = ck.fnline(al.vect)
        for it, seg, rfl, why in (([Num("unresolved", True)], 0, 0, "boundary"), ([Num(4), Num("unresolved", True)], 0, 0, "filler"),
                                  ([Num(4)], D.SFU, 0, "origin"), ([Num(4)], D.SFR, D.SFU, "relocated origin"),
                                  ([Num("unresolved", True)], D.SFR, 0, "boundary relocated")):
            for r in D.run(D.state(it, -1, 0, segflags=seg, rflags=rfl, org=5, rorg=9), al):
                if r.kind == "return":
                    ck.ob("unresolved", "align " + why, r.redo_sure, "no further pass", where)

    for e in ents:
        if e is None:
            ck.ob("available", "ds/res", False, "directive missing")
            continue
        big = [1023, 1024, 1025, 2048, 2049, 3000] if e.name == "ds" else [1025]
        ck.rule(ds, e, [0, 1, 2, 3, 5, 255, 256, 257, 511, 512, 513] + big)
        ck.rule(neg, e)
        ck.rule(unresolved, e)
    ck.rule(align, [1, 2, 3, 4, 16, 100, 256, 1000, 1024, 4096], [0, 1, 2, 3, 15, 255, 256, 257, 1000, 3001, 65535])
    ck.rule(align_unresolved)
    ck.need("ds", 100)
    ck.need("negative count", 8)
    ck.need("align", 200)
    ck.need("unresolved", 8)


if __name__ == "__main__":
    main("C09", run)
