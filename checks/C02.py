"""C02: F8 operands."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.f8 import *

BIG = [(-M63 - 1, -1, 0)]


def run(ck):
    F = F8(ck)
    w = F.w

    def where(name):
        e = F.table.get(name)
        return ck.fnline(e.vect) if e else "MneF8"

    def good(name, text, ops, want, rule="encoded"):
        inst = "%s %s %s" % (name, text, " ".join("%s" % (v,) for v in ops.values()))
        rs = F.go(name, text, ops)
        if not rs:
            ck.ob(rule, inst, False, "instruction not available", "MneF8")
            return
        for r in rs:
            ok = r.kind == "return" and not r.errs and not r.redo and len(r.gens) == 1
            ck.ob(rule, inst, ok and same_bytes(w, r.st, r.bytes, want),
                  "emits %s, expected %s" % (showb(r.bytes) if ok else "nothing or an error", showb(want)), where(name))

    def bad(name, text, ops, rule="rejected"):
        inst = "%s %s %s" % (name, text, " ".join("%s" % (v,) for v in ops.values()))
        rs = F.go(name, text, ops)
        if not rs:
            ck.ob(rule, inst, False, "instruction not available", "MneF8")
            return
        for r in rs:
            ck.ob(rule, inst, r.fails, "accepted, emits %s" % showb(r.bytes), where(name))

    def unres(name, text, ops, n):
        inst = "%s %s unresolved" % (name, text)
        for r in F.go(name, text, ops) or []:
            if r.kind == "return":
                ck.ob("unresolved", inst, r.redo_sure and len(r.gens) == 1 and isc(r.gens[0][1]) and cv(r.gens[0][1]) == n,
                      "no further pass or wrong length", where(name))

    def b(v):
        return C(v & 255, 8)

    v0 = T.extract(VAL[0], 0, 8)
    low = lambda t: T.extract(t, 0, 8)

    def imm():
        for n, op in BYTE.items():
            good(n, "e1", {"e1": (0, 255, 1)}, [b(op), v0])
            bad(n, "e1", {"e1": (256, M63, 1)})
            for r in BIG:
                bad(n, "e1", {"e1": r})
            unres(n, "e1", {"e1": "unresolved"}, 2)
        for n, op in WORD.items():
            good(n, "e1", {"e1": (0, 65535, 2)}, [b(op), T.extract(VAL[0], 8, 8), v0])
            bad(n, "e1", {"e1": (65536, M63, 1)})
            for r in BIG:
                bad(n, "e1", {"e1": r})
            unres(n, "e1", {"e1": "unresolved"}, 3)
        for n, (op, mx) in NIB.items():
            good(n, "e1", {"e1": (0, mx, 1)}, [T.add(C(op, 8), v0)])
            bad(n, "e1", {"e1": (mx + 1, M63, 1)})
            for r in BIG:
                bad(n, "e1", {"e1": r})
            unres(n, "e1", {"e1": "unresolved"}, 1)
        for n, d in SHIFT.items():
            for v, op in d.items():
                good(n, "e1", {"e1": v}, [b(op)])
            for r in ((0, 0, 1), (2, 3, 1), (5, M63, 1), (-M63 - 1, -1, 1)):
                bad(n, "e1", {"e1": r})
            unres(n, "e1", {"e1": "unresolved"}, 1)
        for n, op in IMPLIED.items():
            e = F.table.get(n)
            ck.ob("implied", n, e is not None and e.vect == "v_mnemonic" and e.modes == {F.AM["IMP"]: op},
                  "table entry %s" % (e and e.modes), "MneF8")

    def cases(t):
        return [t] if t.upper() == t else [t, t.upper()]

    def sreg():
        for n, op in SREG.items():
            for nm, k in SNAMES.items():
                for t in cases(nm):
                    good(n, t, {}, [b(op | k)], "register")
            good(n, "e1", {"e1": (0, 14, 1)}, [T.add(C(op, 8), v0)], "register")
            bad(n, "e1", {"e1": (15, M63, 1)})
            for r in BIG:
                bad(n, "e1", {"e1": r})

    def lrs():
        regs = list(SPECIAL.items()) + list(SNAMES.items())
        for a, ka in regs:
            for c, kc in regs:
                op = lr(ka, kc)
                for t in ("%s,%s" % (a, c), ("%s,%s" % (a, c)).upper()):
                    if op is not None:
                        good("lr", t, {}, [b(op)], "lr")
                    else:
                        bad("lr", t, {}, "lr rejected")
        for a, ka in SPECIAL.items():
            for lo, hi in ((0, 8), (9, 9), (10, 14)):
                d = {"e1": (lo, hi, 1)}
                v = b(9) if lo == hi else v0
                if lo == hi:
                    d = {"e1": 9}
                if ka == "a":
                    good("lr", a + ",e1", d, [T.add(C(0x40, 8), v)], "lr")
                    good("lr", "e1," + a, d, [T.add(C(0x50, 8), v)], "lr")
                elif lo == 9 and ka == "w":
                    good("lr", a + ",e1", d, [b(0x1d)], "lr")
                    good("lr", "e1," + a, d, [b(0x1e)], "lr")
                else:
                    bad("lr", a + ",e1", d, "lr rejected")
                    bad("lr", "e1," + a, d, "lr rejected")
            for r in [(15, M63, 1)] + BIG:
                bad("lr", a + ",e1", {"e1": r}, "lr rejected")
                bad("lr", "e1," + a, {"e1": r}, "lr rejected")
        good("lr", "a, 5", {"5": 5}, [b(0x45)], "lr")
        good("lr", "a ,5", {"5": 5}, [b(0x45)], "lr")
        good("lr", "a , 5", {"5": 5}, [b(0x45)], "lr")
        for t in ("a", "a,5,6", ""):
            bad("lr", t, {"5": 5, "6": 6}, "lr rejected")
        unres("lr", "a,e1", {"e1": "unresolved"}, 1)
        unres("lr", "e1,a", {"e1": "unresolved"}, 1)

    def br():
        for n, op in BRANCHES.items():
            good(n, "e1", {"e1": Target(1)}, [b(op), low(DISP)])
            unres(n, "e1", {"e1": "unresolved"}, 2)
        for n, (op, mx) in COND.items():
            good(n, "e1,e2", {"e1": (0, mx, 1), "e2": Target(1)}, [T.add(C(op, 8), v0), low(DISP)])
            bad(n, "e1,e2", {"e1": (mx + 1, M63, 1), "e2": Target(1)})
            bad(n, "e1,e2", {"e1": (-M63 - 1, -1, 1), "e2": Target(1)})
            for t in ("e1", "e1,e2,e3"):
                bad(n, t, {"e1": 1, "e2": Target(1), "e3": 1, "e1,e2": 1})
            unres(n, "e1,e2", {"e1": "unresolved", "e2": Target(1)}, 2)
            unres(n, "e1,e2", {"e1": (0, mx, 1), "e2": "unresolved"}, 2)

    for g in (imm, sreg, lrs, br):
        ck.rule(g)
    ck.need("encoded", 30)
    ck.need("rejected", 40)
    ck.need("register", 60)
    ck.need("lr", 90)
    ck.need("lr rejected", 700)
    ck.need("implied", 19)
    ck.need("unresolved", 30)


if __name__ == "__main__":
    main("C02", run)
