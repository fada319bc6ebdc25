"""C36: every pass starts from the same state."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *

# what the lines of a pass may leave behind: global -> value
LEFT = {"Localindex": 17, "Lastlocalindex": 23, "Localdollarindex": 31, "Lastlocaldollarindex": 37, "SymbolCount": 41, "CheckSum": 4711,
        "Fisclear": 0, "OrgFill": 7, "ListMode": 0}
WHAT = {"Localindex": "scope of '.' labels", "Lastlocalindex": "last scope of '.' labels", "Localdollarindex": "scope of '$' labels",
        "Lastlocaldollarindex": "last scope of '$' labels", "SymbolCount": "symbol order", "CheckSum": "checksum", "Fisclear": "output position",
        "OrgFill": "ORG fill byte", "ListMode": "listing switch"}


def run(ck):
    real = ("clearsegs", "clearrefs")
    M = Main(ck, real=real)
    w = M.w
    where = ck.fnline("main")
    UNK, REF, STRING = K("SYM_UNKNOWN", "SYM_REF", "SYM_STRING")
    SFU, SFR, SFB, SFREF = K("SF_UNKNOWN", "SF_RORG", "SF_BSS", "SF_REF")
    for g in LEFT:
        if g not in ck.m.globals:
            raise AnalysisBroken("%s not found" % g)
    nb = ck.m.globals["SHash"].ty.size // 8
    SEGF = ("flags", "rflags", "initflags", "initrflags")
    SYMS = [(0, 0, REF), (0, 1, REF | UNK), (1, 0, UNK), (nb // 2, 0, REF), (nb - 1, 0, REF), (nb - 1, 1, 0), (nb - 1, 2, REF | UNK)]

    def probe(I, s):
        g = tuple((n, I.gget(s, n)) for n in sorted(LEFT))
        cs = I.gget(s, "Csegment")
        segs = []
        p = I.gget(s, "Seglist")
        for i in range(6):
            if isc(p):
                break
            segs.append((p, tuple(I.fget(s, p, "_SEGMENT", f) for f in SEGF)))
            p = I.fget(s, p, "_SEGMENT", "next")
        syms = tuple((I.fget(s, obj("H:sym%d" % i), "_SYMBOL", "flags"), I.fget(s, obj("H:sym%d" % i), "_SYMBOL", "value")) for i in range(len(SYMS)))
        s.ev("probe", g, cs, tuple(segs), syms)

    def mess(order):
        def f(I, s):
            k = sv(I.gget(s, "pass"))
            for n, v in LEFT.items():
                I.gset(s, n, v)
            if k == 1:
                last = I.gget(s, "Seglist")
                for i in range(order):
                    q = I.mkobj(s, "seg%d" % i, None, "zero")
                    I.fset(s, q, "_SEGMENT", "next", last)
                    I.fset(s, q, "_SEGMENT", "name", I.mkstr(s, "segname%d" % i, "s%d" % i))
                    last = q
                I.gset(s, "Seglist", last)
            p = I.gget(s, "Seglist")
            i = 0
            while not isc(p):
                for f2, v in zip(SEGF, ((SFB if i % 2 == 0 else 0) | SFR | (SFU if i % 3 else 0), UNK if i % 2 else 0, SFR if i % 2 else 0, 0)):
                    I.fset(s, p, "_SEGMENT", f2, v)
                I.fset(s, p, "_SEGMENT", "org", 100 + i)
                I.fset(s, p, "_SEGMENT", "rorg", 200 + i)
                p = I.fget(s, p, "_SEGMENT", "next")
                i += 1
            I.gset(s, "Csegment", obj("H:seg0") if order else I.gget(s, "Seglist"))
            for i, (b, d, fl) in enumerate(SYMS):
                q = obj("H:sym%d" % i)
                I.fset(s, q, "_SYMBOL", "flags", fl)
                I.fset(s, q, "_SYMBOL", "value", sym("value%d" % i, 64))
            I.gset(s, "Redo", k if k < 3 else 0)
        return f

    def setup(s):
        heads = {}
        for i, (b, d, fl) in reversed(list(enumerate(SYMS))):
            q = w.mkobj(s, "sym%d" % i, None, "zero")
            w.fset(s, q, "_SYMBOL", "next", heads.get(b, C(0, 64)))
            w.fset(s, q, "_SYMBOL", "name", w.mkstr(s, "symname%d" % i, "n%d" % i))
            w.fset(s, q, "_SYMBOL", "namelen", 2)
            heads[b] = q
        for b, q in heads.items():
            w.gset(s, "SHash", q, 8 * b, 8)

    def passes(order, args):
        script = []
        for k in range(3):
            script += [Line(word="probe", flags=0, effect=probe), Line(word="mess", flags=0, effect=mess(order)), None]
        rs = M.go(script, args=args, setup=setup)
        ck.ob("passes", "%d segments %s" % (order + 1, args), len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            ps = [e for e in flat(st.trace) if e[0] == "probe"]
            inst = "%d segments %s" % (order + 1, " ".join(args))
            ck.ob("passes", inst, len(ps) == 3, "%d passes analysed" % len(ps), where)
            if len(ps) != 3:
                continue
            _, g0, cs0, segs0, syms0 = ps[0]
            for k in (1, 2):
                _, g, cs, segs, syms = ps[k]
                for (n, a), (_, b) in zip(g0, g):
                    ck.ob("initial state", "%s in pass %d, %s" % (WHAT[n], k + 1, inst), same(w, st, a, b), "is %s, was %s at the start of pass 1" % (b, a), where)
                ck.ob("current segment", "pass %d, %s" % (k + 1, inst), cs is cs0, "is %s, was %s" % (cs, cs0), where)
                init = segs0[0][1]
                ck.ob("segments kept", "pass %d, %s" % (k + 1, inst), len(segs) == order + 1, "%d segments" % len(segs), where)
                for i, (p, f) in enumerate(segs):
                    bss = i % 2 == 0
                    for nm, a, b in zip(SEGF, init, f):
                        want = (cv(a) | (SFB if bss and nm == "flags" else 0)) if isc(a) else None
                        ck.ob("segment origin", "%s of segment %d in pass %d, %s" % (nm, i, k + 1, inst), isc(b) and cv(b) == want,
                              "is %s, expected %s" % (b, want), where)
                for i, ((b, d, fl), (f, v)) in enumerate(zip(SYMS, syms)):
                    ck.ob("reference marks", "symbol %d in pass %d, %s" % (i, k + 1, inst), isc(f) and cv(f) == (fl & ~REF), "flags %s" % f, where)
                    ck.ob("symbols kept", "symbol %d in pass %d, %s" % (i, k + 1, inst), v is sym("value%d" % i, 64), "value %s" % v, where)
            opens = [e for e in flat(st.trace) if e[0] == "fopen" and e[1] == "a.out"]
            ck.ob("output restarted", inst, len(opens) == 3 and all(e[2].startswith("w") for e in opens), "output opened %d times" % len(opens), where)
            if "-llist" in args:
                opens = [e for e in flat(st.trace) if e[0] == "fopen" and e[1] == "list"]
                ck.ob("listing restarted", inst, len(opens) == 3 and all(e[2].startswith("w") for e in opens), "listing opened %d times" % len(opens), where)

    for order in (0, 1, 2, 3):
        for args in ((), ("-f2",), ("-llist",), ("-v2",)):
            ck.rule(passes, order, args)
    for r, n in (("initial state", 200), ("segment origin", 100), ("reference marks", 100), ("current segment", 20), ("output restarted", 10)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C36", run)
