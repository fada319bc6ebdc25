"""C23: propagation of 'unresolved' through operators and symbol references."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.expr import *
from C21 import V1, V2

Z = lambda t: T.eq(t, C(0, 64))
NZ = lambda t: T.bnot(Z(t))


def wanted(fn):
    """[(name, f1, f2, conditions, unresolved?)] for a binary function"""
    out = []
    if fn == "land":
        for f1, f2 in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for n1, c1 in (("0", Z(V1)), ("n", NZ(V1))):
                for n2, c2 in (("0", Z(V2)), ("n", NZ(V2))):
                    dec = (not f1 and n1 == "0") or (not f2 and n2 == "0") or not (f1 or f2)
                    out.append(("%s,%s" % (n1, n2), f1, f2, [c1, c2], not dec))
    elif fn == "lor":
        for f1, f2 in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for n1, c1 in (("0", Z(V1)), ("n", NZ(V1))):
                for n2, c2 in (("0", Z(V2)), ("n", NZ(V2))):
                    dec = (not f1 and n1 == "n") or (not f2 and n2 == "n") or not (f1 or f2)
                    out.append(("%s,%s" % (n1, n2), f1, f2, [c1, c2], not dec))
    elif fn == "cond":
        for f1, f2 in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for n1, c1 in (("0", Z(V1)), ("n", NZ(V1))):
                u = True if f1 else (False if n1 == "0" else bool(f2))
                out.append((n1, f1, f2, [c1], u))
    else:
        for f1, f2 in ((0, 0), (0, 1), (1, 0), (1, 1)):
            cs = [T.slt(C(0, 64), V2)] if fn in ("div", "mod") and not (f1 or f2) else []
            out.append(("any", f1, f2, cs, bool(f1 or f2)))
    return out


def unres(w, s, f):
    b = T.extract(f, 0, 1)
    r = w.range(s, w.subst(s, b))
    return None if len(r) != 1 or r[0][0] != r[0][1] else bool(r[0][0])


def run(ck):
    E = Expr(ck)
    w = E.w
    WH = ck.fnline("eval")
    SU, SR = K("SYM_UNKNOWN", "SYM_REF")
    if SU != 1:
        raise AnalysisBroken("SYM_UNKNOWN is not bit 0")
    divs = []

    def on_div(s, op, x, y, ins):
        z = w.truth(s, T.eq(y, C(0, y.w)))
        divs.append((w.where(ins), z))
    w.on_div = on_div

    def binary(op, fn):
        for name, f1, f2, conds, want in wanted(fn):
            inst = "v1 %s v2 [%s] operands %s/%s" % (op, name, "unresolved" if f1 else "resolved", "unresolved" if f2 else "resolved")
            n = 0
            for env, s in E.start(op, nargs=1, lastwasop=0):
                E.setarg(s, 0, V1, f1)
                for env2, s2, p in E.steps_to([(env, s)], len(op)):
                    if env2 is None:
                        continue
                    E.setarg(s2, 1, V2, f2)
                    w.gset(s2, "Argi", 2)
                    w.gset(s2, "Lastwasop", 0)
                    if not all(w.assume(s2, c) for c in conds):
                        continue
                    for st, rv in E.end(dict(env2), s2):
                        n += 1
                        u = unres(w, st, E.symf(st, rv, "flags"))
                        ck.ob("operator", inst, u is want, "result %s, documented %s" % (
                            {True: "unresolved", False: "resolved", None: "either"}[u], "unresolved" if want else "resolved"), WH)
                        if f1 != f2 and not want and fn in ("land", "lor"):
                            v = E.symf(st, rv, "value")
                            ck.ob("decided-value", inst, same(w, st, v, C(1 if fn == "lor" else 0, 64)), "value %s" % v, WH)
            ck.ob("operator", inst, n > 0, "no result", WH)

    def unary(op, fn):
        for f1 in (0, 1):
            def setup(s):
                p = w.mkptr("sym0")
                w.fset(s, p, "_SYMBOL", "value", V1)
                w.fset(s, p, "_SYMBOL", "flags", f1)
            n = 0
            for env, s in E.start(op + "a", nargs=0, lastwasop=1, setup=setup):
                for env2, s2, p in E.steps_to([(env, s)], len(op) + 1):
                    for st, rv in E.end(dict(env2), s2):
                        n += 1
                        u = unres(w, st, E.symf(st, rv, "flags"))
                        ck.ob("operator", "%sa %s" % (op, "unresolved" if f1 else "resolved"), u is bool(f1),
                              "result unresolved=%s" % u, WH)
            ck.ob("operator", "%sa" % op, n > 0, "no result", WH)

    def symbol():
        # undefined name
        for env, s in E.start("a", nargs=0, lastwasop=1, find="none"):
            for env2, s2, p in E.steps_to([(env, s)], 1):
                cr = [e for e in s2.trace if e[0] == "create"]
                ck.ob("undefined-symbol", "is created", len(cr) == 1, "%d creations" % len(cr), WH)
                fl = w.fget(s2, w.mkptr("newsym"), "_SYMBOL", "flags")
                ok = isc(fl) and cv(fl) & SU and cv(fl) & SR
                ck.ob("undefined-symbol", "is recorded as referenced and unresolved", bool(ok), "flags %s" % fl, WH)
                for st, rv in E.end(dict(env2), s2):
                    u = unres(w, st, E.symf(st, rv, "flags"))
                    ck.ob("undefined-symbol", "evaluates as unresolved", u is True, "unresolved=%s" % u, WH)
        # existing numeric symbol, resolved or not
        for fl in (0, SU):
            def setup(s):
                p = w.mkptr("sym0")
                w.fset(s, p, "_SYMBOL", "value", V1)
                w.fset(s, p, "_SYMBOL", "flags", fl)
            for env, s in E.start("a", nargs=0, lastwasop=1, setup=setup):
                for env2, s2, p in E.steps_to([(env, s)], 1):
                    f2 = w.fget(s2, w.mkptr("sym0"), "_SYMBOL", "flags")
                    ck.ob("symbol", "reference is recorded", isc(f2) and cv(f2) & SR and (cv(f2) & SU) == fl, "flags %s" % f2, WH)
                    ck.ob("symbol", "value", same(w, s2, E.argv(s2, 0), V1), "value %s" % E.argv(s2, 0), WH)
                    for st, rv in E.end(dict(env2), s2):
                        u = unres(w, st, E.symf(st, rv, "flags"))
                        ck.ob("symbol", "resolvedness is the symbol's", u is bool(fl), "unresolved=%s" % u, WH)
                        ck.ob("symbol", "value reaches the result", same(w, st, E.symf(st, rv, "value"), V1), "", WH)
        # EQM symbol: resolvedness of the evaluated text
        SM, SS = K("SYM_MACRO", "SYM_STRING")
        for fl in (0, SU):
            def setup(s):
                p = w.mkptr("sym0")
                w.fset(s, p, "_SYMBOL", "flags", SM | SS)
                q = w.mkptr("recres")
                w.fset(s, q, "_SYMBOL", "flags", fl)
                w.fset(s, q, "_SYMBOL", "value", V2)
                w.fset(s, q, "_SYMBOL", "next", 0)
            for env, s in E.start("a", nargs=0, lastwasop=1, setup=setup):
                for env2, s2, p in E.steps_to([(env, s)], 1):
                    rec = [e for e in s2.trace if e[0] == "rec"]
                    ck.ob("eqm-symbol", "its text is evaluated", len(rec) == 1, "%d evaluations" % len(rec), WH)
                    for st, rv in E.end(dict(env2), s2):
                        u = unres(w, st, E.symf(st, rv, "flags"))
                        ck.ob("eqm-symbol", "resolvedness of the text", u is bool(fl), "unresolved=%s" % u, WH)
                        ck.ob("eqm-symbol", "value of the text", same(w, st, E.symf(st, rv, "value"), V2), "", WH)

    for op, (pri, fn) in BINARY.items():
        ck.rule(binary, op, fn)
    for op, fn in UNARY.items():
        ck.rule(unary, op, fn)
    ck.rule(symbol)
    ck.need("operator", 120)
    ck.need("undefined-symbol", 3)
    ck.need("symbol", 8)
    ck.need("eqm-symbol", 4)


if __name__ == "__main__":
    main("C23", run)
