"""C22: operator grouping, decided on the evaluator's transfer functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.expr import *
from vsa.mnem import fatal_err
from vsa.sweep import Sweep, mne_table
from C21 import V1, V2, cases, ucases

V3 = sym("v3", 64)
# operands chosen so that the documented function is total and path-free: the
# grouping rules do not depend on them, so resolved generic values are used
FUN = {"mul": T.mul, "add": T.add, "sub": T.sub, "and": lambda a, b: T.bitop("and", a, b),
       "or": lambda a, b: T.bitop("or", a, b), "xor": lambda a, b: T.bitop("xor", a, b)}


def run(ck):
    E = Expr(ck)
    w = E.w
    WH = ck.fnline("eval")

    def pushed(items, text, what):
        """Scan `text` from header states; all must accept it."""
        out = []
        for env, s, p in E.steps_to(items, items_pos(items) + len(text)):
            if not ck.ob("token", what, env is not None and not has_err(s), "not accepted", WH):
                continue
            out.append((env, s))
        return out

    def items_pos(items):
        return E.pos(*items[0])

    def start(text, nargs, lw):
        hs = E.start(text, nargs=nargs, lastwasop=lw)
        for env, s in hs:
            for i in range(nargs):
                w.limit(s, sym("f%d" % (i + 1), 8), ((0, 0),))
        return hs

    def arg(items, i, v):
        for env, s in items:
            E.setarg(s, i, v, 0)
            w.gset(s, "Argi", i + 1)
            w.gset(s, "Lastwasop", 0)

    def pair(a, b):
        """v1 a v2 b ...: is `a` applied before `b` is stacked?"""
        (pa, fa), (pb, fb) = BINARY[a], BINARY[b]
        it = pushed(start(a + " " + b, 1, 0), a + " ", a)
        arg(it, 1, V2)
        if fa in ("div", "mod"):
            for env, s in it:
                w.assume(s, T.slt(C(0, 64), V2))
        it2 = pushed(it, b, "%s after %s" % (b, a))
        want = pb <= pa
        ck.ob("grouping", "v1 %s v2 %s v3" % (a, b), bool(it2), "not accepted", WH)
        for env, s in it2:
            na, no, lw = E.n(s, "Argi"), E.n(s, "Opi"), E.n(s, "Lastwasop")
            got = "left first" if (na, no) == (1, 1) else "right first" if (na, no) == (2, 2) else "broken stack (%s,%s)" % (na, no)
            ck.ob("grouping", "v1 %s v2 %s v3" % (a, b), got == ("left first" if want else "right first"),
                  "groups %s, documented %s" % (got, "left first" if want else "right first"), WH)
            ck.ob("operand-expected", "after %s" % b, lw == 1, "operand not expected after operator", WH)
            if not want and fa in FUN and fb in FUN:
                # finish: v1 a (v2 b v3)
                s2 = s.copy()
                E.setarg(s2, 2, V3, 0)
                w.gset(s2, "Argi", 3)
                w.gset(s2, "Lastwasop", 0)
                for st, rv in E.end(dict(env), s2):
                    v = E.symf(st, rv, "value")
                    x = FUN[fa](V1, FUN[fb](V2, V3))
                    ck.ob("all-operators-applied", "v1 %s v2 %s v3" % (a, b), same(w, st, v, x) and not has_err(st),
                          "result %s, documented %s" % (v, x), WH)
            if want and fa in FUN:
                v = E.argv(s, 0)
                ck.ob("all-operators-applied", "v1 %s v2 %s" % (a, b), same(w, s, v, FUN[fa](V1, V2)),
                      "left group is %s" % v, WH)

    def prefix(u, b):
        """v1 b u a: the prefix operator applies to the operand only; u a b v: before b."""
        fu = UNARY[u]
        want = [x for n, c, x in ucases(fu)]

        def setup(s):
            p = w.mkptr("sym0")
            w.fset(s, p, "_SYMBOL", "value", V2)
            w.fset(s, p, "_SYMBOL", "flags", 0)
        sub2 = lambda t: T.rebuild(t, lambda x: V2 if x is V1 else None)
        hs = E.start(b + " " + u + "a", nargs=1, lastwasop=0, setup=setup)
        for env, s in hs:
            w.limit(s, sym("f1", 8), ((0, 0),))
        it = pushed(hs, b + " ", b)
        it = pushed(it, u, "prefix %s after %s" % (u, b))
        ck.ob("prefix", "v1 %s %sa" % (b, u), bool(it), "not accepted", WH)
        for env, s in it:
            ck.ob("prefix", "v1 %s %sa" % (b, u), (E.n(s, "Argi"), E.n(s, "Opi"), E.n(s, "Lastwasop")) == (1, 2, 1),
                  "prefix operator disturbs the pending operator", WH)
        for n, conds, x in ucases(fu):
            for env, s in it:
                s2 = s.copy()
                if not all(w.assume(s2, sub2(c)) for c in conds):
                    continue
                for env3, s3 in pushed([(env, s2)], "a", "operand after prefix %s" % u):
                    ok = (E.n(s3, "Argi"), E.n(s3, "Opi")) == (2, 1) and same(w, s3, E.argv(s3, 1), sub2(x))
                    ck.ob("prefix", "v1 %s %sa [%s]" % (b, u, n), ok,
                          "operand is %s with stacks %s/%s" % (E.argv(s3, 1), E.n(s3, "Argi"), E.n(s3, "Opi")), WH)
                    ck.ob("operator-expected", "after operand", E.n(s3, "Lastwasop") == 0, "operand still expected", WH)

    def brackets(o, c, wm):
        E2 = E if not wm else None
        a, b = "*", "+"
        text = a + o + b + c
        hs = start(text, 1, 0)
        it = pushed(hs, a, a)
        it = pushed(it, o, "opening %s" % o)
        for env, s in it:
            ck.ob("bracket", "%s opens a group" % o, E.n(s, "Argi") == 1, "operands changed", WH)
            ck.ob("bracket", "operand expected after %s" % o, E.n(s, "Lastwasop") == 1, "operand not expected", WH)
        arg(it, 1, V2)
        it = pushed(it, b, b)
        for env, s in it:
            ck.ob("bracket", "operator inside %s%s" % (o, c), E.n(s, "Argi") == 2,
                  "operator outside the bracket applied early", WH)
        arg(it, 2, V3)
        it = pushed(it, c, "closing %s" % c)
        ck.ob("bracket", "%s..%s" % (o, c), bool(it), "not accepted", WH)
        for env, s in it:
            ok = E.n(s, "Argi") == 2 and E.n(s, "Opi") == 1 and same(w, s, E.argv(s, 1), T.add(V2, V3))
            ck.ob("bracket", "%s..%s" % (o, c), ok, "group value %s, stacks %s/%s" % (E.argv(s, 1), E.n(s, "Argi"), E.n(s, "Opi")), WH)
            ck.ob("bracket", "operator expected after %s" % c, E.n(s, "Lastwasop") == 0, "operand expected after a group", WH)
            for st, rv in E.end(dict(env), s.copy()):
                v = E.symf(st, rv, "value")
                ck.ob("bracket", "v1*%sv2+v3%s" % (o, c), same(w, st, v, T.mul(V1, T.add(V2, V3))) and not has_err(st),
                      "result %s" % v, WH)
        # prefix operator before a group applies to the group
        hs = start("-" + o + b + c + a, 0, 1)
        it = pushed(hs, "-", "-")
        it = pushed(it, o, o)
        arg(it, 0, V1)
        it = pushed(it, b, b)
        arg(it, 1, V2)
        it = pushed(it, c, c)
        it = pushed(it, a, a)
        ck.ob("bracket", "-%sv1+v2%s*v3" % (o, c), bool(it), "not accepted", WH)
        arg(it, 1, V3)
        for env, s in it:
            for st, rv in E.end(dict(env), s):
                v = E.symf(st, rv, "value")
                x = T.mul(T.neg(T.add(V1, V2)), V3)
                ck.ob("bracket", "-%sv1+v2%s*v3" % (o, c), same(w, st, v, x) and not has_err(st), "result %s" % v, WH)

    def leftover():
        # operands without an operator, operators without operands: diagnosed
        for env, s in start("", 2, 0):
            for st, rv in E.end(dict(env), s):
                ck.ob("leftover", "two operands without operator", has_err(st), "accepted silently", WH)
        for b in ("+", "*", "&&", "=="):
            it = pushed(start(b, 1, 0), b, b)
            for env, s in it:
                n0 = len(w.exits)
                res = E.end(dict(env), s)
                ck.ob("leftover", "binary %s without right operand" % b, all(has_err(st) for st, _ in res) and
                      (res or len(w.exits) > n0), "accepted silently", WH)

    def unclosed(o, nargs, tail, stale):
        """A bracket never closed is diagnosed, whatever operators earlier expressions used."""
        def setup(s):
            for i in range(32):
                w.gset(s, "Opdis", obj("g:" + stale) if stale else C(0, 64), 8 * i, 8)
        hs = E.start(o + tail, nargs=nargs, lastwasop=0 if nargs else 1, setup=setup)
        inst = "%d operands, %s, an operand, %s (%s used before)" % (nargs, o, tail or "end", stale)
        n0 = len(w.exits)
        it = pushed(hs, o, o)
        arg(it, nargs, V2)
        if tail:
            p0 = items_pos(it)
            it = [(env, s) for env, s, p in E.steps_to(it, p0 + len(tail)) if env is not None]
        for env, s in it:
            for st, rv in E.end(dict(env), s):
                ck.ob("unclosed bracket", inst, has_err(st), "accepted silently", WH)
        ck.ob("unclosed bracket", inst, bool(it) or len(w.exits) > n0, "not analysed", WH)

    def illegal(c):
        """A character that starts neither an operand nor an operator is diagnosed."""
        for nargs, lw, what in ((0, 1, "where an operand is expected"), (1, 0, "after an operand")):
            n0 = len(w.exits)
            rs = E.steps_to(start(chr(c), nargs, lw), 1)
            inst = "character %#x %s" % (c, what)
            sts = [s for env, s, p in rs] + [st for k, st, i in w.exits[n0:]]
            ck.ob("illegal character", inst, len(sts) > 0, "no result", WH)
            for s in sts:
                ck.ob("illegal character", inst, any(fatal_err(ck.m, e) for e in flat(s.trace) if e[0] in ("err", "panic", "exit")), "accepted silently", WH)

    # after directives parentheses group like brackets: the same line with either leaves the same state
    S = Sweep(ck)
    S.w.max_steps = 400000
    S.prelude()
    PAREN = {ord("("): ord("["), ord(")"): ord("]")}

    def image(st):
        out = []
        for oid, o in st.mem.items():
            cells = tuple(sorted((k, PAREN.get(cv(v), cv(v)) if isc(v) and v.w == 8 else str(v)) for k, v in o.cells.items()))
            out.append((oid, o.size, bytes(PAREN.get(b, b) for b in o.img) if o.img is not None else None, cells))
        return sorted(out, key=lambda x: x[0])

    def parentheses(op, text):
        inst = "%s %s" % (op, text)
        res = []
        for t in (text, text.replace("(", "[").replace(")", "]")):
            S.mon.problems.clear()
            lines = ["a %s %s" % (op, t)]
            if op == "dv":
                lines = ["qm eqm " + t, "a dv qm 1,2"]
            elif op == "dv string":
                lines = ["qm eqm " + t, ' dv.w qm "ab"']
            elif op == "composed label":
                lines = ["a,%s = 3" % t]
            elif op == "composed operand":
                lines = ["a set b,%s" % t]
            res.append(S.lines(S.base.copy(), lines))
        p, b = res
        ck.ob("parentheses", inst, len(p) > 0 and len(p) == len(b), "%d outcomes, with brackets %d" % (len(p), len(b)), "directive " + op)
        for (s1, k1), (s2, k2) in zip(p, b):
            e1, e2 = ([[x[0], x[1]] for x in flat(s.trace) if x[0] == "err"] for s in (s1, s2))
            ck.ob("parentheses", inst, k1 == k2 and e1 == e2, "errors %s, with brackets %s" % (e1, e2), "directive " + op)
            i1, i2 = image(s1), image(s2)
            d = [x[0] for x, y in zip(i1, i2) if x != y]
            ck.ob("parentheses", inst, len(i1) == len(i2) and not d, "not the same as with brackets: %s differs" % d[:3], "directive " + op)
    # (operands that are names or texts left out)
    for op in sorted({e.name for e in mne_table(ck.m, "Ops")} - {"mac", "macro", "setstr"}) + ["=", "dc.w", "dc.l", "dc.s", "ds.w", "dv", "dv string", "composed label", "composed operand"]:
        for text in ("(n1+c5)*2", "2*(c5+n1)", "((c5+1)*2)", "1,(c5+1)*2") if "composed" not in op else ("(c5+1)*2", "2*(c5+1)"):
            ck.rule(parentheses, op, text)

    def missing(head, text):
        """An operator written without its operands is diagnosed."""
        S.mon.problems.clear()
        res = S.lines(S.base.copy(), [head + text])
        inst = head.strip() + text
        ck.ob("missing operand", inst, len(res) > 0, "no outcome", "operand " + text)
        for st, kind in res:
            ck.ob("missing operand", inst, has_err(st) or kind == "exit", "accepted silently", "operand " + text)
    for head in (" dc ", "a = ", " lda #", " org "):
        for u in UNARY:
            for text in ("%s", "[%s]", "c5,%s"):
                ck.rule(missing, head, text % u)
        for b in BINARY:
            for text in ("%s", "c5%s", "[c5%s]", "c5+c5%s", "c5*c5%s") + (("%sc5",) if b not in UNARY else ()):
                # (* and % begin operands, << and >> are two prefixes)
                if (text, b) not in (("%s", "*"), ("%s", "%"), ("%sc5", "<<"), ("%sc5", ">>")):
                    ck.rule(missing, head, text % b)
    for c in [0x3a, 0x3b, 0x5c, 0x60, 0x7f] + list(range(0x81, 0x100)):
        ck.rule(illegal, c)
    for o in "([":
        for nargs in (0, 1, 2):
            for tail in ("", ","):
                for stale in [f for f in ("op_add", "op_mult", "op_takelsb", "op_not") if f in ck.m.funcs] + [None]:
                    ck.rule(unclosed, o, nargs, tail, stale)
    for a in BINARY:
        for b in BINARY:
            ck.rule(pair, a, b)
    for u in UNARY:
        for b in BINARY:
            ck.rule(prefix, u, b)
    ck.rule(brackets, "[", "]", 0)
    ck.rule(brackets, "(", ")", 0)
    ck.rule(leftover)
    ck.need("grouping", 400)
    ck.need("prefix", 150)
    ck.need("parentheses", 500)
    ck.need("missing operand", 300)
    ck.need("bracket", 20)
    ck.need("unclosed bracket", 60)
    ck.need("illegal character", 200)


if __name__ == "__main__":
    main("C22", run)
