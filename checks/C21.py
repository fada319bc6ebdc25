"""C21: operator functions, decided on the evaluator's transfer functions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.expr import *

V1, V2, V3 = sym("v1", 64), sym("v2", 64), sym("v3", 64)
SMIN, SMAX = -(1 << 63), (1 << 63) - 1


def binary_state(E, op):
    """Header states with [v1] op [v2] on the stacks and the line at its end."""
    out = []
    for env, s in E.start(op, nargs=1, lastwasop=0):
        E.w.limit(s, sym("f1", 8), ((0, 0),))
        for env2, s2, p in E.steps_to([(env, s)], len(op)):
            out.append((env2, s2, p))
    return out


# partitions of (v1,v2) and the documented result
def const(k):
    return C(k, 64)


def cases(fn):
    z = lambda t: T.eq(t, C(0, 64))
    nz = lambda t: T.bnot(z(t))
    lt, gt, equ = T.slt(V1, V2), T.slt(V2, V1), T.eq(V1, V2)
    if fn == "mul":
        return [("any", [], T.mul(V1, V2))]
    if fn == "add":
        return [("any", [], T.add(V1, V2))]
    if fn == "sub":
        return [("any", [], T.sub(V1, V2))]
    if fn == "and":
        return [("any", [], T.bitop("and", V1, V2))]
    if fn == "or":
        return [("any", [], T.bitop("or", V1, V2))]
    if fn == "xor":
        return [("any", [], T.bitop("xor", V1, V2))]
    if fn == "shl":
        return [("count 0..63", [T.ult(V2, C(64, 64))], T.shl(V1, V2))]
    if fn == "shr":
        return [("count 0..63", [T.ult(V2, C(64, 64))], T.ashr(V1, V2))]
    if fn == "div":
        return [("divisor>0", [T.slt(C(0, 64), V2)], T.sdiv(V1, V2)),
                ("divisor<-1", [T.slt(V2, C(-1, 64))], T.sdiv(V1, V2)),
                ("divisor=-1", [T.eq(V2, C(-1, 64))], T.sub(C(0, 64), V1)),
                ("divisor=0", [z(V2)], "abort")]
    if fn == "mod":
        return [("divisor>0", [T.slt(C(0, 64), V2)], T.srem(V1, V2)),
                ("divisor<-1", [T.slt(V2, C(-1, 64))], T.srem(V1, V2)),
                ("divisor=-1", [T.eq(V2, C(-1, 64))], C(0, 64)),
                ("divisor=0", [z(V2)], V1)]
    rel = {"gt": (0, 0, 1), "lt": (1, 0, 0), "ge": (0, 1, 1), "le": (1, 1, 0), "eq": (0, 1, 0), "ne": (1, 0, 1)}
    if fn in rel:
        a, b, c = rel[fn]
        return [("v1<v2", [lt], const(a)), ("v1=v2", [equ], const(b)), ("v1>v2", [gt], const(c))]
    if fn == "land":
        return [("0,0", [z(V1), z(V2)], const(0)), ("0,n", [z(V1), nz(V2)], const(0)),
                ("n,0", [nz(V1), z(V2)], const(0)), ("n,n", [nz(V1), nz(V2)], const(1))]
    if fn == "lor":
        return [("0,0", [z(V1), z(V2)], const(0)), ("0,n", [z(V1), nz(V2)], const(1)),
                ("n,0", [nz(V1), z(V2)], const(1)), ("n,n", [nz(V1), nz(V2)], const(1))]
    if fn == "cond":
        return [("left=0", [z(V1)], const(0)), ("left!=0", [nz(V1)], V2)]


def ucases(fn):
    z, nz = T.eq(V1, C(0, 64)), T.bnot(T.eq(V1, C(0, 64)))
    if fn == "neg":
        return [("any", [], T.neg(V1))]
    if fn == "inv":
        return [("any", [], T.bitop("xor", V1, C(-1, 64)))]
    if fn == "not":
        return [("0", [z], const(1)), ("n", [nz], const(0))]
    if fn == "lsb":
        return [("any", [], T.zext(T.extract(V1, 0, 8), 64))]
    if fn == "msb":
        return [("any", [], T.zext(T.extract(V1, 8, 8), 64))]


def run(ck):
    E = Expr(ck)
    w = E.w

    def binary(op, fn):
        st0 = binary_state(E, op)
        ck.ob("binary-token", op, bool(st0), "operator not accepted after an operand", ck.fnline("eval"))
        for env, s, p in st0:
            if env is None or has_err(s):
                ck.ob("binary-token", op, False, "operator rejected after an operand", ck.fnline("eval"))
                continue
            if not ck.ob("binary-token", op, p == len(op) and E.n(s, "Argi") == 1,
                         "token %r consumed %s characters, %s operands left" % (op, p, E.n(s, "Argi")), ck.fnline("eval")):
                continue
            for name, conds, want in cases(fn):
                s2 = s.copy()
                E.setarg(s2, 1, V2, 0)
                w.gset(s2, "Argi", 2)
                w.gset(s2, "Lastwasop", 0)
                if not all(w.assume(s2, c) for c in conds):
                    raise AnalysisBroken("partition %s empty" % name)
                n0 = len(w.exits)
                res = E.end(dict(env), s2)
                inst = "v1 %s v2 [%s]" % (op, name)
                if want == "abort":
                    ck.ob("binary-function", inst, not res and len(w.exits) > n0,
                          "expected an aborting diagnostic, got %s" % [str(E.symf(st, rv, "value")) for st, rv in res],
                          ck.fnline("eval"))
                    del w.exits[n0:]
                    continue
                ck.ob("binary-function", inst, bool(res) and len(w.exits) == n0, "no value is produced", ck.fnline("eval"))
                del w.exits[n0:]
                for st, rv in res:
                    v = E.symf(st, rv, "value")
                    ck.ob("binary-function", inst, same(w, st, v, want) and not has_err(st),
                          "result %s, documented %s" % (v, want), ck.fnline("eval"))

    def inside(op, fn):
        """The result takes part in a larger expression."""
        for text, order in (("[a%sb]+c" % op, (V1, V2, V3)), ("c+[a%sb]" % op, (V3, V1, V2))):
            for name, conds, want in cases(fn):
                if want == "abort":
                    continue
                s = State()
                line = w.mkstr(s, "line", text)
                for g in ("Argi", "Opi", "Argibase", "Opibase", "SymAlloc", "symbolRecursionCount", "ucasm_indexed_notation"):
                    if g in ck.m.globals:
                        w.gset(s, g, 0)
                w.gset(s, "Processor", 6502)
                for k, v in enumerate(order):
                    q = w.mkptr("sym%d" % k)
                    w.fset(s, q, "_SYMBOL", "value", v)
                    w.fset(s, q, "_SYMBOL", "flags", 0)
                if not all(w.assume(s, c) for c in conds):
                    raise AnalysisBroken("partition %s empty" % name)
                n0 = len(w.exits)
                res = w.run(s, "eval", [line, C(0, 32)])
                inst = "%s [%s]" % (text, name)
                ck.ob("inside", inst, bool(res) and len(w.exits) == n0, "no value is produced", ck.fnline("eval"))
                del w.exits[n0:]
                for st, rv in res:
                    v = E.symf(st, rv, "value")
                    ck.ob("inside", inst, same(w, st, v, T.add(want, V3)) and not has_err(st), "result %s, documented %s" % (v, T.add(want, V3)), ck.fnline("eval"))

    def unary(op, fn):
        for name, conds, want in ucases(fn):
            inst = "%sv1 [%s]" % (op, name)
            res = []
            for env2, s2, p in unary_states(E, op):
                s3 = s2.copy()
                if not all(w.assume(s3, c) for c in conds):
                    continue
                res += E.end(dict(env2), s3)
            ck.ob("unary-function", inst, bool(res), "no value is produced", ck.fnline("eval"))
            for st, rv in res:
                v = E.symf(st, rv, "value")
                ck.ob("unary-function", inst, same(w, st, v, want) and not has_err(st),
                      "result %s, documented %s" % (v, want), ck.fnline("eval"))
    for op, (pri, fn) in BINARY.items():
        ck.rule(binary, op, fn)
        ck.rule(inside, op, fn)
    for op, fn in UNARY.items():
        ck.rule(unary, op, fn)
    ck.need("binary-function", 40)
    ck.need("inside", 80)
    ck.need("unary-function", 6)


def unary_states(E, op):
    """op followed by a resolved numeric symbol with value v1."""
    w = E.w
    SU, SS, SM = K("SYM_UNKNOWN", "SYM_STRING", "SYM_MACRO")

    def setup(s):
        p = w.mkptr("sym0")
        w.fset(s, p, "_SYMBOL", "value", V1)
        w.fset(s, p, "_SYMBOL", "flags", 0)
    out = []
    for env, s in E.start(op + "a", nargs=0, lastwasop=1, setup=setup):
        for env2, s2, p in E.steps_to([(env, s)], len(op) + 1):
            if env2 is None:
                raise AnalysisBroken("eval returned inside an expression")
            out.append((env2, s2, p))
    return out


if __name__ == "__main__":
    main("C21", run)
