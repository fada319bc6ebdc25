"""C25: operand syntax determines the addressing mode."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.expr import *

VAL = [sym("val%d" % i, 64) for i in range(3)]
CPUS = (6502, 65002, 6303, 68705, 6811, 0xf8, 68908)
CMOS = 16502


def run(ck):
    E = Expr(ck, wantmode=1)
    w = E.w
    WH = ck.fnline("eval")
    IMP, IMM8, BYTEADR, INDWORD, INDBYTE, INDBYTEX, INDBYTEY, X0, Y0, SP, BYTEREL = K(
        "AM_IMP", "AM_IMM8", "AM_BYTEADR", "AM_INDWORD", "AM_INDBYTE", "AM_INDBYTEX", "AM_INDBYTEY", "AM_0X", "AM_0Y",
        "AM_BYTEADR_SP", "AM_BYTEREL")

    def ev(text, cpu, eval_from=None):
        """Final states of evaluating an operand text; letters in [] stand for either case."""
        s = State()
        b, cs, i = [], [], 0
        while i < len(text):
            if text[i] == "\\":          # \x: either case of x
                c = sym("case%d" % len(b), 8)
                cs.append((c, ((ord(text[i + 1].upper()),) * 2, (ord(text[i + 1]),) * 2)))
                b.append(c)
                i += 2
            else:
                b.append(C(ord(text[i]), 8))
                i += 1
        w.mkobj(s, "line", None, "zero")
        o = w.getobj(s, "H:line").mod()
        for k, c in enumerate(b):
            w.put(o, k, c)
        w.put(o, len(b), C(0, 8))
        s.mem["H:line"] = o
        for g in ("Argi", "Opi", "Argibase", "Opibase"):
            w.gset(s, g, 0)
        w.gset(s, "Processor", cpu)
        if "ucasm_indexed_notation" in ck.m.globals:
            w.gset(s, "ucasm_indexed_notation", 0)
        w.gset(s, "SymAlloc", 0)
        for k in range(3):
            p = w.mkptr("sym%d" % k)
            w.fset(s, p, "_SYMBOL", "value", VAL[k])
            w.fset(s, p, "_SYMBOL", "flags", 0)
        for c, r in cs:
            w.limit(s, c, T.rnorm(r))
        n0 = len(w.exits)
        out = w.run(s, "eval", [obj("H:line"), C(1, 32)])
        return out, w.exits[n0:]

    def operand(text, cpu, mode, values, rule="operand form"):
        name = "operand '%s' cpu %s" % (text.replace("\\", ""), cpu if cpu != 0xf8 else "f8")
        out, ex = ev(text, cpu)
        ck.ob(rule, name + ": accepted", len(out) > 0, "no result", WH)
        for st, rv in out:
            ck.ob(rule, name + ": no error", not has_err(st), "error reported", WH)
            am = E.symf(st, rv, "addrmode")
            ck.ob(rule, name + ": mode", isc(am) and cv(am) == mode, "mode %s, documented %d" % (am, mode), WH)
            p = rv
            for k, v in enumerate(values):
                got = E.symf(st, p, "value")
                ck.ob(rule, name + ": value %d" % k, same(w, st, got, v), "value %s, documented %s" % (got, v), WH)
                p = E.symf(st, p, "next")
                last = k == len(values) - 1
                ck.ob(rule, name + ": %s" % ("no further expression" if last else "next expression"),
                      (isc(p) and cv(p) == 0) == last, "next %s" % p, WH)
                if not last and isc(p):
                    break

    def bad(text, cpu):
        name = "operand '%s' cpu %s" % (text.replace("\\", ""), cpu)
        out, ex = ev(text, cpu)
        ck.ob("illegal form", name, bool(out) or bool(ex), "no result", WH)
        for st, rv in out:
            ck.ob("illegal form", name, has_err(st), "accepted with mode %s" % E.symf(st, rv, "addrmode"), WH)

    def other(text, cpu, mode):
        name = "operand '%s' cpu %s" % (text, cpu)
        out, ex = ev(text, cpu)
        ck.ob("longer name", name, bool(out) or bool(ex), "no result", WH)
        for st, rv in out:
            am = E.symf(st, rv, "addrmode")
            ck.ob("longer name", name, has_err(st) or isc(am) and cv(am) != mode, "taken as indexed, mode %s" % am, WH)

    a, b, c = VAL
    for cpu in CPUS + (CMOS,):
        ck.rule(operand, "", cpu, IMP, [])
        ck.rule(operand, "a", cpu, BYTEADR, [a])
        ck.rule(operand, "#a", cpu, IMM8, [a])
        ck.rule(operand, "#(a)", cpu, IMM8, [a])
        ck.rule(operand, "#[a+b]", cpu, IMM8, [T.add(a, b)])
        ck.rule(operand, "#(a+b)*2", cpu, IMM8, [T.mul(T.add(a, b), C(2, 64))])
        ck.rule(operand, "a+b", cpu, BYTEADR, [T.add(a, b)])
        ck.rule(operand, "[a]", cpu, BYTEADR, [a])
        ck.rule(operand, "a,\\x", cpu, X0, [a])
        ck.rule(operand, "a,\\y", cpu, Y0, [a])
        ck.rule(operand, "a+b,\\x", cpu, X0, [T.add(a, b)])
        ck.rule(operand, "a+b,\\y", cpu, Y0, [T.add(a, b)])
        ck.rule(operand, "(a,\\x)", cpu, INDBYTEX, [a])
        ck.rule(operand, "(a+b,\\x)", cpu, INDBYTEX, [T.add(a, b)])
        ck.rule(operand, "(a),\\y", cpu, INDBYTEY, [a])
        ck.rule(operand, "(a+b),\\y", cpu, INDBYTEY, [T.add(a, b)])
        ck.rule(operand, "(a)", cpu, INDBYTE if cpu == CMOS else INDWORD, [a])
        ck.rule(operand, "(a+b)", cpu, INDBYTE if cpu == CMOS else INDWORD, [T.add(a, b)])
        if cpu != CMOS:
            ck.rule(operand, "a,\\s\\p", cpu, SP, [a])
            ck.rule(operand, "a,b", cpu, BYTEADR, [a, b], "operand list")
            ck.rule(operand, "a,b,c", cpu, BYTEADR, [a, b, c], "operand list")
            ck.rule(operand, "#a,b", cpu, IMM8, [a, b], "operand list")
        for n in ("xa", "x1", "x_", "x.", "x@", "ya", "y1", "y_", "XA", "Y_", "Yb") + (("spa", "sp_", "s", "SP1") if cpu != CMOS else ()):
            ck.rule(operand, "a," + n, cpu, BYTEREL if cpu == CMOS else BYTEADR, [a, b], "longer name")
        for n in ("xa", "x1", "x_", "XA", "Xab", "x12"):
            ck.rule(other, "(a,%s)" % n, cpu, INDBYTEX)
            ck.rule(other, "(a+b,%s)" % n, cpu, INDBYTEX)
        for n in ("ya", "y1", "y_", "YA", "Yab", "y12"):
            ck.rule(other, "(a),%s" % n, cpu, INDBYTEY)
        for t in ("(a),\\x", "(a+b),\\x", "(a,\\y)", "(a+b,\\y)", "a b", "a,b c", "(a)b"):
            ck.rule(bad, t, cpu)
    for cpu in (6502, 68908, CMOS):
        for ch in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.@":
            for n in ("x", "y", "sp") if cpu != CMOS else ("x", "y"):
                ck.rule(operand, "a," + n + ch, cpu, BYTEREL if cpu == CMOS else BYTEADR, [a, b], "longer name")
            ck.rule(other, "(a,x%s)" % ch, cpu, INDBYTEX)
    ck.rule(operand, "a,b", CMOS, BYTEREL, [a, b], "operand list")
    for cpu in (68705, 6811, 68908):
        ck.rule(operand, "[\\x+a]", cpu, K("AM_BYTEADRX"), [a], "bracket index")
        ck.rule(operand, "[\\y+a]", cpu, K("AM_BYTEADRY"), [a], "bracket index")
        ck.rule(operand, "[\\s\\p+a]", cpu, SP, [a], "bracket index")
    ck.need("operand form", 400)
    ck.need("operand list", 60)
    ck.need("longer name", 200)
    ck.need("illegal form", 50)


if __name__ == "__main__":
    main("C25", run)
