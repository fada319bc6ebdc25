"""C24: numeric, character and string literals."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.expr import *

CLS = {"d": (48, 57), "o": (48, 55), "1": (49, 57), "b": (48, 49), "l": (97, 102), "u": (65, 70)}
BIAS = {"d": 48, "o": 48, "1": 48, "b": 48, "l": 87, "u": 55}
D = [sym("dig%d" % i, 8) for i in range(24)]
TC = sym("term", 8)


def ranges(excl):
    """Complement of the given inclusive byte intervals, without NUL."""
    bad = set([0])
    for lo, hi in excl:
        bad |= set(range(lo, hi + 1))
    out = []
    for v in range(1, 256):
        if v not in bad:
            if out and out[-1][1] == v - 1:
                out[-1][1] = v
            else:
                out.append([v, v])
    return tuple(tuple(x) for x in out)


def run(ck):
    E = Expr(ck)
    w = E.w
    WH = ck.fnline("eval")
    SS = K("SYM_STRING")

    def literal(rule, prefix, pattern, base, nondigit):
        """prefix + symbolic digits of the pattern's classes; value is positional, scan stops at the first other character"""
        text = [ord(c) for c in prefix] + [D[i] for i in range(len(pattern))]
        end = len(text)
        inst = "%s%s" % (prefix, "".join(pattern))
        val = C(0, 64)
        memo = {}
        for i, c in enumerate(pattern):
            val = T.add(T.mul(val, C(base, 64)), T.sub(T.zext(D[i], 64), C(BIAS[c], 64)))
        parts = []
        for pn, lo, hi in (("control or punctuation", 1, 47), ("digit", 48, 57), ("punctuation", 58, 64), ("capital letter", 65, 90),
                           ("punctuation", 91, 96), ("small letter", 97, 122), ("other", 123, 255)):
            r = T.rand(nondigit, ((lo, hi),))
            if r:
                parts.append((pn, TC, r))
        for tname, tail, trange in [("end of line", None, None)] + parts:
            def setup(s):
                for i, c in enumerate(pattern):
                    w.limit(s, D[i], (CLS[c],))
                if tail is not None:
                    w.limit(s, TC, trange)
            n = 0
            for env, s in E.start(text + ([tail] if tail is not None else []), nargs=0, lastwasop=1, setup=setup):
                r, ex, bk = E.step(env, s)
                for e2, s2 in bk:
                    n += 1
                    p = E.pos(e2, s2)
                    ck.ob(rule, inst + " before " + tname + ": digits consumed", p == end, "consumed %s of %s characters" % (p, end), WH)
                    ck.ob(rule, inst + ": one operand", E.n(s2, "Argi") == 1 and E.n(s2, "Lastwasop") == 0, "operands %s" % E.n(s2, "Argi"), WH)
                    v = E.argv(s2, 0)
                    if v not in memo:
                        memo[v] = same(w, s2, v, val)
                    ck.ob(rule, inst + ": value", memo[v], "value %s, documented %s" % (v, val), WH)
                    f = E.argf(s2, 0)
                    ck.ob(rule, inst + ": resolved", isc(f) and cv(f) == 0, "flags %s" % f, WH)
                    ck.ob(rule, inst + ": no error", not has_err(s2), "error reported", WH)
            ck.ob(rule, inst + " before " + tname, n > 0, "not scanned", WH)

    def hexa():
        nd = ranges([(48, 57), (97, 102), (65, 70)])
        pats = ["".join(p) for k in (1, 2) for p in itertools.product("dlu", repeat=k)]
        pats += ["dlu", "lud", "udl", "dddd", "llll", "uuuu", "dlud", "ulld", "dddddddd", "lluuddll", "uuuuuuuu"]
        for p in pats:
            literal("hexadecimal", "$", p, 16, nd)
            literal("hexadecimal 0x", "0x", p, 16, nd)

    def dec():
        nd = ranges([(48, 57), (36, 36)])
        for k in range(1, 12):
            literal("decimal", "", "1" + "d" * (k - 1), 10, nd)

    def octal():
        for k in range(0, 10):
            nd = ranges([(48, 55), (36, 36)] + ([(120, 120)] if k == 0 else []))
            literal("octal", "0", "o" * k, 8, nd)

    def binary():
        nd = ranges([(48, 49)])
        for k in range(1, 9):
            literal("binary", "%", "b" * k, 2, nd)

    def char():
        def setup(s):
            w.limit(s, D[0], ((1, 127),))
        for env, s in E.start([39, D[0]], nargs=0, lastwasop=1, setup=setup):
            r, ex, bk = E.step(env, s)
            for e2, s2 in bk:
                ck.ob("character", "'c: consumed", E.pos(e2, s2) == 2, "", WH)
                v = E.argv(s2, 0)
                ck.ob("character", "'c: value", same(w, s2, v, T.zext(D[0], 64)), "value %s" % v, WH)
                ck.ob("character", "'c: one resolved operand", E.n(s2, "Argi") == 1 and isc(E.argf(s2, 0)) and cv(E.argf(s2, 0)) == 0, "", WH)

    def string():
        for k in range(0, 7):
            for close in (True, False):
                def setup(s):
                    for i in range(k):
                        w.limit(s, D[i], ((1, 33), (35, 255)))
                text = [34] + [D[i] for i in range(k)] + ([34] if close else [])
                inst = "%d characters, %s" % (k, "closed" if close else "unclosed")
                n = 0
                for env, s in E.start(text, nargs=0, lastwasop=1, setup=setup):
                    r, ex, bk = E.step(env, s)
                    for e2, s2 in bk:
                        ck.ob("string", inst + ": consumed", E.pos(e2, s2) == len(text), "consumed %s" % E.pos(e2, s2), WH)
                        for st, rv in E.end(dict(e2), s2):
                            n += 1
                            f = E.symf(st, rv, "flags")
                            p = E.symf(st, rv, "string")
                            ck.ob("string", inst + ": is a string", isc(f) and cv(f) & SS and not cv(f) & 1, "flags %s" % f, WH)
                            got = [w.subst(st, w.load(st, T.add(p, C(i, 64)), 1)) for i in range(k + 1)]
                            ok = all(same(w, st, g, x) for g, x in zip(got, [D[i] for i in range(k)] + [C(0, 8)]))
                            ck.ob("string", inst + ": characters", ok, "characters %s" % ", ".join(map(str, got)), WH)
                            ck.ob("string", inst + ": no error", not has_err(st), "", WH)
                ck.ob("string", inst, n > 0, "not scanned", WH)

    ck.rule(hexa)
    ck.rule(dec)
    ck.rule(octal)
    ck.rule(binary)
    ck.rule(char)
    ck.rule(string)
    for r, n in (("hexadecimal", 100), ("hexadecimal 0x", 100), ("decimal", 30), ("octal", 30), ("binary", 30), ("character", 3), ("string", 30)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C24", run)
