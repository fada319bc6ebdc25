"""C32: contents and order of the symbol listing."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.symtab import Symtab
from vsa.fio import Files


def words(w, st, bs):
    lines = "".join(chr(cv(w.subst(st, b))) if isc(w.subst(st, b)) else "#" for b in bs).split("\n")
    return [l.split() for l in lines]


def sgn(x):
    return (x > 0) - (x < 0)


def run(ck):
    F = Files()
    UNK, REF, STRING, SET, MACRO, MASREF = K("SYM_UNKNOWN", "SYM_REF", "SYM_STRING", "SYM_SET", "SYM_MACRO", "SYM_MASREF")
    where = ck.fnline("ShowSymbols")

    def m_qsort(I, s, a, ins):
        """Sorting by exchanging neighbours until the program's own comparison is satisfied."""
        n, sz = I.subst(s, a[1]), I.subst(s, a[2])
        if not isc(n) or not isc(sz):
            raise AnalysisBroken("sort of undetermined size")
        n, sz = cv(n), cv(sz)
        cmpf = a[3]
        s.ev("qsort", n, cmpf)
        at = lambda i: T.add(a[0], C(i * sz, 64))
        for i in range(1, n):
            j = i
            while j > 0:
                r = I.call(s, cmpf.a[0][2:], [at(j - 1), at(j)])
                if len(r) != 1 or not isc(r[0][1]):
                    raise AnalysisBroken("comparison not decided")
                s2, v = r[0]
                s.__dict__.update(s2.__dict__) if s2 is not s else None
                if sv(v) <= 0:
                    break
                x, y = I.load(s, at(j - 1), sz), I.load(s, at(j), sz)
                I.store(s, at(j - 1), y)
                I.store(s, at(j), x)
                j -= 1

    md = {k: v for k, v in F.models().items() if k not in ("fseek",)}
    md["qsort"] = m_qsort
    M = Main(ck, real=("ShowSymbols", "DumpSymbolTable"), models=md)
    w = M.w
    nb = ck.m.globals["SHash"].ty.size // 8

    def table(syms, buckets):
        """Set up the table: syms [(name, value, flags, order, string)] at the given buckets."""
        def f(s):
            heads = {}
            for k in reversed(range(len(syms))):
                name, val, fl, order, text = syms[k]
                p = w.mkobj(s, "sym%d" % k, None, "zero")
                w.fset(s, p, "_SYMBOL", "name", w.mkstr(s, "name%d" % k, name))
                w.fset(s, p, "_SYMBOL", "namelen", len(name))
                w.fset(s, p, "_SYMBOL", "flags", fl)
                w.fset(s, p, "_SYMBOL", "value", val)
                w.fset(s, p, "_SYMBOL", "order", order)
                if text is not None:
                    w.fset(s, p, "_SYMBOL", "string", w.mkstr(s, "str%d" % k, text))
                b = buckets[k % len(buckets)]
                w.fset(s, p, "_SYMBOL", "next", heads.get(b, C(0, 64)))
                heads[b] = p
            for b, p in heads.items():
                w.gset(s, "SHash", p, 8 * b, 8)
        return f

    def expect(e):
        name, val, fl, order, text = e
        out = [name, "%04x" % (val & (1 << 64) - 1)]
        if fl & UNK:
            out.append("????")
        if fl & STRING:
            out.append("str")
        if fl & MACRO:
            out.append("eqm")
        if fl & (MASREF | SET):
            out += ("(%s%s)" % ("R" if fl & MASREF else " ", "S" if fl & SET else " ")).split()
        if fl & STRING:
            out.append('"%s"' % text)
        return out

    KEYS = {0: lambda e: e[0].lower(), 1: lambda e: sv(C(e[1], 64)), 2: lambda e: e[3]}
    cmps = {}

    def dump(st):
        for e in reversed(flat(st.trace)):
            if e[0] == "fopen" and e[1] == "sym":
                return words(w, st, F.data(st, e[3])), e
        return None, None

    def listing(syms, buckets, mode, what):
        inst = "%s, %s" % (what, "-T%d" % mode if mode is not None else "no -T")
        rs = M.go([Line(), None], args=("-ssym",) + (("-T%d" % mode,) if mode is not None else ()), setup=table(syms, buckets))
        ck.ob("listing", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            ls, e = dump(st)
            if not ck.ob("listing written", inst, ls is not None and kind == "return", "no listing is written (%s)" % kind, where):
                continue
            for q in flat(st.trace):
                if q[0] == "qsort":
                    cmps[mode or 0] = q[2]
            body = [l for l in ls if l and l[0] != "---"]
            ck.ob("complete", inst, sorted(map(str, body)) == sorted(str(expect(e)) for e in syms), "listed %s" % body[:6], where)
            ks = {str(expect(e)): KEYS[mode or 0](e) for e in syms}
            got = [ks.get(str(b)) for b in body]
            ck.ob("order", inst, None not in got and got == sorted(ks[str(expect(e))] for e in syms), "listed in the order %s" % [b[0] for b in body], where)
            n = [k for k, l in enumerate(ls) if l]
            ck.ob("closed", inst, [x[0] for x in flat(st.trace) if x[0] in ("fclose",) and x[1] is e[3]] == ["fclose"], "the listing is not closed once", where)

    N = lambda i: "Sym%c%d" % ("bAcD"[i % 4], i)
    VALS = (5, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000001, -1, 0, -0x80000000, 1 << 62, -(1 << 63), (1 << 63) - 1)

    def mk(n, shift=0, fl=0):
        return [(N(i), VALS[(i * 5 + shift) % len(VALS)], fl, (i * 7 + shift) % n + 1, None) for i in range(n)]
    for mode in (None, 0, 1, 2):
        for n in (0, 1, 2, 3, 5, 12):
            for b in ((0,), (nb - 1,), (0, nb - 1, 17, 511)):
                if n in (3, 12) or b == (0, nb - 1, 17, 511):
                    ck.rule(listing, mk(n, n) if n else [], b, mode, "%d symbols in %d buckets from %d" % (n, len(b), b[0]))
    flags = [sum(c) for k in range(6) for c in itertools.combinations((UNK, REF, STRING, SET, MACRO, MASREF), k)]
    for k in range(0, len(flags), 32):
        syms = [("f%02d" % i, VALS[i % len(VALS)], fl, i + 1, "text%d" % i if fl & STRING else None) for i, fl in list(enumerate(flags))[k:k + 32]]
        ck.rule(listing, syms, (0, 3), 0, "flags %s" % ",".join("%x" % e[2] for e in syms))
    vs = sorted({(1 << k) + d for k in range(0, 63, 4) for d in (-1, 0, 1)})
    ck.rule(listing, [("v%03d" % i, v, 0, i, None) for i, v in enumerate(vs + [-v for v in vs])], (9, 10, 700), 0, "values 2^k")

    # the comparisons, for pairs of extreme keys
    def compare(mode, pairs, key):
        fn = cmps.get(mode)
        if fn is None:
            raise AnalysisBroken("no comparison function for -T%d" % mode)
        fn = fn.a[0][2:]
        s0 = State()
        a1, a2 = w.mkobj(s0, "arg1", 8, "zero"), w.mkobj(s0, "arg2", 8, "zero")
        p1, p2 = w.mkobj(s0, "symA", None, "zero"), w.mkobj(s0, "symB", None, "zero")
        w.store(s0, a1, p1)
        w.store(s0, a2, p2)
        for x, y in pairs:
            s = s0.copy()
            for p, v, nm in ((p1, x, "nA"), (p2, y, "nB")):
                w.fset(s, p, "_SYMBOL", "name", w.mkstr(s, nm, v if mode == 0 else "n"))
                w.fset(s, p, "_SYMBOL", "value", v if mode == 1 else 1)
                w.fset(s, p, "_SYMBOL", "order", v if mode == 2 else 1)
            want = sgn((key(x) > key(y)) - (key(x) < key(y)))
            for st, rv in w.run(s, fn, [a1, a2]):
                rv = w.subst(st, rv)
                ck.ob("comparison", "-T%d %s with %s" % (mode, x, y), isc(rv) and sgn(sv(rv)) == want, "compares as %s, expected sign %d" % (rv, want), ck.fnline(fn))
    vals = sorted({v for k in range(64) for d in (-1, 0, 1) for v in ((1 << k) + d, -(1 << k) - d) if -(1 << 63) <= v < (1 << 63)})[::8] + [0, 1, -1, 0x7fffffff, 0x80000000, 0xffffffff]
    ck.rule(compare, 1, [(x, y) for x in vals for y in vals], lambda v: v)
    ords = [1, 2, 3, 9, 10, 255, 256, 1000, 65535, 65536, 1 << 20, (1 << 30) - 1]
    ck.rule(compare, 2, [(x, y) for x in ords for y in ords], lambda v: v)
    names = ["a", "A", "b", "Z", "z", "ab", "aB", "AB", "abc", "_", "_a", "z9", "a.b", "0.l", "10.l", "2.l", "M", "m1"]
    ck.rule(compare, 0, [(x, y) for x in names for y in names], lambda v: v.lower())

    # order numbers follow the definition of labels
    S = Symtab(ck)
    sw = S.w

    def define(count, entry):
        """entry: None (new name) or the order number the symbol has."""
        s = S.state([] if entry is None else [(b"name", UNK, C(0, 64))])
        sw.gset(s, "SymbolCount", count)
        if entry is not None:
            sw.fset(s, S.ptrs[0], "_SYMBOL", "order", entry)
        sw.gset(s, "Av", sw.mkstr(s, "label", "name"), 0, 8)
        rs = sw.run(s, "programlabel", [])
        inst = "%d labels defined, %s" % (count, "new name" if entry is None else "symbol with number %d" % entry)
        ck.ob("order of definition", inst, len(rs) > 0, "no result", ck.fnline("programlabel"))
        for st, rv in rs:
            if entry is None:
                p = sw.gget(st, "SHash", 8 * cv(S_hash(st)), 8)
            else:
                p = S.ptrs[0]
            o = sw.fget(st, p, "_SYMBOL", "order")
            c = sw.gget(st, "SymbolCount")
            want = entry if entry else count + 1
            ck.ob("order of definition", inst, isc(o) and cv(o) == want, "the label gets number %s, expected %d" % (o, want), ck.fnline("programlabel"))
            ck.ob("order of definition", inst, isc(c) and cv(c) == (count if entry else count + 1), "the label count becomes %s" % c, ck.fnline("programlabel"))

    def S_hash(st):
        for i in range(S.nb):
            if sw.gget(st, "SHash", 8 * i, 8) != C(0, 64):
                return C(i, 32)
        raise AnalysisBroken("new symbol not in the table")
    for count in (0, 1, 7, 1000):
        for entry in (None, 0, 1, 5):
            ck.rule(define, count, entry)
    for r, n in (("complete", 30), ("order", 30), ("comparison", 2000), ("order of definition", 32)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C32", run)
