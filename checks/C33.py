"""C33: contents of listing lines."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.fio import Files


def words(w, st, bs):
    """Blank-separated words of the written bytes; a word is a tuple of characters and terms. One list per line."""
    lines, cur, word = [], [], []

    def end():
        if word:
            cur.append(tuple(word))
            word.clear()
    for b in bs:
        b = w.subst(st, b)
        c = chr(cv(b)) if isc(b) else b
        if c in (" ", "\t", "\n", "\r"):
            end()
            if c == "\n":
                lines.append(cur[:])
                cur.clear()
        else:
            word.append(c)
    end()
    if cur:
        lines.append(cur)
    return lines


def byte(w, st, g):
    if isinstance(g, int):
        return tuple("%02x" % g)
    t = T.zext(g, 32)
    return (T.app("digit", 8, "x", 1, t), T.app("digit", 8, "x", 0, t))


def show(ws):
    return " ".join("".join(c if isinstance(c, str) else "#" for c in x) for x in ws)


def run(ck):
    F = Files()
    md = F.models()
    M = Main(ck, real=("outlistfile",), models={k: v for k, v in md.items() if k not in ("fseek",)})
    w = M.w
    where = ck.fnline("outlistfile")
    SFU, SFR, SFB = K("SF_UNKNOWN", "SF_RORG", "SF_BSS")
    NOLIST, MFIF = K("INF_NOLIST", "MF_IF")
    gens = [sym("gen%d" % i, 8) for i in range(8)]

    def made(n, addr, flags, ext=None, xtrue=1, acc=1, gens=gens):
        """A line that generated n bytes at the address."""
        def f(I, s):
            for i in range(min(n, 8)):
                I.gset(s, "Gen", gens[i], i, 1)
            I.gset(s, "Glen", n)
            I.gset(s, "Plab", addr)
            I.gset(s, "Pflags", flags)
            if ext:
                I.gset(s, "Extstr", I.mkstr(s, "ext", ext))
            p = I.gget(s, "Ifstack")
            I.fset(s, p, "_IFSTACK", "xtrue", xtrue)
            I.fset(s, p, "_IFSTACK", "acctrue", acc)
        return f

    def listing(st):
        for e in reversed(flat(st.trace)):
            if e[0] == "fopen" and e[1] == "list":
                return words(w, st, F.data(st, e[3]))
        return None

    def expect(lineno, n, addr, flags, L, ext=None, xtrue=True, st=None, digits=gens):
        out = [tuple(str(lineno)), tuple(("U" if flags & SFB else "") + "%04x" % addr)]
        if flags & SFU:
            out.append(tuple("????"))
        out += [byte(w, st, g) for g in digits[:min(n, 4)]]
        mark = "*" if n > 4 else "" if xtrue else "-"
        if n >= 4 and mark:     # the marker takes the column after the fourth byte
            out[-1] += tuple(mark + L.label)
            rest = (L.word + ("." + ext if ext else ""), L.text, ";c")
        else:
            rest = (mark + L.label, L.word + ("." + ext if ext else ""), L.text, ";c")
        for t in rest:
            if t:
                out.append(tuple(t))
        return out

    def line(n, addr, flags, label, word, ext, text, before, xt, gens=gens):
        inst = "%d bytes at %x%s, '%s %s%s %s', after %d lines%s" % (n, addr, " flags %x" % flags if flags else "", label, word,
                                                                  "." + ext if ext else "", text, before, "" if xt == (1, 1) else ", condition %s" % (xt,))
        L = Line(label=label, word=word, flags=MFIF, text=text, effect=made(n, addr, flags, ext, *xt, gens=gens))
        script = [Line(word="first", flags=0, effect=made(7, 1, 0)) for i in range(before)] + [L, None]
        rs = M.go(script, args=("-llist",))
        ck.ob("line", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            ls = listing(st)
            ok = ls is not None and len(ls) == before + 2
            # (the first listing line names the file)
            got = ls[-1] if ls else []
            want = expect(before + 1, n, addr, flags, L, ext, xt == (1, 1), st, gens)
            if not ck.ob("line count", inst, ok, "%s listing lines" % (len(ls) if ls is not None else "no"), where):
                continue
            ck.ob("line", inst, got == want, "listed '%s', expected '%s'" % (show(got), show(want)), where)

    for n in (0, 1, 2, 3, 4, 5, 6, 8, 100):
        for vs in ((0x12, 0x9a, 0xbc, 0xef, 0x34), (5, 0, 0xf, 1, 0), (0xff, 0x80, 0x7f, 0xa0, 0xf0), (0, 0, 0, 0, 0)):
            ck.rule(line, n, 0x1000, 0, "lab", "lda", None, "#1", 0, (1, 1), vs + (1, 2, 3))

    ADDR = (0, 0x7f, 0xf000, 0xffff, 0x10000, 0x12345678)
    for n in (0, 1, 2, 3, 4, 5, 6, 8, 100):
        for addr in ADDR if n in (0, 3, 5) else (0xf000,):
            for fl in (0, SFU, SFB, SFU | SFB) if n in (0, 4, 5) else (0,):
                ck.rule(line, n, addr, fl, "lab", "lda", None, "#1", 0, (1, 1))
    for n in (0, 1, 4, 5):
        for xt in ((1, 1), (0, 1), (1, 0), (0, 0)):
            ck.rule(line, n, 0x1234, 0, "", "ifz", None, "a", 1, xt)
            ck.rule(line, n, 0x1234, 0, "label2", "if", None, "", 0, xt)
    for label in ("", "a", "averylonglabelname"):
        for word, ext, text in (("nop", None, ""), ("lda", "w", "x"), ("dc", "b", "1,2,3"), ("averylongmnemonic", "wx", "some,operands")):
            ck.rule(line, 2, 0x1000, 0, label, word, ext, text, 3, (1, 1))

    def stale(n):
        """A line that generates nothing lists no bytes, whatever the lines before it generated."""
        A = Line(word="dc", flags=0, effect=made(n, 0x2000, 0))
        B = Line(word="set", flags=0, effect=effect(Plab=0x2222, Pflags=0))
        for script, args in (([A, B, None], ("-llist",)), ([Line(word="off", flags=0, effect=effect(ListMode=0)), A, Line(word="on", flags=0, effect=effect(ListMode=1)), B, None], ("-llist",))):
            rs = M.go(script, args=args)
            for st, kind, code in rs:
                ls = listing(st) or [[]]
                want = expect(len(script) - 1, 0, 0x2222, 0, B, st=st)
                ck.ob("bytes of the line only", "%d bytes earlier, %d lines" % (n, len(script)), ls[-1] == want, "listed '%s', expected '%s'" % (show(ls[-1]), show(want)), where)

    for n in (1, 4, 5):
        ck.rule(stale, n)

    def switches(seq, args):
        """Which lines appear, for a sequence of (listing switch, local switch) in force from that line on."""
        script = []
        want = []
        for i, (g, l) in enumerate(seq):
            def eff(I, s, g=g, l=l, i=i):
                made(1, i, 0)(I, s)
                I.gset(s, "ListMode", g)
                p = I.gget(s, "pIncfile")
                fl = I.fget(s, p, "_INCFILE", "flags")
                I.fset(s, p, "_INCFILE", "flags", (cv(fl) & ~NOLIST) | (0 if l else NOLIST))
            L = Line(word="w%d" % i, flags=0, effect=eff)
            script.append(L)
            if g and l:
                want.append((i, L))
        script.append(None)
        inst = "%s %s" % (" ".join("%d%d" % x for x in seq), " ".join(args))
        for st, kind, code in M.go(script, args=args):
            ls = listing(st)
            if not args:
                ck.ob("switches", inst, ls is None, "a listing was written", where)
                continue
            exp = [expect(i + 1, 1, i, 0, L, st=st) for i, L in want]
            ck.ob("switches", inst, ls is not None and ls[1:] == exp, "listed %s" % ([show(x) for x in ls or []],), where)

    import itertools
    for seq in itertools.product(((1, 1), (1, 0), (0, 1), (0, 0)), repeat=3):
        ck.rule(switches, seq, ("-llist",))
    for seq in (((1, 1), (1, 1)), ((0, 1), (1, 1))):
        ck.rule(switches, seq, ())
        ck.rule(switches, seq, ("-Llist",))

    # the LIST directive
    w2 = ck.world({"programlabel": lambda I, s, a, ins: s.ev("label"), "panic": m_panic}, fixed=set(ck.m.globals))

    def directive(text, g, l, g1, l1):
        s = State()
        p = w2.mkobj(s, "inc", None, "zero")
        other = K("INF_MACRO")
        for keep in (0, other):
            w2.fset(s, p, "_INCFILE", "flags", (0 if l else NOLIST) | keep)
            w2.gset(s, "pIncfile", p)
            w2.gset(s, "ListMode", g)
            s2 = s.copy()
            rs = w2.run(s2, "v_list", [w2.mkstr(s2, "text", text), w2.mkobj(s2, "mne", None, "zero")])
            inst = "LIST %s with %d%d%s" % (text, g, l, " in a macro" if keep else "")
            ck.ob("LIST directive", inst, len(rs) > 0, "no result", ck.fnline("v_list"))
            for st, rv in rs:
                a, b = w2.gget(st, "ListMode"), w2.fget(st, p, "_INCFILE", "flags")
                ck.ob("LIST directive", inst, isc(a) and bool(cv(a)) == bool(g1) and isc(b) and cv(b) == ((0 if l1 else NOLIST) | keep),
                      "switches become %s, flags %s" % (a, b), ck.fnline("v_list"))
                ck.ob("LIST label", inst, [e[0] for e in flat(st.trace)].count("label") == 1, "label not defined once", ck.fnline("v_list"))
    for g in (0, 1):
        for l in (0, 1):
            for up in (str.lower, str.upper):
                ck.rule(directive, up("on"), g, l, 1, l)
                ck.rule(directive, up("off"), g, l, 0, l)
                ck.rule(directive, up("localon"), g, l, g, 1)
                ck.rule(directive, up("localoff"), g, l, g, 0)
    for r, n in (("line", 60), ("switches", 60), ("LIST directive", 32), ("bytes of the line only", 6)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C33", run)
