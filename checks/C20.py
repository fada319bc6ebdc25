"""C20: recognition of operation words and suffixes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.lines import *
from vsa.mnem import *

DIRECTIVES = ("include incbin incdir seg dc ds dv hex err org rorg processor echo rend align subroutine equ = eqm set setstr mac macro endm mexit "
              "ifconst ifnconst if else endif eif repeat repend list byte word long end").split()

# documented suffixes: first letters -> forced mode
SUFFIX = {"i": "IMP", "ind": "INDWORD", "0": "IMP", "0x": "0X", "0y": "0Y", "l": "LONG", "r": "REL", "u": "BSS", "s": "OTHER_ENDIAN"}
for a in "bzd":
    SUFFIX.update({a: "BYTEADR", a + "x": "BYTEADRX", a + "y": "BYTEADRY"})
for a in "wea":
    SUFFIX.update({a: "WORDADR", a + "x": "WORDADRX", a + "y": "WORDADRY"})


def both(c):
    """Value sets of a letter in either case and of everything else that can be part of a word."""
    o = ord(c)
    up = ord(c.upper())
    yes = sorted({o, up})
    no = []
    lo = 33
    for x in yes + [ord("."), 128]:
        pass
    for x in sorted(set(yes + [ord("."), ord(":"), ord("="), 128])):
        if lo <= x - 1:
            no.append((lo, x - 1))
        lo = x + 1
    no.append((lo, 255))
    return [(x, x) for x in yes], [r for r in no]


def run(ck):
    L = Lines(ck)
    w = L.w
    NAMES = ["if", "ifn", "ifnconst", "i", "lda", "ldax", "=", "x" * 40]
    where = L.where

    def expect(rule, inst, rs, k):
        ck.ob(rule, inst, len(rs) > 0, "no result", where)
        for st, rv in rs:
            if rv is None:
                ck.ob(rule, inst, False, "error reported", where)
            elif k is None:
                ck.ob(rule, inst, isc(rv) and cv(rv) == 0, "recognised as %s" % name(rv), where)
            else:
                ck.ob(rule, inst, rv == L.ptrs[k], "recognised as %s" % name(rv), where)

    def name(rv):
        if isc(rv):
            return "nothing" if cv(rv) == 0 else "?"
        for i, p in enumerate(L.ptrs):
            if p == rv:
                return NAMES[i]
        return "?"

    def exact():
        for k, n in enumerate(NAMES):
            if n == "=":
                continue
            for t in sorted({n, n.upper(), n.capitalize(), "." + n, "." + n.upper()}):
                for line in (" " + t, "  " + t + " op", "lab " + t + " op", "lab: " + t, "#" + t + " op"):
                    expect("found", "'%s'" % line, L.parse(L.state(NAMES), line), k)
        for line in ("a=b", "a = b", "a =b", " = b"):
            expect("found", "'%s'" % line, L.parse(L.state(NAMES), line), NAMES.index("="))
        for t in ("", "ld", "ldaxx", "ld a", "ifnc", "xif", "..if", "if_", "iff", "ifnconstx", "x" * 39, "x" * 41, "l", "1lda", "_lda"):
            expect("not found", "'%s'" % t, L.parse(L.state(NAMES), " " + t + " op" if " " not in t else " " + t), None)
        # a word in the first column is a label
        for t in ("lda", "if"):
            expect("not found", "label '%s'" % t, L.parse(L.state(NAMES), t), None)

    def symbolic():
        """One character of the word is arbitrary."""
        for k, n in enumerate(NAMES):
            if n == "=" or len(n) > 20 or n in ("i",):
                continue
            for pos in range(len(n)):
                for pre in ("", "."):
                    c = sym("c", 8)
                    yes, no = both(n[pos])
                    for rng, hit in [([y], True) for y in yes] + [([r], False) for r in no]:
                        s = L.state([n])
                        w.limit(s, c, tuple(rng))
                        b = [ord(x) for x in " " + pre + n + " op"]
                        b[1 + len(pre) + pos] = c
                        if pos == 0 and not pre and not hit:
                            # '#', '^' as first characters have other meanings
                            w.limit(s, c, tuple(r for r in rng if not (r[0] <= 35 <= r[1] or r[0] <= 94 <= r[1])) or ((97, 97),))
                        rs = L.parse(s, b)
                        inst = "%s%s with %s at %d" % (pre, n, "its letter" if hit else "another character", pos)
                        ck.ob("any character", inst, len(rs) > 0, "no result", where)
                        for st, rv in rs:
                            if hit:
                                ck.ob("any character", inst, rv == L.ptrs[0], "not recognised", where)
                            else:
                                ck.ob("any character", inst, rv is not None and isc(rv) and cv(rv) == 0, "recognised", where)

    def tables():
        """Every name of the tables can be found once the table is in use."""
        m = ck.m
        for tab in ["Ops"] + [x[1] for x in TABLES]:
            s = State()
            w.gset(s, "bStrictMode", 0)
            rs = w.run(s, "addhashtable", [obj("g:" + tab)])
            ck.ob("table", tab, len(rs) == 1, "no single result", ck.fnline("addhashtable"))
            if len(rs) != 1:
                continue
            s = rs[0][0]
            es = mne_table(m, tab)
            last = {}
            for e in es:
                last[e.name] = e
            for e in last.values():
                if e.name == "=":
                    continue
                for t in (e.name, e.name.upper()):
                    rs = L.parse(s.copy(), " " + t + " op")
                    ok = len(rs) == 1 and rs[0][1] is not None and not isc(rs[0][1])
                    if ok:
                        st, rv = rs[0]
                        nm = L.chars(st, w.fget(st, rv, "_MNE", "name"))
                        v = w.fget(st, rv, "_MNE", "vect")
                        ok = txt(nm) == e.name and v == obj("g:" + e.vect)
                    ck.ob("table name", "%s %s" % (tab, t), ok, "not found", ck.fnline("addhashtable"))
        ops = {e.name: e for e in mne_table(m, "Ops")}
        for d in DIRECTIVES:
            ck.ob("directive", d, d in ops, "documented directive missing", "Ops")

    def suffixes():
        AMV = {n: K("AM_" + n) for n in set(SUFFIX.values())}
        none = -1

        def mnext(st):
            v = w.gget(st, "Mnext")
            return sv(v) if isc(v) else None

        def go(text, want, inst, word="lda", setup=None):
            s = L.state(NAMES)
            if setup:
                setup(s)
            w.gset(s, "Mnext", 12345)
            rs = L.parse(s, text)
            ck.ob("suffix", inst, len(rs) > 0, "no result", where)
            for st, rv in rs:
                ck.ob("suffix", inst, rv == L.ptrs[NAMES.index(word)], "word not recognised", where)
                ck.ob("suffix", inst, mnext(st) == want, "selects %s, expected %s" % (mnext(st), want), where)
        for sfx, mode in SUFFIX.items():
            for v in {sfx, sfx.upper(), sfx.capitalize(), sfx[:-1] + sfx[-1].upper()}:
                go(" lda." + v + " op", AMV[mode], "lda." + v)
                go("lab LDA." + v, AMV[mode], "LDA." + v)
        for line in (" lda op", " lda", " .lda op", "x lda op", " lda a.b", "l.b lda", " lda . "):
            go(line, none, "'%s'" % line)
        # one-letter suffix followed by another letter that has no meaning
        for a, mode in (("l", "LONG"), ("r", "REL"), ("u", "BSS"), ("s", "OTHER_ENDIAN")):
            c = sym("c", 8)
            go([ord(x) for x in " lda." + a] + [c, 32, 97], AMV[mode], "lda.%s?" % a, setup=lambda s: w.limit(s, c, ((48, 57), (65, 90), (97, 122))))
        for a in "bzdwea":
            c = sym("c", 8)
            skip = set("xy") | (set("ib") if a in "bzd" else set())
            ok = tuple((ord(x), ord(x)) for x in "abcdefghijklmnopqrstuvwz" if x not in skip)
            go([ord(x) for x in " lda." + a] + [c, 32, 97], AMV["BYTEADR" if a in "bzd" else "WORDADR"], "lda.%s?" % a, setup=lambda s: w.limit(s, c, ok))

    for g in (exact, symbolic, tables, suffixes):
        ck.rule(g)
    for r, n in (("found", 100), ("not found", 12), ("any character", 40), ("table name", 900), ("directive", 38), ("suffix", 200)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C20", run)
