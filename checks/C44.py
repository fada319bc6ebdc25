"""C44: names composed of parts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.lines import *
from vsa.symtab import *
from vsa.mnem import *

VALUES = (0, 7, 10, 90, 255, 256, 4660, 65535, 1000000)
SHOW = {"a": "a", "b": "b+1", "c": "c", "d": "c*2"}


def run(ck):
    UNK, STRING = K("SYM_UNKNOWN", "SYM_STRING")

    def ev(I, s, a, ins):
        t = text_at(I, s, a[0], 2000)
        if t is None or not all(isc(c) for c in t):
            t = s.note.get("final") and tuple(t or ())
            s.ev("final", t)
        else:
            t = bytes(cv(c) for c in t).decode("latin-1")
            s.ev("eval", t)
        vals = dict(s.note.get("vals", ()))
        n = s.note.get("nev", 0)
        s.note["nev"] = n + 1
        p = I.mkobj(s, "arg%d" % n, None, "zero")
        fl, v, st = vals.get(t, vals.get(None, (UNK, 0, None)))
        I.fset(s, p, "_SYMBOL", "flags", fl)
        I.fset(s, p, "_SYMBOL", "value", v)
        I.fset(s, p, "_SYMBOL", "next", 0)
        I.fset(s, p, "_SYMBOL", "addrmode", K("AM_BYTEADR"))
        I.fset(s, p, "_SYMBOL", "string", I.mkstr(s, "argstr%d" % n, st) if st is not None else 0)
        return p

    def evs(st, *k):
        return [e[1] for e in flat(st.trace) if e[0] in k]

    x = Any("x", 2)
    q = Any("q", 2)
    r = Any("r", 3)
    # parts: ("e", text) expression, ("s", characters) quoted
    SHAPES = [
        [("e", "a")], [("e", "b+1")], [("s", q)], [("e", "a"), ("e", "b+1")], [("s", q), ("e", "a")], [("e", "a"), ("s", q)], [("s", q), ("s", r)],
        [("e", "a"), ("s", q), ("e", "b+1")], [("s", q), ("e", "a"), ("s", r)], [("e", "a"), ("e", "a"), ("e", "a")], [("e", "a"), ("e", "b+1"), ("e", "c"), ("e", "c*2")],
        [("s", "")], [("s", ""), ("e", "a")],
    ]

    def written(shape):
        out = []
        for k, v in shape:
            out += [',"', v, '"'] if k == "s" else ["," + v]
        return [p for p in out if p != ""]

    def composed(base, shape, vals):
        out = list(base)
        for k, v in shape:
            out.append(v if k == "s" else str(vals[v]))
        return chars_of(*[p for p in out if p != ""])

    def exprs(shape):
        return [v for k, v in shape if k == "e"]

    def some(shape):
        """Non-empty sets of its expressions."""
        e = sorted(set(exprs(shape)))
        return [tuple(x for k, x in enumerate(e) if b >> k & 1) for b in range(1, 1 << len(e))]

    def assign(shape, i):
        return {v: VALUES[(i + 2 * j) % len(VALUES)] for j, v in enumerate(sorted(set(exprs(shape))))}

    def labels(shape):
        S = Source(ck, {"eval": ev})
        w = S.w
        tag = "".join("(expr)" if k == "e" else "(text)" for k, v in shape)
        for base, bname in ((["x"], "x"), ([x], "name"), ([".", x], ".name")):
            for tail, rest in ((" op", ("op", "")), (": op", ("op", "")), (":", ("", "")), ("", ("", "")), (" = 5", ("=", "5")), ("=a", ("=", "a")), (" dc 1,2", ("dc", "1,2")), (" op (a", ("op", "(a"))):
                for i in range(len(VALUES) if tail == " op" else 1):
                    vals = assign(shape, i)
                    for bad in [None] + (some(shape) if i == 0 else []):
                        inst = "%s%s%s %s" % (bname, tag, tail, "value %s" % list(vals.values())[:3] if bad is None else "%s unresolved" % " and ".join(bad))
                        s = S.start()
                        s.note["vals"] = tuple((k, (UNK, 0, None) if k in (bad or ()) else (0, C(v, 64), None)) for k, v in sorted(vals.items()))
                        rs = S.read(s, list(base) + written(shape) + ([tail] if tail else []))
                        rule = "label" if bad is None else "unresolved part"
                        ck.ob(rule, inst, len(rs) > 0, "no result", S.where)
                        for st, kind, words in rs:
                            err = [e for e in flat(st.trace) if e[0] == "err"]
                            ck.ob(rule, inst, kind == "return" and not err, "error reported", S.where)
                            if kind != "return":
                                continue
                            got = evs(st, "eval", "final")
                            ck.ob("expressions", inst, got == exprs(shape), "evaluated: %s" % (got,), S.where)
                            want = [] if bad is not None else composed(base, shape, vals)
                            ck.ob(rule, inst, eqtext(w, st, words[0], want), "label is '%s'" % txt(words[0]), S.where)
                            for k in (0, 1):
                                ck.ob("rest of the line", inst, eqtext(w, st, words[1 + k], rest[k]), "word %d is '%s'" % (k + 2, txt(words[1 + k])), S.where)

    def open_quote():
        S = Source(ck, {"eval": ev})
        e = errdefs(ck.m)
        for base in (["x"], [x]):
            for parts in ([',"', q], [',"', q, ",a"], [",a", ',"', q], [',"', q, ':']):
                for tail in (" op", ""):
                    for close in ("", ' "s"'):
                        if not tail and close:
                            continue
                        s = S.start()
                        s.note["vals"] = (("a", (0, C(5, 64), None)),)
                        # the quote is left open in the label field
                        L = S.line(s, chars_of(*(list(base) + parts + ([tail + close] if tail else []))))
                        S.assume(s, [x, q])
                        n0 = len(S.w.exits)
                        rs = [(st, "return") for st, _ in S.w.run(s, "parse", [L])] + [(st, k) for k, st, i in S.w.exits[n0:]]
                        inst = "%s%s%s" % ("".join(p if isinstance(p, str) else "??" for p in base + parts), tail, close)
                        ck.ob("open quote", inst, len(rs) > 0, "no result", S.where)
                        for st, k in rs:
                            err = [x_ for x_ in flat(st.trace) if x_[0] == "err"]
                            ck.ob("open quote", inst, any(fatal_err(ck.m, x_) for x_ in err), "accepted", S.where)

    ops = {}
    for en in mne_table(ck.m, "Ops"):
        ops.setdefault(en.name, en)
    for n in ("set", "setstr", "setsym"):
        if n not in ops:
            ck.ob("available", n, False, "directive not found", "directive table")
    V = sym("value", 64)

    def setter(name):
        md = {"eval": ev, "FreeSymbolList": lambda I, s, a, ins: s.ev("freelist"), "free": lambda I, s, a, ins: s.ev("free")}
        S = Symtab(ck, md)
        w = S.w
        where = ck.fnline(ops[name].vect)

        def go(text, vals, assume=()):
            s = S.state([("other", 0, C(77, 64))], 3, 4, 0)
            w.gset(s, "Av", w.mkstr(s, "label", "lab"), 0, 8)
            w.gset(s, "bStrictMode", 0)
            s.note["vals"] = vals
            s.note["final"] = 1
            for p in assume:
                for c in p.cs:
                    w.limit(s, c, p.cls)
            mp = w.mkobj(s, "mne", None, "zero")
            w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", name))
            p, n = S.text(s, [C(c, 8) if isinstance(c, int) else c for c in text], "text")
            n0 = len(w.exits)
            out = [(st, "return") for st, _ in w.run(s, ops[name].vect, [p, mp])]
            return out + [(st, k) for k, st, i in w.exits[n0:]]

        def value(rule, inst, st, want, string=None):
            rs = S.find(st.copy(), "lab")
            if want is None and string is None:
                ck.ob(rule, inst, len(rs) == 1 and isc(rs[0][1]) and cv(rs[0][1]) == 0, "symbol assigned", where)
                return
            ok = len(rs) == 1 and not isc(rs[0][1])
            ck.ob(rule, inst, ok, "symbol not assigned", where)
            if ok:
                st2, p = rs[0]
                f = S.f(st2, p, "flags")
                ck.ob(rule, inst, isc(f) and not cv(f) & S.UNK, "symbol is unresolved", where)
                if string is None:
                    ck.ob(rule, inst, same(w, st2, S.f(st2, p, "value"), want), "value is %s" % S.f(st2, p, "value"), where)
        return S, w, where, go, value

    def sets(shape):
        if "set" not in ops:
            return
        S, w, where, go, value = setter("set")
        tag = "".join("(expr)" if k == "e" else "(text)" for k, v in shape)
        LETTERS = ((65, 90), (97, 122), (48, 57), (95, 95))
        xb = Any("xb", 2, LETTERS)
        sub = {id(q): Any("qs", 2, LETTERS), id(r): Any("rs", 3, LETTERS)}
        shp = [(k, sub.get(id(v), v)) for k, v in shape]
        anys = [v for k, v in shp if isinstance(v, Any)]
        for base, bname in ((["x"], "x"), ([xb], "name"), ([".", xb], ".name")):
            for i in range(len(VALUES)):
                vals = assign(shp, i)
                for bad in [None] + (some(shp) if i == 0 else []):
                    inst = "set %s%s %s" % (bname, tag, "value %s" % list(vals.values())[:3] if bad is None else "%s unresolved" % " and ".join(bad))
                    tab = tuple((k, (UNK, 0, None) if k in (bad or ()) else (0, C(v, 64), None)) for k, v in sorted(vals.items())) + ((None, (0, V, None)),)
                    rs = go(chars_of(*(list(base) + written(shp))), tab, anys + [b for b in base if isinstance(b, Any)])
                    rule = "set" if bad is None else "set with unresolved part"
                    ck.ob(rule, inst, len(rs) > 0, "no result", where)
                    for st, kind in rs:
                        err = [e for e in flat(st.trace) if e[0] == "err"]
                        ck.ob(rule, inst, kind == "return" and not err, "error reported", where)
                        if kind != "return":
                            continue
                        got = evs(st, "eval", "final")
                        n = len(exprs(shp))
                        ck.ob("set expressions", inst, got[:n] == exprs(shp), "evaluated: %s" % (got[:n],), where)
                        if bad is not None:
                            value(rule, inst, st, None)
                            continue
                        want = composed(base, shp, vals)
                        fin = got[n:]
                        ok = len(fin) == 1
                        if ok:
                            f = [C(ord(c), 8) for c in fin[0]] if isinstance(fin[0], str) else list(fin[0] or ())
                            ok = eqtext(w, st, f, want)
                        ck.ob(rule, inst, ok, "evaluates '%s'" % (fin,), where)
                        value(rule, inst, st, V)

    def setstr():
        if "setstr" not in ops:
            return
        S, w, where, go, value = setter("setstr")
        for n in (1, 2, 5, 40):
            t = Any("t", n, ((0x21, 0x21), (0x23, 0x7e)))
            for text, what in (([t], "%d characters" % n), ([t, ",", t], "%d characters, a comma and the same" % n), ([t, " ", t], "two words of %d characters" % n)):
                rs = go(chars_of(*text), ((None, (STRING, 0, "ok")),), [t])
                ck.ob("setstr", what, len(rs) > 0, "no result", where)
                for st, kind in rs:
                    got = evs(st, "eval", "final")
                    ok = kind == "return" and len(got) == 1
                    if ok:
                        f = [C(ord(c), 8) for c in got[0]] if isinstance(got[0], str) else list(got[0] or ())
                        ok = eqtext(w, st, f, chars_of(*(['"'] + text + ['"'])))
                    ck.ob("setstr", what, ok, "evaluates %s" % (got,), where)
                    if kind == "return":
                        value("setstr", what, st, None, "ok")

    def setsym():
        if "setsym" not in ops:
            return
        S, w, where, go, value = setter("setsym")
        for target in ("n", "name1", ".loc", "na_me"):
            for what, tab, want in (("naming %s" % target, (("a", (STRING, 0, target)), (target, (0, V, None))), V),
                                    ("unresolved", (("a", (UNK, 0, None)),), None),
                                    ("unresolved string", (("a", (UNK | STRING, 0, target)),), None),
                                    ("number", (("a", (0, V, None)),), None)):
                rs = go([ord("a")], tab)
                ck.ob("setsym", what, len(rs) > 0, "no result", where)
                for st, kind in rs:
                    err = [e for e in flat(st.trace) if e[0] == "err"]
                    if what == "number":
                        ck.ob("setsym", what, any(fatal_err(ck.m, e) for e in err), "no error", where)
                        continue
                    ck.ob("setsym", what, kind == "return" and not err, "error reported", where)
                    if kind == "return":
                        value("setsym", what, st, want)
                        if want is not None:
                            ck.ob("setsym", what, evs(st, "eval", "final") == ["a", target], "evaluates %s" % evs(st, "eval", "final"), where)

    for sh in SHAPES:
        ck.rule(labels, sh)
        ck.rule(sets, sh)
    ck.rule(open_quote)
    ck.rule(setstr)
    ck.rule(setsym)
    for r_, n in (("label", 300), ("unresolved part", 100), ("expressions", 300), ("rest of the line", 600), ("open quote", 10), ("set", 300), ("set with unresolved part", 20), ("set expressions", 200), ("setstr", 12), ("setsym", 12)):
        ck.need(r_, n)


if __name__ == "__main__":
    main("C44", run)
