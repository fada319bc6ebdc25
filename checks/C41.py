"""C41: macro definitions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.lines import *
from vsa.mnem import fatal_err


def run(ck):
    S = Source(ck)
    w = S.w
    for f in ("v_macro", "v_execmac"):
        if f not in ck.m.funcs:
            raise AnalysisBroken("%s not found" % f)
    wm, wx = ck.fnline("v_macro"), ck.fnline("v_execmac")
    x, y = Any("x", 2), Any("y", 3)
    q = Any("q", 2, QUOTED)
    c = Any("c", 2, COMMENT)
    table = S.start(table="Ops")

    def begin(src, active=(1, 1), strict=0, npass=1, base=None):
        s = (base or table).copy()
        for f, v in zip(("xtrue", "acctrue"), active):
            w.fset(s, obj("H:ifbase"), "_IFSTACK", f, v)
        w.gset(s, "bStrictMode", strict)
        w.gset(s, "pass", npass)
        w.gset(s, "F_listfile", 0)
        for parts in src:
            S.assume(s, parts)
        s.note["src"] = tuple(tuple(chars_of(*p)) for p in src)
        s.trace = ()
        return s

    def define(s, name, oname="mname"):
        n0 = len(w.exits)
        p = S.line(s, name, oname)
        out = [(st, "return") for st, _ in w.run(s, "v_macro", [p, C(0, 64)])]
        return out + [(st, k) for k, st, i in w.exits[n0:]]

    def lookup(s, name, oname="callname"):
        """Table entry under which a line ' name' is dispatched."""
        rs = w.run(s, "parse", [S.line(s, " " + name + " 1,2", oname)])
        return rs[0] if len(rs) == 1 else (None, None)

    def body(st, mac):
        """Words of the lines a call of the macro reads."""
        if w.fget(st, mac, "_MNE", "vect") != obj("g:v_execmac"):
            return None
        p = S.line(st, "1,2", "calltext")
        rs = w.run(st, "v_execmac", [p, mac])
        if len(rs) != 1:
            return None
        st = rs[0][0]
        inc = w.gget(st, "pIncfile")
        l = w.fget(st, inc, "_INCFILE", "strlist")
        out = []
        for k in range(30):
            if isc(l):
                return st, out
            t = text_at(w, st, T.add(l, C(w.fld("_STRLIST", "buf")[0], 64)))
            if t is None:
                return None
            out.append(t)
            l = w.fget(st, l, "_STRLIST", "next")
        return None

    def words(st, line, n):
        s = st.copy()
        w.gset(s, "mlflag", 0)
        rs = [r for r in S.read(s, [line], keep=True, oname="replay%d" % n)]
        return rs[0] if len(rs) == 1 else (None, None, None)

    def expect(rule, inst, st, name, want):
        for nm in sorted({name, name.upper(), name.capitalize()}):
            s2, mac = lookup(st.copy(), nm)
            ok = mac is not None and not isc(mac)
            ck.ob(rule, inst, ok, "'%s' is not known afterwards" % nm, wm)
            if not ok:
                return
        b = body(s2, mac)
        ck.ob(rule, inst, b is not None, "body undetermined", wx)
        if b is None:
            return
        s3, ls = b
        ck.ob(rule, inst, len(ls) == len(want), "%d lines, expected %d" % (len(ls), len(want)), wm)
        if len(ls) != len(want):
            return
        for n, (l, ws) in enumerate(zip(ls, want)):
            s4, kind, got = words(s3, l, n)
            ck.ob(rule, inst, s4 is not None and kind == "return", "line %d is not a line" % n, wm)
            if s4 is None or kind != "return":
                continue
            for what, g, e in zip(("label", "operation", "operand"), got, ws):
                e = chars_of(*e) if isinstance(e, (list, tuple)) else chars_of(e)
                ck.ob(rule, inst, g is not None and eqtext(w, s4, g, e), "line %d: %s is '%s', expected '%s'" % (n + 1, what, txt(g), txt([C(v, 8) if isinstance(v, int) else v for v in e])), wm)

    BODIES = [
        ("empty", [], []),
        ("one line", [[" lda ", x]], [("", "lda", [x])]),
        ("labels and comments", [["lab dc ", x, " ; ", c], ["lab2: dc ", y], [".l", x, " dc 1"]], [("lab", "dc", [x]), ("lab2", "dc", [y]), ([".l", x], "dc", "1")]),
        ("blank and comment lines", [[], [";", c], [" dc 1"], ["  "]], [("", "", ""), ("", "", ""), ("", "dc", "1"), ("", "", "")]),
        ("quotes", [[' dc "', q, '",', x], [" dc #' ,1"]], [("", "dc", ['"', q, '",', x]), ("", "dc", "#' ,1")]),
        ("argument marks", [[" dc {1},{0}"], ["{2}lab dc 1"]], [("", "dc", "{1},{0}"), ("{2}lab", "dc", "1")]),
        ("end word elsewhere", [["endm"], [" dc endm"], ["; endm"], [" endmx"], [' dc " endm"']], [("endm", "", ""), ("", "dc", "endm"), ("", "", ""), ("", "endmx", ""), ("", "dc", '" endm"')]),
        ("many", [[" dc %d" % i] for i in range(12)], [("", "dc", "%d" % i) for i in range(12)]),
        ("conditionals", [[" if ", x], [" dc 1"], [" else"], [" endif"], [" repeat 2"], [" repend"], [" mexit"]],
         [("", "if", [x]), ("", "dc", "1"), ("", "else", ""), ("", "endif", ""), ("", "repeat", "2"), ("", "repend", ""), ("", "mexit", "")]),
    ]
    ENDS = ([" endm"], ["\tENDM"], [" .endm ; ", c], ["lab endm"], ["  EndM  "])

    def bad(st):
        return [e for e in flat(st.trace) if e[0] in ("err", "panic", "exit")]

    def define_all():
        for name, b, want in BODIES:
            for end in ENDS if name in ("one line", "labels and comments") else ENDS[:1]:
                for mname in ("foo", "Foo_1", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "z", "a" * 300) if name == "one line" else ("foo", "Foo_1"):
                    inst = "%s, end '%s', name %s" % (name, "".join(p if isinstance(p, str) else "??" for p in end), mname[:30])
                    after = [" dc 99"]
                    rs = define(begin(b + [end, after]), mname)
                    ck.ob("definition", inst, len(rs) > 0, "no result", wm)
                    for st, kind in rs:
                        ck.ob("definition", inst, kind == "return" and not bad(st), "diagnosed as an error", wm)
                        if kind != "return":
                            continue
                        ck.ob("definition", inst, len(st.note["src"]) == 1, "%d lines are left to read, expected 1" % len(st.note["src"]), wm)
                        expect("definition", inst, st, mname.lower(), want)

    def again():
        """A second definition in a later pass; two different macros."""
        n1, b1, w1 = BODIES[1]
        n2, b2, w2 = BODIES[2]
        for other, npass in ((b1, 2), (b2, 2), ([], 3)):
            for st, kind in define(begin(b1 + [[" endm"]]), "foo"):
                if kind != "return":
                    continue
                for strict in (0, 1):
                    s = begin(other + [[" endm"], [" dc 7"]], strict=strict, npass=npass, base=st)
                    for st2, kind2 in define(s, "foo", "mname2"):
                        inst = "defined again in pass %d with %d lines, strict %d" % (npass, len(other), strict)
                        ck.ob("again", inst, kind2 == "return" and not bad(st2), "diagnosed as an error", wm)
                        if kind2 == "return":
                            ck.ob("again", inst, len(st2.note["src"]) == 1, "%d lines are left to read" % len(st2.note["src"]), wm)
                            if other is b1:
                                expect("again", inst, st2, "foo", w1)
                s = begin(other + [[" endm"]], strict=1, npass=1, base=st)
                for st2, kind2 in define(s, "foo", "mname2"):
                    ck.ob("again", "defined twice in one pass in strict mode", any(fatal_err(ck.m, e) for e in bad(st2)), "not diagnosed", wm)
                s = begin(b2 + [[" endm"]], base=st)
                for st2, kind2 in define(s, "bar", "mname2"):
                    ck.ob("two", "second macro", kind2 == "return" and not bad(st2), "diagnosed as an error", wm)
                    if kind2 == "return":
                        expect("two", "first macro, another defined later", st2.copy(), "foo", w1)
                        expect("two", "second macro", st2.copy(), "bar", w2)

    def skipped():
        for active in ((0, 1), (1, 0), (0, 0)):
            for name, b, want in BODIES[:3]:
                inst = "%s in a branch not assembled %s" % (name, active)
                rs = define(begin(b + [[" endm"], [" dc 9"]], active), "foo")
                ck.ob("skipped", inst, len(rs) > 0, "no result", wm)
                for st, kind in rs:
                    ck.ob("skipped", inst, kind == "return" and not bad(st), "diagnosed as an error", wm)
                    if kind != "return":
                        continue
                    ck.ob("skipped", inst, len(st.note["src"]) == 1, "%d lines are left to read, expected 1" % len(st.note["src"]), wm)
                    s2, mac = lookup(st, "foo")
                    ck.ob("skipped", inst, mac is not None and isc(mac) and cv(mac) == 0, "the macro is known afterwards", wm)

    def unended():
        for name, b, want in BODIES:
            for active in ((1, 1), (0, 1)):
                rs = define(begin(b, active), "foo")
                ck.ob("no end", name, len(rs) > 0, "no result", wm)
                for st, kind in rs:
                    ck.ob("no end", name, kind != "return" and any(fatal_err(ck.m, e) for e in bad(st)), "the assembly continues", wm)

    define_all()
    again()
    skipped()
    unended()
    for r, n in (("definition", 60), ("again", 10), ("two", 2), ("skipped", 9), ("no end", 9)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C41", run)
