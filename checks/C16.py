"""C16: lines in a false conditional have no effect other than tracking nesting."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.mainprog import *

EFFECT = ("label", "eval", "err", "gen", "panic", "exit", "list", "seek", "free", "fclose", "afterfree", "doublefree")
NESTING = ("if", "ifconst", "ifnconst", "else", "endif", "eif", "repeat", "repend", "mac", "macro")
OPENERS = ("if", "ifconst", "ifnconst", "repeat")
# top conditional of an inactive region: (xtrue, acctrue)
INACTIVE = ((0, 1), (0, 0), (1, 0))
NZ = sym("condition", 64)


def run(ck):
    m = ck.m
    IFB, MFIF, MFBEGM, MFENDM, MFMAC = K("IFF_BASE", "MF_IF", "MF_BEGM", "MF_ENDM", "MF_MACRO")
    allflags = K("MF_IMOD", "MF_REL", "MF_MASK")

    # --- main loop: what is dispatched
    def dispatch():
        M = Main(ck)
        where = ck.fnline("MainShadow")

        def settop(x, a):
            def f(I, s):
                t = I.gget(s, "Ifstack")
                I.fset(s, t, "_IFSTACK", "xtrue", x)
                I.fset(s, t, "_IFSTACK", "acctrue", a)
            return f

        def lines(flagged):
            out = [("label only", Line(label="lab")), ("empty line", Line()), ("unknown word", Line(word="frob")), ("unknown word with label", Line(label="l", word="frob"))]
            for fl in flagged:
                out.append(("statement with flags %02x" % fl, Line(word="stmt", flags=fl)))
                out.append(("statement with label and flags %02x" % fl, Line(label="l", word="stmt", flags=fl, text="x")))
            return out
        fls = sorted({0, MFMAC, MFENDM, *allflags, *[e.flags for t in tables(m) for e in mne_table(m, t)]})
        for x, a in INACTIVE + ((1, 1),):
            act = x and a
            for what, L in lines(fls):
                nest = L.flags is not None and L.flags & MFIF
                for pre in (0, 2):
                    inst = "%s in a %s block%s" % (what, "true" if act else "false (%d,%d)" % (x, a), " after others" if pre else "")
                    script = [Line(word="if", flags=MFIF, effect=settop(x, a))] + [Line(label="p", word="frob") if not act else Line(label="p")] * pre + [L, None]
                    rs = M.go(script)
                    ck.ob("dispatch", inst, len(rs) > 0, "no result", where)
                    for st, kind, code in rs:
                        ev = flat(st.trace)
                        i = max([k for k, e in enumerate(ev) if e[0] == "read" and e[1] == 1 + pre] or [0])
                        seg = ev[i:]
                        j = next((k for k, e in enumerate(seg) if e[0] == "read" and e[1] > 1 + pre), len(seg))
                        seg = seg[:j]
                        h = sum(1 for e in seg if e[0] == "handler")
                        lb = sum(1 for e in seg if e[0] == "label")
                        er = sum(1 for e in seg if e[0] == "update")
                        if act:
                            ck.ob("dispatch", inst, (h == 1 and lb == 0 and er == 0) if L.flags is not None else (h == 0 and er > 0) if L.word else (h == 0 and lb == 1 and er == 0),
                                  "handler called %d times, label %d, message parts %d" % (h, lb, er), where)
                        elif nest:
                            ck.ob("nesting seen", inst, h == 1 and lb == 0 and er == 0, "nesting statement not passed on (handler %d, label %d, error %d)" % (h, lb, er), where)
                        else:
                            ck.ob("skipped", inst, h == 0 and lb == 0 and er == 0, "a skipped line is acted on: handler %d, label %d, error %d" % (h, lb, er), where)
                            ck.ob("skipped", inst + " (exit)", isc(code) and cv(code) == 0, "exit code %s" % code, where)

    def tables(m):
        out = []
        for g in m.globals.values():
            if g.ty.k == "arr" and "_MNE" in repr(g.ty):
                out.append(g.name)
        names = [n for n in m.globals if n.startswith("Mne") and n[3:4].isalnum()] if not out else out
        return sorted(set(names) | {"Ops"}) if names else ["Ops"]

    # --- statements passed on although the block is false
    def marked():
        N = Nest(ck)
        if len(tables(m)) < 8:
            raise AnalysisBroken("instruction tables not found")
        seen = set()
        for t in tables(m):
            for e in mne_table(m, t):
                if e.flags & MFIF:
                    seen.add(e.name)
                    if t != "Ops":
                        ck.ob("marked statements", "%s %s" % (t, e.name), False, "an instruction is executed in false conditionals", t)
        for n in NESTING:
            ck.ob("marked statements", n, n in seen or n not in N.ops, "nested %s is not counted in false conditionals" % n, "Ops")
            if n not in N.ops:
                raise AnalysisBroken("directive %s not in the table" % n)
        closers = {N.ops[n].vect for n in ("else", "endif", "repend")}
        macro = N.ops["mac"].vect
        for n in sorted(seen):
            if n not in N.ops or N.ops[n].vect in closers or N.ops[n].vect == macro:
                continue
            for x, a in INACTIVE:
                for outer in ((), ((0, 1, 1),), ((0, 0, 1),)):
                    for frames in ("f", "fm", "ff"):
                        ifs = tuple(outer) + ((len(frames) - 1, x, a),)
                        inst = "%s in a false (%d,%d) block, %d outer, frames %s" % (n, x, a, len(outer), frames)
                        s = N.state(frames, ifs, value=NZ)
                        N.w.limit(s, NZ, ((1, 100),))
                        opener(N, s, n, inst)

    def opener(N, s0, n, inst):
        where = N.where(n)
        s = s0.copy()
        old = N.top(s)
        rs = N.run(s, n)
        ck.ob("opening", inst, len(rs) > 0, "no result", where)
        for st, k in rs:
            ev = N.events(st, *EFFECT)
            ck.ob("opening", inst, k == "return" and not ev, "effect in a false block: %s" % ev[:3], where)
            t = N.top(st)
            ch = [o for o in N.changed(s0, st) if o not in ("g:Ifstack", "H:mne", "H:mnename", "H:text")]
            ck.ob("opening", inst + " (state)", not ch, "changes %s" % ch, where)
            if not ck.ob("opening", inst + " (level)", t is not old and N.w.fget(st, t, "_IFSTACK", "next") is old, "no level is opened", where):
                continue
            ck.ob("stays false", inst, N.active(st) is False, "the nested block is active", where)
            for toggles in (1, 2):
                st2 = st.copy()
                bad = False
                for _ in range(toggles):
                    r2 = N.run(st2.copy(), "else")
                    if len(r2) != 1 or r2[0][1] != "return":
                        bad = True
                        break
                    st2 = r2[0][0]
                    ev = N.events(st2, *EFFECT)
                    ck.ob("stays false", inst + " ELSE", not ev and N.active(st2) is False, "ELSE of a nested conditional acts (%s)" % ev[:2], N.where("else"))
                if bad:
                    ck.ob("stays false", inst + " ELSE", False, "no single result", N.where("else"))
                    continue
                for end in ("endif", "repend" if n == "repeat" else "eif"):
                    for st3, k3 in N.run(st2.copy(), end):
                        ev = [e for e in N.events(st3, *EFFECT) if e[0] != "free"]
                        fr = N.events(st3, "free")
                        ck.ob("matched", "%s closed by %s" % (inst, end), k3 == "return" and not ev and N.top(st3) is old and len(fr) == 1,
                              "level not closed quietly: %s" % ev[:2], N.where(end))
                        ch = [o for o in N.changed(s0, st3) if o not in ("g:Ifstack", "H:mne", "H:mnename", "H:text")]
                        ck.ob("matched", "%s closed by %s (state)" % (inst, end), not ch and N.active(st3) is False, "changes %s" % ch, N.where(end))

    # --- conditions and ELSE
    def conditions():
        N = Nest(ck)
        w = N.w
        cases = []
        for n in ("if",):
            cases += [(n, "nonzero", ((1, (1 << 64) - 1),), False, True), (n, "zero", ((0, 0),), False, False), (n, "undecided", ((0, (1 << 64) - 1),), True, None)]
        cases += [("ifconst", "defined", ((0, (1 << 64) - 1),), False, True), ("ifconst", "undefined", ((0, (1 << 64) - 1),), True, False),
                  ("ifnconst", "defined", ((0, (1 << 64) - 1),), False, False), ("ifnconst", "undefined", ((0, (1 << 64) - 1),), True, True),
                  ("ifconst", "string", ((0, (1 << 64) - 1),), False, True), ("ifnconst", "string", ((0, (1 << 64) - 1),), False, False),
                  ("repeat", "zero", ((0, 0),), False, False), ("repeat", "positive", ((1, 1 << 30),), False, True)]
        for n, what, R, unk, want in cases:
            for outer in ((), ((0, 1, 1),)):
                for frames in ("f", "fm"):
                    inst = "%s %s, %d outer, frames %s" % (n, what, len(outer), frames)
                    where = N.where(n)
                    s = N.state(frames, outer, value=NZ, unknown=unk)
                    if what == "string":
                        N.operand(s, NZ, string=True)
                    w.limit(s, NZ, R)
                    old = N.top(s)
                    rs = N.run(s.copy(), n)
                    ck.ob("condition", inst, len(rs) > 0, "no result", where)
                    for st, k in rs:
                        ev = N.events(st, "err", "panic", "exit", "gen", "afterfree", "doublefree")
                        ck.ob("condition", inst, k == "return" and not ev, "reports %s" % ev[:2], where)
                        lb = len(N.events(st, "label"))
                        ck.ob("condition", inst + " label", lb == 1, "label defined %d times" % lb, where)
                        t = N.top(st)
                        ck.ob("condition", inst + " level", t is not old and w.fget(st, t, "_IFSTACK", "next") is old
                              and same(w, st, w.fget(st, t, "_IFSTACK", "file"), N.frames[-1]), "no level opened for the current file", where)
                        ck.ob("condition", inst + " truth", N.active(st) is bool(want), "block is %s" % {True: "assembled", False: "skipped", None: "undetermined"}[N.active(st)], where)
                        if n == "repeat":
                            continue
                        for st2, k2 in N.run(st.copy(), "else"):
                            a2 = N.active(st2)
                            exp = False if want is None else not want
                            ck.ob("else", inst, k2 == "return" and a2 is exp, "after ELSE the block is %s" % {True: "assembled", False: "skipped", None: "undetermined"}[a2], N.where("else"))
                            below = N.changed(st, st2, ("g:Ifstack",) + tuple([t.a[0]] if t.op == "obj" else []))
                            below = [o for o in below if o not in ("H:mne", "H:mnename", "H:text")]
                            ck.ob("else", inst + " others", not below, "ELSE changes %s" % below, N.where("else"))
                            for st3, k3 in N.run(st2.copy(), "endif"):
                                ck.ob("endif", inst, k3 == "return" and N.top(st3) is old and N.active(st3) is True and not N.events(st3, "err", "afterfree", "doublefree"),
                                      "ENDIF does not restore the enclosing level", N.where("endif"))
                                ch = [o for o in N.changed(s, st3) if o not in ("H:mne", "H:mnename", "H:text", "g:Redo", "g:Redo_why", "g:Redo_if", "g:Ifstack")]
                                ck.ob("endif", inst + " others", not ch, "changes %s" % ch, N.where("endif"))
        # ELSE and ENDIF outside any conditional
        for n in ("else", "endif"):
            s = N.state("f", ())
            for st, k in N.run(s.copy(), n):
                ck.ob("outermost", n, k == "return" and N.active(st) is True and N.top(st) is N.top(s) and not N.events(st, "free"), "the outermost level is changed", N.where(n))

    # --- macro definitions in false blocks
    def macros():
        lines = ["body", "body", "endm"]

        def fgets(I, s, a, ins):
            k = s.note.get("ln", 0)
            s.note["ln"] = k + 1
            s.ev("read", k)
            return a[0] if k < s.note["nlines"] else C(0, 64)

        def parse(I, s, a, ins):
            k = s.note["ln"] - 1
            w = I
            last = k == s.note["nlines"] - 1
            p = w.mkobj(s, "pm%d" % k, None, "zero")
            w.fset(s, p, "_MNE", "flags", MFENDM if last else 0)
            w.gset(s, "Av", w.mkstr(s, "pav", "w"), 8, 8)
            w.gset(s, "Av", w.mkstr(s, "pav0", "lab"), 0, 8)
            return p
        for found in (None, "macro", "instruction"):
            def findmne(I, s, a, ins):
                if found is None:
                    return C(0, 64)
                p = I.mkobj(s, "known", None, "zero")
                I.fset(s, p, "_MACRO" if found == "macro" else "_MNE", "flags", MFMAC if found == "macro" else 0)
                if found == "macro":
                    I.fset(s, p, "_MACRO", "defpass", 3)
                return p
            N = Nest(ck, {"fgets": fgets, "parse": parse, "cleanup": lambda I, s, a, ins: I.mkstr(s, "cm", ""), "findmne": findmne})
            w = N.w
            for x, a in INACTIVE:
                for strict in (0, 1):
                    for nl in (1, 3):
                        for word in ("mac", "macro"):
                            s = N.state("f", ((0, x, a),), strict=strict)
                            s.note["nlines"] = nl
                            inst = "%s in a false (%d,%d) block, %d lines, name is %s%s" % (word, x, a, nl, found or "new", ", strict" if strict else "")
                            rs = N.run(s.copy(), word, text="name")
                            ck.ob("macro definition", inst, len(rs) > 0, "no result", N.where(word))
                            for st, k in rs:
                                ev = N.events(st, *EFFECT)
                                rd = len(N.events(st, "read"))
                                ch = [o for o in N.changed(s, st) if not o.startswith(("H:mne", "H:text", "H:frame", "H:pav", "H:pm")) and o not in ("g:Av",)]
                                ck.ob("macro definition", inst, k == "return" and not ev and not ch, "effect of a skipped definition: %s %s" % (ev[:2], ch), N.where(word))
                                ck.ob("macro definition", inst + " extent", rd == nl, "%d of %d lines taken" % (rd, nl), N.where(word))

    # --- macro arguments on skipped lines
    def arguments():
        N = Nest(ck)
        w = N.w
        if "cleanup" not in m.funcs:
            raise AnalysisBroken("line cleanup not found")
        wh = ck.fnline("cleanup")
        for x, a in INACTIVE + ((1, 1),):
            for text in (" dc.b {1}", " dc.b {1", "{3} x {1}", " x ; {1}"):
                s = N.state("fm", ((1, x, a),))
                w.fset(s, N.frames[1], "_INCFILE", "args", 0)
                buf = w.mkobj(s, "linebuf", 1024, "zero")
                o = w.getobj(s, "H:linebuf").mod()
                for i, c in enumerate(text.encode() + b"\n"):
                    w.put(o, i, C(c, 8))
                s.mem["H:linebuf"] = o
                w.gset(s, "mlflag", 0) if "mlflag" in m.globals else None
                rs = w.run(s, "cleanup", [buf, C(0, 1)])
                inst = "%r in a %s block" % (text, "true" if x and a else "false (%d,%d)" % (x, a))
                bad = [e for st, _ in rs for e in N.events(st, "err", "panic")]
                if x and a:
                    continue
                ck.ob("macro arguments", inst, len(rs) > 0 and not bad, "error on a skipped line: %s" % bad[:1], wh)

    # --- the label field of a skipped line
    def labels():
        N = Nest(ck, {"findmne": lambda I, s, a, ins: C(0, 64), "findext": lambda I, s, a, ins: None})
        w = N.w
        for x, a in INACTIVE:
            for text, what in (("lab stmt op", "plain label"), (" stmt op", "no label"), ("lab,arg stmt op", "label argument")):
                s = N.state("f", ((0, x, a),), value=NZ)
                buf = w.mkobj(s, "linebuf", 1024, "zero")
                o = w.getobj(s, "H:linebuf").mod()
                for i, c in enumerate(text.encode()):
                    w.put(o, i, C(c, 8))
                s.mem["H:linebuf"] = o
                rs = w.run(s, "parse", [buf])
                ev = [e for st, _ in rs for e in N.events(st, "eval", "err", "label")]
                ck.ob("label field", what if "arg" in what else "%s in a false (%d,%d) block" % (what, x, a), len(rs) > 0 and not ev, "evaluated on a skipped line", ck.fnline("parse"))

    for r in (dispatch, marked, conditions, macros, arguments, labels):
        ck.rule(r)
    for r, n in (("dispatch", 150), ("skipped", 150), ("nesting seen", 6), ("marked statements", 10), ("opening", 100), ("stays false", 100), ("matched", 100), ("condition", 40),
                 ("else", 20), ("endif", 20), ("macro definition", 60), ("macro arguments", 12), ("label field", 9)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C16", run)
