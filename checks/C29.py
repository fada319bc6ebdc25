"""C29: streams are opened, checked, used and closed in order."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *

USES = {"write": 1, "fclose": 1, "seek": 1, "tell": 1, "err": 1, "read": 2}


def run(ck):
    where = ck.fnline("MainShadow")
    use = lambda k: (lambda I, s, a, ins: (s.ev("write", a[k]), C(1, 32))[1])
    M = Main(ck, real=("closegenerate", "outlistfile", "DumpSymbolTable"), models={
        "ftell": lambda I, s, a, ins: (s.ev("tell", a[0]), C(4, 64))[1], "putc": use(1), "fputc": use(1), "_IO_putc": use(1), "fputs": use(1),
        "ferror": lambda I, s, a, ins: (s.ev("err", a[0]), C(1 if M.sname(s, a[0]) in M.badwrite else 0, 32))[1],
        "ShowSymbols": lambda I, s, a, ins: s.ev("write", a[0]), "fflush": use(0),
    })
    w = M.w

    def setup(s):
        for g in ("stdout", "stderr"):
            w.gset(s, g, w.mkobj(s, g + "stream", 8, "zero"))
    STD = {"stdoutstream", "stderrstream"}

    def opens(st, e):
        return [x for x in flat(st.trace) if x[0] == e]

    def typestate(inst, st, kind):
        """Walk the events: every use is of an open stream, every stream is closed once."""
        live, names, bad, count = {}, {}, [], {}
        for e in flat(st.trace):
            if e[0] == "fopen":
                for p, n in live.items():
                    if n == e[1] and n != "src" and e[2][:1] in "wa":
                        bad.append("'%s' is opened again before it was closed" % n)
                live[T.show(e[3])] = e[1]
                names[T.show(e[3])] = e[1]
                count[e[1]] = count.get(e[1], 0) + 1
            elif e[0] in USES:
                p = e[USES[e[0]]]
                if isc(p):
                    bad.append("%s on no stream" % e[0])
                    continue
                p = T.show(p)
                if any(x in p for x in STD):
                    continue
                if p not in names:
                    bad.append("%s on an unknown stream %s" % (e[0], p))
                elif p not in live:
                    bad.append("%s on '%s' after it was closed" % (e[0], names[p]))
                if e[0] == "fclose":
                    live.pop(p, None)
        ck.ob("use of streams", inst, not bad, "; ".join(sorted(set(bad))), where)
        return live, count

    def course(inst, script, args, status, passes, left=(), fails=None, **kw):
        rs = M.go(script, args=args, setup=setup, **kw)
        ck.ob("course", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            live, count = typestate(inst, st, kind)
            if code is not None:
                code = w.subst(st, code)
            ck.ob("status", inst, code is not None and isc(code) and (cv(code) & 255 == 0) == (status == 0), "ends with status %s" % code, where)
            if kind == "return" and not left:
                ck.ob("closed", inst, not live, "%s not closed at the end" % sorted(live.values()), where)
            elif left:
                ck.ob("closed", inst, not set(live.values()) - set(left), "%s not closed" % sorted(set(live.values()) - set(left)), where)
            out = [a[2:] for a in args if a[:2] == "-o"]
            ck.ob("opened", inst, count.get((out or ["a.out"])[-1], 0) == passes, "the output file is opened %s times in %d passes" % (count.get((out or ["a.out"])[-1], 0), passes), where)
            for a in args:
                if a[:2] in ("-l", "-L"):
                    ck.ob("opened", inst, count.get(a[2:], 0) == passes, "the listing is opened %d times in %d passes" % (count.get(a[2:], 0), passes), where)
                    md = [e[2] for e in opens(st, "fopen") if e[1] == a[2:]]
                    want = ["w"] + ["a" if a[1] == "L" else "w"] * (passes - 1)
                    ck.ob("listing mode", inst, [x[:1] for x in md] == want, "the listing is opened with %s" % md, where)
            ck.ob("output mode", inst, all(e[2].startswith("wb") or e[2] == "w+b" for e in opens(st, "fopen") if e[1] in (out or ["a.out"])[-1:]), "the output is opened with %s" % [e[2] for e in opens(st, "fopen")], where)

    H = lambda e=None, **k: Line(word="x", flags=0, effect=e, **k)
    redo = lambda n, why=2: effect(Redo=n, Redo_why=why, Redo_eval=0)
    RAS = K("FORMAT_RAS")

    def gen(I, s):
        """A handler that produced output."""
        I.gset(s, "Fisclear", 0)
        s.ev("write", I.gget(s, "FI_temp"))

    def inc(name):
        return lambda I, s: I.call(s, "pushinclude", [I.mkstr(s, "iname", name)])

    def both(*fs):
        def f(I, s):
            sts = [s]
            for g in fs:
                nxt = []
                for x in sts:
                    r = g(I, x)
                    nxt += [y for y, rv in r] if isinstance(r, list) else [x]
                sts = nxt
            return [(x, None) for x in sts]
        return f
    OPTS = [(), ("-llst",), ("-Llst",), ("-oout",), ("-llst", "-oout"), ("-f2",), ("-f3",), ("-f2", "-llst"), ("-ssym",), ("-v3",), ("-Llst", "-v4", "-f2"), ("-R",), ("-R", "-llst")]

    def clean(opts):
        for n in (1, 2, 3, 4):
            steps = [redo(20 - k, 2 + k) for k in range(n - 1)] + [None]
            for body, what in ((lambda k: [H(bypass(*[both(gen, x) if x else gen for x in steps]))], "one line"),
                               (lambda k: [H(gen), H(bypass(*steps))], "two lines"), (lambda k: [H(bypass(*steps)), Line(label="l"), H(inc("sub")), H(gen), Line(), None, H(gen)], "an included file"),
                               (lambda k: [H(inc("s1")), H(inc("s2")), H(gen), None, None, H(bypass(*steps))], "nested included files")):
                script = []
                for k in range(n):
                    script += body(k) + [None]
                course("%d passes, %s, %s" % (n, what, " ".join(opts)), script, opts, 0, n)
    for o in OPTS:
        ck.rule(clean, o)

    FATAL, WARN = K("ERROR_SYNTAX_ERROR", "ERROR_LABEL_MISMATCH")

    def failing(opts):
        nm = " ".join(opts)
        course("fatal error, %s" % nm, [H(gen), H(report(FATAL)), None], opts, 1, 1)
        course("fatal error in pass 2, %s" % nm, [H(bypass(redo(3), report(FATAL))), None] * 2, opts, 1, 2)
        course("unresolved, %s" % nm, [H(redo(3)), None] * 2, opts, 1, 2)
        course("too many passes, %s" % nm, [H(bypass(*[redo(9 - k, 2 + k) for k in range(5)])), None] * 4, opts + ("-p3",), 1, 3)
        course("open comment, %s" % nm, [H(effect(mlflag=1)), None], opts, 1, 1)
        course("unknown word, %s" % nm, [Line(word="nonsense"), None], opts, 1, 1)
        course("unclosed macro, %s" % nm, [H(effect(nMacroDeclarations=2, nMacroClosings=1)), None], opts, 1, 1)
        course("error after the last line of an included file, %s" % nm, [H(inc("sub")), H(report(WARN)), None, H(report(FATAL)), None], opts, 1, 1)
        course("aborting error, %s" % nm, [H(gen), H(report(FATAL, True)), None], opts, 1, 1, left=("a.out", "out", "lst", "src"))
        course("aborting error in an included file in pass 2, %s" % nm, [H(bypass(redo(3), None)), None, H(inc("sub")), H(report(FATAL, True)), None, None], opts, 1, 2, left=("a.out", "out", "lst", "src", "sub"))
        course("missing included file, %s" % nm, [H(inc("gone")), H(gen), None] * 4, opts, 1, 2, opens={"gone": (False,)})
    for o in OPTS:
        ck.rule(failing, o)

    def noopen(nm, opts, k):
        """The file cannot be opened in pass k."""
        class At(dict):
            def get(self, n, d=None):
                if n != nm:
                    return d
                self.c = getattr(self, "c", 0) + 1
                return (False,) if self.c == k else (True,)
        script = []
        for q in range(k):
            script += [H(bypass(*[redo(20 - q, 2 + q) for q in range(k)])), None]
        inst = "'%s' cannot be opened in pass %d, %s" % (nm, k, " ".join(opts))
        rs = M.go(script, args=opts, setup=setup, opens=At(x=1))
        ck.ob("cannot open", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            typestate(inst, st, kind)
            code = w.subst(st, code)
            ck.ob("cannot open", inst, isc(code) and cv(code) & 255 != 0, "ends with status %s" % code, where)
            ev = flat(st.trace)
            i = [q for q, e in enumerate(ev) if e[0] == "fopenfail"]
            ck.ob("cannot open", inst, bool(i) and not [e for e in ev[i[0]:] if e[0] in ("handler", "parse", "fopen")], "assembling goes on", where)
    for k in (1, 2, 3):
        for nm, opts in (("a.out", ()), ("out", ("-oout",)), ("a.out", ("-llst",)), ("lst", ("-llst",)), ("lst", ("-Llst", "-f2")), ("src", ()), ("src", ("-llst",))):
            ck.rule(noopen, nm, opts, k)

    def nosym():
        rs = M.go([H(gen), None], args=("-ssym",), setup=setup, opens={"sym": (False,)})
        for st, kind, code in rs:
            typestate("symbol file cannot be opened", st, kind)
    ck.rule(nosym)

    def badout(how):
        M.badwrite, M.badclose = (("a.out",), ()) if how == "writing" else ((), ("a.out",))
        try:
            for opts in ((), ("-llst",), ("-f2",)):
                course("%s the output fails, %s" % (how, " ".join(opts)), [H(gen), None], opts, 1, 1)
        finally:
            M.badwrite, M.badclose = (), ()
    for how in ("writing", "closing"):
        ck.rule(badout, how)

    # directives that write to the listing do so only if there is one
    W = lambda k: (lambda I, s, a, ins: (s.ev("write", a[k]), C(1, 32))[1])
    w2 = ck.world({"programlabel": lambda I, s, a, ins: None, "panic": m_panic, "generate": lambda I, s, a, ins: None, "fputs": W(1), "putc": W(1), "fputc": W(1), "_IO_putc": W(1), "fprintf": W(0), "fwrite": W(3),
                   "addmsg": lambda I, s, a, ins: None, "passbuffer_update": lambda I, s, a, ins: None, "puts": lambda I, s, a, ins: C(1, 32), "printf": lambda I, s, a, ins: C(1, 32), "eval": m_eval}, fixed=set(ck.m.globals))

    def directive(fn, text, listing):
        s = State()
        L = w2.mkobj(s, "liststream", 8, "zero")
        setup2(s)
        w2.gset(s, "FI_listfile", L if listing else 0)
        w2.gset(s, "F_listfile", w2.mkstr(s, "lname", "lst") if listing else 0)
        p = w2.mkobj(s, "inc", None, "zero")
        w2.fset(s, p, "_INCFILE", "name", w2.mkstr(s, "iname", "src"))
        w2.gset(s, "pIncfile", p)
        w2.gset(s, "bStopAtEnd", w2.mkobj(s, "stop", 12, "zero"))
        inst = "%s %s, %s" % (fn, text, "listing" if listing else "no listing")
        rs = w2.run(s, fn, [w2.mkstr(s, "text", text), w2.mkobj(s, "mne", None, "zero")])
        ck.ob("listing", inst, len(rs) > 0, "no result", ck.fnline(fn))
        for st, rv in rs:
            ps = [T.show(e[1]) for e in flat(st.trace) if e[0] == "write"]
            bad = [p for p in ps if not any(x in p for x in STD) and not (listing and p == T.show(L))]
            ck.ob("listing", inst, not bad, "writes to %s" % bad, ck.fnline(fn))

    def setup2(s):
        for g in ("stdout", "stderr"):
            w2.gset(s, g, w2.mkobj(s, g + "stream", 8, "zero"))
    for lst in (False, True):
        for t in ("12", "1g", "zz", "1", ""):
            ck.rule(directive, "v_hex", t, lst)
        for t in ("a", "a,b"):
            ck.rule(directive, "v_echo", t, lst)
    for r, n in (("use of streams", 250), ("closed", 250), ("opened", 250), ("cannot open", 40), ("listing", 14), ("listing mode", 80)):
        ck.need(r, n)


def m_eval(I, s, a, ins):
    from vsa.interp import cstring
    t = cstring(I, s, a[0])
    nxt = C(0, 64)
    for k in range(t.count(b",") + 1):
        p = I.mkobj(s, "opnd%d" % k, None, "zero")
        I.fset(s, p, "_SYMBOL", "value", 5 + k)
        I.fset(s, p, "_SYMBOL", "next", nxt)
        nxt = p
    return nxt


if __name__ == "__main__":
    main("C29", run)
