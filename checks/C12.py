"""C12: every diagnosed error ends in a non-zero exit status."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.flow import *
from vsa.mainprog import *


def run(ck):
    m = ck.m
    D = errdefs(m)
    NEG = K("ERROR_REPEAT_NEGATIVE")

    def where_ins(ins):
        return "%s:%s" % m.loc(ins.dbg)

    # --- report sites: fatal by number, aborting, or followed by a request for another pass
    def sites():
        F = Flow(ck)
        pend = set()
        called = {ins.a[0][1] for f in m.funcs.values() for b in f.blocks.values() for ins in b.insts if ins.op == "call" and ins.a[0][0] == "g"}
        for n, (p, q) in F.sum.items():
            if n not in called or n == "main" or n == "MainShadow" or addrtaken(n):
                pend |= p
        for k, (f, ins, ev, av) in sorted(F.reports.items(), key=lambda x: (x[1][0].name, m.loc(x[1][1].dbg))):
            nm = "?" if ev is None else "/".join("error %s" % e for e in sorted(ev, key=str))
            inst = "%s in %s" % (nm, f.name)
            if ev is not None:
                ck.ob("error number", inst, all(isinstance(e, int) and 0 < e < len(D) for e in ev), "reports error number %s" % sorted(ev, key=str), where_ins(ins))
            if ev == {NEG}:
                continue
            ck.ob("report site", inst, k not in pend, "the error neither stops the assembly nor asks for another pass", where_ins(ins))

    taken = set()
    for g in m.globals.values():
        collect(g.init, taken)
    for f in m.funcs.values():
        for b in f.blocks.values():
            for ins in b.insts:
                if ins.op == "store" and ins.a[0][0] == "g" and ins.a[0][1] in m.funcs:
                    taken.add(ins.a[0][1])

    def addrtaken(n):
        return n in taken

    def exits():
        """Ending the process directly: with a non-zero status."""
        F = Flow(ck)
        for f in m.funcs.values():
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == "call" and ins.a[0] in (("g", "exit"), ("g", "_exit"), ("g", "_Exit")):
                        v = F.values(f, ins.a[1][0][1])
                        if v is not None and any(isinstance(x, tuple) for x in v):
                            ck.ob("exit status", "exit in %s" % f.name, f.name == "asmerr" or status_from_callers(F, f, v), "status not determined", where_ins(ins))
                        else:
                            ck.ob("exit status", "exit in %s" % f.name, bool(v) and all(x & 255 for x in v), "ends with status %s" % v, where_ins(ins))

    def status_from_callers(F, f, v):
        i = [x[1] for x in v if isinstance(x, tuple)][0]
        ok = True
        for g in m.funcs.values():
            for b in g.blocks.values():
                for ins in b.insts:
                    if ins.op == "call" and ins.a[0] == ("g", f.name):
                        w = F.values(g, ins.a[1][i][1])
                        ok = ok and (w is None or all(isinstance(x, tuple) or x & 255 for x in w))
        return ok

    # --- the process's own end
    M = Main(ck)
    WH = ck.fnline("MainShadow")

    def status(rule, inst, script, zero, **kw):
        rs = M.go(script, **kw)
        ck.ob(rule, inst, len(rs) > 0, "no result", WH)
        for st, kind, code in rs:
            if code is not None:
                code = M.w.subst(st, code)
            det = code is not None and isc(code)
            if zero:
                ck.ob(rule, inst, det and cv(code) & 255 == 0 and kind != "panic", "ends with status %s, expected success" % code, WH)
            else:
                ck.ob(rule, inst, det and cv(code) & 255 != 0, "ends with status %s, expected failure" % code, WH)

    H = lambda e, **k: Line(word="x", flags=0, effect=e, **k)
    ok = H(None)
    redo = lambda n, why=2: effect(Redo=n, Redo_why=why, Redo_eval=0)

    def clean():
        for opts in ((), ("-v3",), ("-llst",), ("-Llst",), ("-P5",), ("-R",), ("-ssym",), ("-f3", "-p1")):
            status("success", "no lines %s" % (opts,), [None], True, args=opts)
            status("success", "one line %s" % (opts,), [ok, None], True, args=opts)
            if "-p1" not in opts:
                status("success", "second pass clean %s" % (opts,), [H(bypass(redo(3), None)), None, H(bypass(redo(3), None)), None], True, args=opts)
        for e, fatal, text in D:
            if 0 < e:
                status("success", "error %d only in an earlier pass" % e, [H(bypass(report(e, Redo=3, Redo_why=2), None)), None] * 2, True)

    def errors():
        for e, fatal, text in D:
            if e <= 0 or e == K("ERROR_BADERROR"):
                continue
            for opts in ((), ("-llst",), ("-v1",)):
                status("aborting error", "error %d %s" % (e, opts), [ok, H(report(e, True)), ok, None], False, args=opts)
            if not fatal:
                continue
            for opts in ((), ("-llst",), ("-P5",), ("-R",), ("-v3",)):
                status("fatal error", "error %d in the only pass %s" % (e, opts), [ok, H(report(e)), ok, None], False, args=opts)
            status("fatal error", "error %d in the last line" % e, [ok, H(report(e)), None], False)
            status("fatal error", "error %d in the second pass" % e, [H(bypass(redo(3), report(e))), None] * 2, False)
            status("fatal error", "error %d in the last allowed pass" % e, [H(bypass(redo(3), redo(2), report(e))), None] * 3, False, args=("-p3",))
            status("fatal error", "error %d in both passes" % e, [H(bypass(report(e, Redo=3, Redo_why=2), report(e))), None] * 2, False)
            status("fatal error", "error %d after a mere warning" % e, [H(report(NEG)), H(report(e)), H(report(NEG)), None], False)

    def unresolved():
        for opts in ((), ("-llst",), ("-v2",)):
            status("unresolved", "same reasons twice %s" % (opts,), [H(redo(3)), None] * 2, False, args=opts)
        for n in (1, 2, 3, 5):
            for o in ("-p%d", "-P%d"):
                status("unresolved", "new reasons in every pass, %s" % (o % n), [H(bypass(*[redo(20 - k, 2 + k) for k in range(8)])), None] * (n + 1), False, args=(o % n,))
        status("unresolved", "same reasons in every pass, all passes", [H(redo(3)), None] * 5, False, args=("-P4",))
        status("unresolved", "new reasons in every pass, default limit", [H(bypass(*[redo(40 - k, 2 + k) for k in range(16)])), None] * 16, False)
        status("unresolved", "Redo by -1", [H(redo(-1)), None] * 2, False)

    def words():
        status("unknown word", "one", [ok, Line(word="nonsense"), ok, None], False)
        status("unknown word", "second pass", [H(bypass(redo(3), None)), None, Line(word="nonsense"), None], False)
        status("unknown word", "with listing", [Line(word="nonsense"), None], False, args=("-llst",))

    def ends():
        status("open comment", "at the end", [H(effect(mlflag=1)), None], False)
        status("open comment", "at the end, with listing", [H(effect(mlflag=1)), None], False, args=("-llst",))
        status("macro count", "unclosed", [H(effect(nMacroDeclarations=2, nMacroClosings=1)), None], False)
        status("macro count", "unclosed, with listing", [H(effect(nMacroDeclarations=1, nMacroClosings=0)), None], False, args=("-llst",))
        status("macro count", "closed", [H(effect(nMacroDeclarations=2, nMacroClosings=2)), None], True)

    def fls():
        for nm, opts in (("a.out", ()), ("out", ("-oout",)), ("lst", ("-llst",)), ("lst", ("-Llst",)), ("src", ())):
            status("cannot open", "%s %s" % (nm, opts), [ok, None], False, args=opts, opens={nm: (False,)})
        for nm in ("a.out", "lst"):
            M.badwrite = (nm,)
            status("cannot write", nm, [ok, None], nm != "a.out", args=("-llst",)) if nm == "a.out" else None
            M.badwrite, M.badclose = (), (nm,)
            if nm == "a.out":
                status("cannot write", nm + " on closing", [ok, None], False, args=("-llst",))
                status("cannot write", nm + " on closing, after an error", [H(report(6)), None], False)
            M.badwrite, M.badclose = (), ()

    for r in (sites, exits, clean, errors, unresolved, words, ends, fls):
        ck.rule(r)
    for r, n in (("report site", 60), ("error number", 60), ("exit status", 4), ("success", 40), ("aborting error", 100), ("fatal error", 250), ("unresolved", 14),
                 ("unknown word", 3), ("open comment", 2), ("macro count", 3), ("cannot open", 5), ("cannot write", 3)):
        ck.need(r, n)


def collect(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "g" and isinstance(v[1], str):
            out.add(v[1])
        for x in v:
            collect(x, out)
    elif isinstance(v, list):
        for x in v:
            collect(x, out)


if __name__ == "__main__":
    main("C12", run)
