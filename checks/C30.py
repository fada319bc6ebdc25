"""C30: -R removes the output of a failed assembly, and only that."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.flow import *
from vsa.mainprog import *
from vsa.interp import cstring

REMOVE = ("unlink", "remove", "_unlink")
END = ("exit", "_exit", "_Exit", "abort", "quick_exit")


def run(ck):
    m = ck.m
    where = ck.fnline("MainShadow")

    # --- every direct end of the process comes after the removal
    def sites():
        F = Flow(ck)
        calls = lambda f, names: [(b, i) for b in f.blocks.values() for i in b.insts if i.op == "call" and i.a[0][0] == "g" and i.a[0][1] in names]
        removers = set(REMOVE)
        for _ in range(6):
            new = set(removers)
            for f in m.funcs.values():
                # (the removal itself is conditional on -R; the scenarios below decide that condition)
                if calls(f, REMOVE):
                    new.add(f.name)
                elif f.name not in new and must(F, f, removers, None):
                    new.add(f.name)
            if new == removers:
                break
            removers = new
        n = 0
        for f in m.funcs.values():
            for b, ins in calls(f, END):
                n += 1
                ck.ob("end of the process", "%s in %s" % (ins.a[0][1], f.name), must(F, f, removers, ins), "the process ends without removing the output", "%s:%s" % m.loc(ins.dbg))
        return n

    def must(F, f, removers, site):
        """Whether a removal was called on every path to the site (or to the returns)."""
        IN = {f.entry: False}
        work, res = [f.entry], []
        while work:
            bn = work.pop()
            st, stop = IN[bn], False
            for ins in f.blocks[bn].insts:
                if ins is site:
                    res.append((bn, st))
                if ins.op == "call" and ins.a[0][0] == "g":
                    n = ins.a[0][1]
                    r = F.report(f, ins)
                    if n in removers:
                        st = True
                    elif r is not None and r[1] and 0 not in r[1] and not any(isinstance(x, tuple) for x in r[1]):
                        st = True       # does not come back: reporting with the abort flag
                    elif n in END:
                        stop = True
                        break
                if ins.op == "ret" and site is None:
                    res.append((bn, st))
            if stop:
                continue
            for nx in f.blocks[bn].succ:
                j = st if nx not in IN else (IN[nx] and st)
                if nx not in IN or j != IN[nx]:
                    IN[nx] = j
                    work.append(nx)
        last = {}
        for b, st in res:       # the latest (lowest) value counts
            last[b] = st and last.get(b, True)
        return all(last.values()) and (site is not None or bool(last))
    ck.rule(sites)

    # --- scenarios
    rem = lambda I, s, a, ins: (s.ev("unlink", cstring(I, s, a[0])), C(0, 32))[1]
    M = Main(ck, real=("panic",), models={n: rem for n in REMOVE})
    w = M.w

    def setup(s):
        for g in ("stdout", "stderr"):
            w.gset(s, g, w.mkobj(s, g + "stream", 8, "zero"))

    def course(inst, script, args, fails, **kw):
        out = ([a[2:] for a in args if a[:2] == "-o"] or ["a.out"])[-1]
        for R in (False, True):
            for av in ((args + ("-R",), ("-R",) + args) if R and args else (args + (("-R",) if R else ()),)):
                nm = "%s, %s" % (inst, " ".join(av) or "no options")
                rs = M.go(script, args=av, setup=setup, **kw)
                ck.ob("course", nm, len(rs) > 0, "no result", where)
                for st, kind, code in rs:
                    ev = flat(st.trace)
                    code = w.subst(st, code) if code is not None else None
                    ck.ob("course", nm, code is not None and isc(code) and (cv(code) & 255 != 0) == fails, "ends with status %s" % code, where)
                    ul = [i for i, e in enumerate(ev) if e[0] == "unlink"]
                    op = [i for i, e in enumerate(ev) if e[0] == "fopen" and e[1] == out and e[2][:1] in "wa"]
                    if R and fails and op:
                        ck.ob("removed", nm, bool(ul) and all(ev[i][1] == out.encode() for i in ul), "the output file is not removed (removals: %s)" % [ev[i][1] for i in ul], where)
                        ck.ob("removed", nm, bool(ul) and ul[-1] > op[-1], "the output file is opened again after its removal", where)
                    else:
                        ck.ob("kept", nm, not ul, "%s is removed" % [ev[i][1] for i in ul], where)

    H = lambda e=None, **k: Line(word="x", flags=0, effect=e, **k)
    redo = lambda n, why=2: effect(Redo=n, Redo_why=why, Redo_eval=0)
    call = lambda fn, *a: (lambda I, s: I.call(s, fn, [C(x, 64) if isinstance(x, int) else I.mkstr(s, "carg", x) for x in a]))
    D = errdefs(m)

    def all_ways(opts):
        course("success", [H(), None], opts, False)
        course("success in pass 3", [H(bypass(redo(9), redo(8), None)), None] * 3, opts, False)
        course("success after errors in pass 1", [H(bypass(report(D[6][0], Redo=3, Redo_why=2), None)), None] * 2, opts, False)
        course("unresolved", [H(redo(3)), None] * 2, opts, True)
        course("too many passes", [H(bypass(*[redo(20 - k, 2 + k) for k in range(16)])), None] * 12, opts, True)
        course("unknown word", [Line(word="nonsense"), None], opts, True)
        course("unknown word in pass 2", [H(bypass(redo(3), None)), None, Line(word="nonsense"), None], opts, True)
        course("open comment", [H(effect(mlflag=1)), None], opts, True)
        course("unclosed macro", [H(effect(nMacroDeclarations=2, nMacroClosings=1)), None], opts, True)
        course("internal failure", [H(call("panic", "text")), None], opts, True)
        course("internal failure in pass 2", [H(bypass(redo(3), call("panic", "text"))), None] * 2, opts, True)
        course("source missing", [None], opts, True, opens={"src": (False,)})
        course("output cannot be opened", [None], opts, True, opens={([a[2:] for a in opts if a[:2] == "-o"] or ["a.out"])[-1]: (False,)})
        if any(a[:2].lower() == "-l" for a in opts):
            course("listing cannot be opened", [None], opts, True, opens={"lst": (False,)})
        for how in ("badwrite", "badclose"):
            setattr(M, how, (([a[2:] for a in opts if a[:2] == "-o"] or ["a.out"])[-1],))
            try:
                course("output incomplete (%s)" % how, [H(), None], opts, True)
            finally:
                M.badwrite, M.badclose = (), ()
        course("bad option", [H(), None], opts + ("-q",), True)
        course("bad format number", [H(), None], opts + ("-f9",), True)
    for o in ((), ("-oout",), ("-llst",), ("-f3", "-oz", "-v2"), ("-ssym",)):
        ck.rule(all_ways, o)

    def errors():
        for e, fatal, text in D:
            if e <= 0 or e == K("ERROR_BADERROR"):
                continue
            course("aborting error %d" % e, [H(report(e, True)), None], (), True)
            if fatal:
                course("fatal error %d" % e, [H(report(e)), None], (), True)
        course("aborting error in pass 2", [H(bypass(redo(3), report(D[6][0], True))), None] * 2, ("-oq",), True)
        course("ERR", [H(call("v_err", "", 0)), None], (), True)
    ck.rule(errors)
    for r, n in (("end of the process", 4), ("removed", 100), ("kept", 150)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C30", run)
