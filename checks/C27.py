"""C27: divisors are not zero and calls through pointers have a target."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.sweep import *
from vsa.mainprog import *

OPERANDS = ["", "0", "n1", "u1", "s1", "e1", "se", "nx", '"ab"', '"', "'a", "1,2", "n1+1,c5", "s1,c5", "u1,s1", "se,e1", "[", "]", "n1+", "+n1",
            "n1 n1", ",", "#1", "(1),y", "1,x", "n1/n1", "n1%n1", "s1/s1", "~s1", "-u1", ".", "*", "..", "c5,n1", "n1/[n1-n1]", "\\"]
TOKENS = ["n1", "u1", "s1", "e1", "se", '"x"', "0", "[", "]", "(", ")", ",", "+", "-", "*", "/", "%", "==", "<", "<=", ">>", "~", "!", "&&", "|", "^",
          "?", "#", "$", "'a", "."]
FEW = ["n1", "e1", "[", "]", ",", "/", "%", "-", "~", "?", "*", "!"]


def run(ck):
    jobs = []
    m = ck.m
    S = Sweep(ck, reads=False)
    S.w.max_steps = 400000
    S.prelude()
    w = S.w
    KINDS = ("division", "call")

    def judge(rule, inst, ps, n, where):
        ck.cov["divisions met"] = S.mon.count["div"]
        ck.ob(rule, inst, n > 0, "no outcome", where)
        ck.ob(rule, inst, not ps, "; ".join("%s at %s" % (t, wh) for k, wh, t in ps[:2]), ps[0][1] if ps else where)

    names = sorted({e.name for e in mne_table(m, "Ops")})

    def directive(op):
        for o in OPERANDS:
            if op in ("set",) and o in ("n1+1,c5", "u1,s1", "se,e1", "c5,n1", "s1,c5"):
                continue        # composed names: the text depends on the value
            for lab in ("", "a", "n1") if o in ("n1", "u1", "0", "n1/n1") else ("a",):
                ps, n = S.problems(KINDS, [lab + " " + op + " " + o])
                judge("directives", "%s %s %s" % (lab, op, o), ps, n, "directive " + op)
    for op in names:
        jobs.append((directive, op,))

    # alignment and reservation in segments of every kind
    def segments(op, flags):
        for o in ("n1", "n1,n1", "0", "u1", "n1,u1"):
            def setup(s):
                seg = w.gget(s, "Csegment")
                w.fset(s, seg, "_SEGMENT", "flags", flags)
            for redo in (0, 1):
                ps, n = S.problems(KINDS, ["a %s %s" % (op, o)], setup=lambda s: (setup(s), w.gset(s, "Redo", redo)))
                judge("directives", "%s %s, segment flags %d, redo %d" % (op, o, flags, redo), ps, n, "directive " + op)
    U, R, B = K("SF_UNKNOWN", "SF_RORG", "SF_BSS")
    for op in names:
        if op in ("align", "ds", "org", "rorg", "repeat", "dc", "dv", "seg"):
            for fl in (0, U, R, B, R | B, U | R):
                jobs.append((segments, op, fl,))

    # expressions
    def expression(toks, modes=(0, 1)):
        text = "".join(toks)
        for mode in modes:
            s = S.base.copy()
            S.mon.problems.clear()
            n0 = len(w.exits)
            rs = w.run(s, "eval", [w.mkstr(s, "etext", text), C(mode, 32)])
            ps = [p for p in S.mon.problems if p[0] in KINDS]
            judge("expressions", "%s (mode %d)" % (text, mode), ps, len(rs) + len(w.exits) - n0, ck.fnline("eval"))
    for n in (1, 2):
        for t in itertools.product(TOKENS, repeat=n):
            jobs.append((expression, t,))
    for t in itertools.product(FEW, repeat=3):
        jobs.append((expression, t, (0,),))
    for t in itertools.product(("/", "%"), ("n1", "e1", "[n1-n1]", "[0]", "(n1&1)", "-1", "~n1", "c5"), ("", "/n1", "%n1", "+1", "*2")):
        jobs.append((expression, ("n1",) + t,))

    # instructions of every processor
    def instructions(table, cpu):
        Q = Sweep(ck, table=table, reads=False, processor=cpu)
        Q.w.max_steps = 400000
        Q.prelude()
        done = set()
        for e in mne_table(m, table):
            k = (e.vect, e.okmask, e.flags)
            if k in done:
                continue
            done.add(k)
            for o in ("", "n1", "u1", "#n1", "s1", "n1,n1", "n1,x", "(n1),y", "[n1]", "n1,n1,n1", "nx"):
                ps, n = Q.problems(KINDS, ["a %s %s" % (e.name, o)])
                judge("instructions", "%s %s %s" % (table, e.name, o), ps, n, "instruction " + e.name)
    for table, cpu in (("Mne6502", 6502), ("Mne65c02", 6502), ("Mne6803", 6803), ("MneHD6303", 6303), ("Mne68705", 68705), ("Mne68HC11", 6811), ("Mne68908", 68908), ("MneF8", 0xf8)):
        if table in m.globals:
            jobs.append((instructions, table, cpu,))

    # words of the table lead to handlers
    tables = sorted(n for n, g in m.globals.items() if not g.ext and g.ty.size % m.types["%struct._MNE"].size == 0 and (n == "Ops" or n.startswith("Mne")))

    def table(t):
        try:
            L = mne_table(m, t)
        except AnalysisBroken as e:
            ck.ob("tables", t, False, str(e), "table " + t)
            return
        size = m.types["%struct._MNE"].size
        vo, no = m.struct_fields("_MNE")["vect"][0], m.struct_fields("_MNE")["name"][0]
        for i in range(len(L), m.globals[t].ty.size // size):
            s = State()
            nm = w.load(s, T.add(w.gaddr(t), C(i * size + no, 64)), 8)
            ck.ob("tables", "%s entry %d" % (t, i), isc(nm) and cv(nm) == 0, "a word without handler ends the table", "table " + t)
        for e in L:
            ck.ob("tables", "%s %s" % (t, e.name), bool(e.vect) and e.vect in m.funcs, "no handler", "table " + t)
    for t in tables:
        jobs.append((table, t,))

    # lines that name no known word are not dispatched
    M = Main(ck)

    def unknown(word, flags, label):
        L = [Line(word="org", flags=0, effect=bypass(effect(Redo=1, Redo_why=2), effect(Redo=2, Redo_why=2), None)), Line(word=word, flags=flags, label=label), None] * 12
        rs = M.go(L)
        inst = "line with label '%s', word '%s' %s" % (label, word, "unknown" if flags is None else "known")
        ck.ob("dispatch", inst, len(rs) > 0, "a missing table entry is used", ck.fnline("MainShadow"))
        for st, kind, code in rs:
            n = len([e for e in flat(st.trace) if e[0] == "handler"])
            ck.ob("dispatch", inst, (n == 2 * len([e for e in flat(st.trace) if e[0] == "fopen" and e[1] == "src"])) == (flags is not None), "%d handlers called" % n, ck.fnline("MainShadow"))
    for label in ("", "a"):
        jobs.append((unknown, "zz", None, label,))
        jobs.append((unknown, "", None, label,))
        jobs.append((unknown, "dc", 0, label,))
    ck.fan(jobs)
    if ck.cov.get("divisions met", 0) < 20 and not ck.viol:
        raise AnalysisBroken("only %d divisions met" % ck.cov.get("divisions met", 0))
    for r, n in (("directives", 1500), ("expressions", 4000), ("instructions", 300), ("tables", 300), ("dispatch", 8)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C27", run)
