"""C39: heap blocks and symbol lists are released once and not used afterwards."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.sweep import *
from vsa.mainprog import *

OPERANDS = ["", "0", "1", "n1", "u1", "s1", "e1", "se", "nx", '"ab"', '"', "1,2", "s1,c5", "u1,s1", "se,e1", "[", "]", "n1+", "s1+s1", "se+se", '"a"+"b"',
            "s1 s1", '"x","y"', ",", "#s1", "(s1),y", "~s1", "-se", ".", "\\", "s1==se", "s1,s1,s1"]
KINDS = ("release", "released")


def run(ck):
    jobs = []
    m = ck.m
    S = Sweep(ck, reads=False)
    S.w.max_steps = 600000
    S.prelude()
    w = S.w

    def judge(rule, inst, ps, n, where):
        ck.cov["releases met"] = S.mon.count["free"] + S.mon.count["release"]
        ck.ob(rule, inst, n > 0, "no outcome", where)
        ck.ob(rule, inst, not ps, "; ".join("%s at %s" % (t, wh) for k, wh, t in ps[:2]), ps[0][1] if ps else where)

    names = sorted({e.name for e in mne_table(m, "Ops")})

    def directive(op):
        for o in OPERANDS:
            if op == "set" and "," in o and o not in ("1,2", "s1,c5", '"x","y"', ","):
                continue        # composed names: the text depends on the value
            for lab in ("a", "s1", "e1") if o in ("s1", "1", "u1", '"ab"', "se") else ("a",):
                ps, n = S.problems(KINDS, [lab + " " + op + " " + o])
                judge("directives", "%s %s %s" % (lab, op, o), ps, n, "directive " + op)
    for op in names:
        jobs.append((directive, op,))

    # files that exist, or are found in an include directory only
    def files(op, arg, dirs, found, size):
        ps, n = S.problems(KINDS, [" incdir " + d for d in dirs] + ["a %s %s" % (op, arg)], fopen=found, fread=size)
        judge("files", "%s %s, %d directories, %s" % (op, arg, len(dirs), "found" if found else "not found"), ps, n, "directive " + op)
    for op in ("include", "incbin"):
        for arg in ('"x"', "s1", '"x",1', '"x",u1', "x", "se", "nx"):
            for dirs in ((), ('"d"',), ("d", '"e/"')):
                for found in (True, False):
                    for size in ((), (10,), (1024, 3)):
                        if op == "incbin" or not size:
                            jobs.append((files, op, arg, dirs, found, size,))

    # the same symbol defined in several ways, then used
    DEFS = ['a set "x"', "a set s1", "a set 5", "a set u1", "a eqm n1", 'a eqm "q"', 'a equ "x"', "a equ 5", "a setstr zz", "a setsym s1", "a setsym a", "a set a",
            "a set a+a", "a", "a = se", "a eqm", "a eqm a", "a set se,5"]
    USES = [" dc.b a", " echo a,a", "b set a", " dv e1 a", " if a", " endif", " ifconst a", " endif", "c equ a", " err"]

    def redefine(ds):
        ps, n = S.problems(KINDS, list(ds) + USES)
        judge("redefinition", "; ".join(ds), ps, n, "symbol definitions")
    for ds in itertools.product([d for d in DEFS if d != "a set se,5"], repeat=2):
        if "a eqm a" in ds:
            continue            # endless evaluation
        jobs.append((redefine, ds,))
    for d in DEFS[:7]:
        for e in DEFS[:7]:
            jobs.append((redefine, (d, e, d),))
            jobs.append((redefine, (d, e, "a setsym a", d),))

    # conditionals, loops and macros opened and closed in any order
    STEPS = [" m 1,b", " if 1", " if 0", " else", " eif", " repeat 2", " repeat 0", " repend", " mexit", " endm", " end", " subroutine"]
    body = (" nop", " endm")

    def structure(steps):
        ps, n = S.problems(KINDS, [" mac m"] + list(steps), lines=body)
        judge("structure", ";".join(x.strip() for x in steps), ps, n, "block directives")
    for k in (1, 2, 3):
        for steps in itertools.product(STEPS, repeat=k):
            jobs.append((structure, steps,))
    for pre in ((" m 1", " if 1", " repeat 2"), (" m", " m 2"), (" repeat 3", " m 1,2,3", " repeat 2"), (" if 1", " m", " if 0")):
        for steps in itertools.product((" if 1", " repeat 1", " repend", " mexit", " eif", " end", " else"), repeat=2):
            jobs.append((structure, pre + steps,))

    # instructions
    def instructions(table, cpu):
        Q = Sweep(ck, table=table, reads=False, processor=cpu)
        Q.w.max_steps = 600000
        Q.prelude()
        done = set()
        for e in mne_table(m, table):
            k = (e.vect, e.okmask, e.flags)
            if k in done or len(done) > 24:
                continue
            done.add(k)
            for o in ("", "n1", "u1", "#s1", "s1", "s1,s1", "(n1),y", "n1,n1,n1", "nx"):
                ps, n = Q.problems(KINDS, ["a %s %s" % (e.name, o)])
                judge("instructions", "%s %s %s" % (table, e.name, o), ps, n, "instruction " + e.name)
    for table, cpu in (("Mne6502", 6502), ("Mne68HC11", 6811), ("MneF8", 0xf8), ("Mne68705", 68705)):
        if table in m.globals:
            jobs.append((instructions, table, cpu,))

    # end of files: names, frames and what was left open in them
    M = Main(ck, models={"free": None})
    mon = Monitor(M.w, reads=False, calls=False)
    mw = M.w

    def push(name):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, "pushinclude", [I.mkstr(s, "inc_" + name, name)])]
        return f

    def call(fn, *args):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, fn, [I.mkstr(s, "t_" + fn, a) if isinstance(a, str) else C(a, 64) for a in args])]
        return f

    def push_if(x):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, "pushif", [C(x, 32)])]
        return f
    H = lambda e=None: Line(word="x", flags=K("MF_IF"), effect=e)
    scripts = {"plain": [H(), None], "one file": [H(push("i1")), H(), None, H(), None],
               "nested files": [H(push("i1")), H(push("i2")), None, H(), None, H(), None],
               "conditional left open": [H(push_if(1)), H(push("i1")), H(push_if(1)), H(push_if(0)), None, H(), None],
               "conditional left open at the end": [H(push_if(1)), None],
               "two files": [H(push("i1")), None, H(push("i1")), None, None]}

    def ends(name, args, redo):
        mon.problems.clear()
        body = scripts[name]
        extra = [H(bypass(effect(Redo=1, Redo_why=2), None))] if redo else []
        rs = M.go((extra + body) * 3, args=args)
        ps = [p for p in mon.problems if p[0] in KINDS]
        judge("end of file", "%s %s%s" % (name, " ".join(args), ", two passes" if redo else ""), ps, len(rs), ck.fnline("MainShadow"))
    for name in scripts:
        for args in ((), ("-v4",), ("-ll.txt",), ("-v4", "-ll.txt")):
            for redo in (0, 1):
                jobs.append((ends, name, args, redo,))

    # the messages of a pass
    P = Sweep(ck, reads=False, real=("passbuffer_update",))
    pw = P.w

    def messages(ops):
        sts = [P.base.copy()]
        P.mon.problems.clear()
        for op in ops:
            nx = []
            for st in sts:
                if op[0] == "update":
                    a = [C(op[1], 32), pw.mkstr(st, "msg%d" % op[2], "x" * op[2])]
                elif op[0] == "cleanup":
                    a = []
                else:
                    a = [C(op[1], 32)]
                nx += [x for x, rv in pw.run(st, "passbuffer_" + op[0], a)]
            sts = nx
        ps = [p for p in P.mon.problems if p[0] in KINDS]
        judge("messages", " ".join("%s%s" % (o[0], list(o[1:]) or "") for o in ops), ps, len(sts), "message buffers")
    up, big = ("update", 0, 10), ("update", 0, 9000)
    for seq in ([up], [up, ("clear", 0), up], [big, big, up], [big, big, ("output", 0), big, big, ("clear", 0), up, ("output", 0)], [("update", 1, 9000), big, ("update", 1, 9000), big, ("output", 1)], []):
        jobs.append((messages, seq + [("cleanup",)],))
    ck.fan(jobs)
    for r, n in (("directives", 1000), ("files", 80), ("redefinition", 300), ("structure", 1800), ("instructions", 100), ("end of file", 40), ("messages", 6)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C39", run)
