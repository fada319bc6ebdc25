"""C50: nothing is read through a null pointer, past the end of a line's text or outside an object."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.sweep import *
from vsa.mainprog import *
from vsa.mnem import errdefs

OPERANDS = ["", "0", "1", "n", "on", "off", "a", "n1", "u1", "s1", "e1", "se", "nx", '"ab"', '"', "1,2", "s1,c5", "u1,s1", "se,e1", "[", "]", "n1+", "s1+s1", "se+se", '"a"+"b"',
            "s1 s1", '"x","y"', ",", "#s1", "(s1),y", "~s1", "-se", ".", "\\", "s1==se", "s1,s1,s1"]
TOKENS = ["n1", "u1", "s1", "e1", "se", '"x"', '"', "'", "'a", "0", "$", "$f", "%", "%1", "[", "]", "(", ")", ",", "+", "-", "*", "/", "==", "=", "<", "<=", ">>", "~", "!", "&&", "|", "^", "?", ":", "#", ".", "..", "...", "\\", "{", "}", "@"]
FEW = ["n1", "s1", "[", "]", ",", '"', "'", "-", "?", "#", "("]
LINES = ["", " ", "a", "a ", "a:", "a: ", ":", " :", "a=", "a =", "a= ", "=", " =", "^", " ^", "^a", " ^ a", "#", " #", "# dc", " # dc.b 1", "a #dc", ",", "a,", "a, ", "a,=", 'a,"', 'a,"b', 'a,"b"', 'a,"b" = 1', "a,c5", "a,c5,",
         "a,c5 = 1", "a,u1 = 1", "a,s1 = 1", "a,nx", 'a,"b",c5: nop', ".", " .", ".a", " .a", "..", "a.b", " dc.", " .dc", " dc..b", " dc.q", " .b.w", " lda.", " lda.w", "$", "a$", "1$", ";", " ;", "a;b", "a ;b",
         "/*", "/", "*/", " /*a*/ nop", " nop/*", " nop /", "'", " '", " dc.b '", " dc.b 'a", " dc.b ''", ' dc.b "', ' dc.b "a', " dc.b \\", "\\", "{", " {", " {1", "{}", " }", "\t", "\tnop", "a\tnop\t", " nop\t;", "a\r", " dc.b 1\r"]
KINDS = ("null", "outside", "past")


def run(ck):
    jobs = []
    m = ck.m
    S = Sweep(ck, tight=True)
    S.w.max_steps = 600000
    S.prelude()
    w = S.w

    def judge(rule, inst, ps, n, where):
        ck.cov["reads of fields"] = S.mon.count["field"]
        ck.cov["pointers given to the library"] = S.mon.count["pointer"]
        ck.ob(rule, inst, n > 0, "no outcome", where)
        ck.ob(rule, inst, not ps, "; ".join("%s at %s" % (t, wh) for k, wh, t in ps[:2]), ps[0][1] if ps else where)

    names = sorted({e.name for e in mne_table(m, "Ops")})

    def directive(op):
        for o in OPERANDS:
            if op == "set" and "," in o and o not in ("1,2", "s1,c5", '"x","y"', ","):
                continue        # composed names: the text depends on the value
            for lab in ("a", "s1", "e1") if o in ("s1", "1", "u1", '"ab"', "se") else ("a",):
                ps, n = S.problems(KINDS, [lab + " " + op + " " + o])
                judge("directives", "%s %s %s" % (lab, op, o), ps, n, "directive " + op)
    for op in names:
        jobs.append((directive, op,))

    # expressions
    def expression(toks, modes=(0, 1)):
        text = "".join(toks)
        for mode in modes:
            s = S.base.copy()
            S.mon.problems.clear()
            n0 = len(w.exits)
            rs = w.run(s, "eval", [w.mkstr(s, "etext", text), C(mode, 32)])
            ps = [p for p in S.mon.problems if p[0] in KINDS]
            judge("expressions", "%s (mode %d)" % (text, mode), ps, len(rs) + len(w.exits) - n0, ck.fnline("eval"))
    for n in (0, 1, 2):
        for t in itertools.product(TOKENS, repeat=n):
            jobs.append((expression, t,))
    for t in ("[n1]d", "[]d", "]d", "[s1]d", "[u1]d", "[n1]d+1", "(n1)d", "[[n1]d]", "n1d", "[\"x\"]d", "[d", "d]d", "[n1]d]d", "1+[2", "n1,x", "n1,y", "(n1),y", "(n1,x)", "(n1", "(n1)", "(n1,", "n1,(", "#n1,n1", "@n1", ">n1", "<n1", ">s1", "<s1", "n1?n1", "n1,xyz", "xn1,y", "n1)", "'", "''", "\"", "\"\"", "\"a\"\"b\"", "$$", "%%", "0x", "0", "08"):
        jobs.append((expression, (t,)))
    for t in itertools.product(FEW, repeat=3):
        jobs.append((expression, t, (0, 1) if t[0] in ("[", "(", "#") else (1,)))

    # lines with parts missing, alone and after another line
    def line(text, listing):
        for pre in ((), (" mac mm",), (" if 0",)):
            ps, n = S.problems(KINDS, list(pre) + [text], listing=listing, lines=(" endm",), setup=lambda s: w.gset(s, "FI_listfile", w.mkobj(s, "listing", 8)) if listing else None)
            judge("lines", "%r%s%s" % (text, " after " + pre[0].strip() if pre else "", ", listed" if listing else ""), ps, n, "line handling")
    for text in LINES:
        for listing in (False, True):
            jobs.append((line, text, listing))

    # text behind the end of a line (left over from a longer one) is not looked at
    def leftover(text, ml):
        s = S.base.copy()
        S.mon.problems.clear()
        b = text.encode() + b"\0x"
        s.mem["H:linebuf"] = Obj("zero", len(b), b, {})
        if ml:
            w.gset(s, "mlflag", 1)
        n0 = len(w.exits)
        rs = w.run(s, "cleanup", [obj("H:linebuf"), C(0, 8)])
        judge("line ends", "%r%s" % (text, " in a comment" if ml else ""), [p for p in S.mon.problems if p[0] in KINDS and p[2].startswith("reads ")], len(rs) + len(w.exits) - n0, ck.fnline("cleanup"))
    for text in LINES + ["*/", "a*/b", "a*", "a/", "*/'", "*/ \"", "*/;", "a //", "''", "' ", "'\t", "\"a\"", "\"a", "\"a ", "/*'", "/*\"", "'/*", "\"/*\"", "/**/", "/**", "/*/", "*/ /*", "*/ a /*b*/ c"]:
        for nl in ("", "\n", "\r\n"):
            for ml in (0, 1):
                jobs.append((leftover, text + nl, ml))

    # files that exist, or are found in an include directory only
    def files(op, arg, dirs, found, size):
        ps, n = S.problems(KINDS, [" incdir " + d for d in dirs] + ["a %s %s" % (op, arg)], fopen=found, fread=size)
        judge("files", "%s %s, %d directories, %s" % (op, arg, len(dirs), "found" if found else "not found"), ps, n, "directive " + op)
    for op in ("include", "incbin"):
        for arg in ('"x"', "s1", '"x",1', '"x",u1', "x", "se", "nx"):
            for dirs in ((), ('"d"',), ("d", '"e/"')):
                for found in (True, False):
                    for size in ((), (10,), (1024, 3)):
                        if op == "incbin" or not size:
                            jobs.append((files, op, arg, dirs, found, size,))

    # the same symbol defined in several ways, then used
    DEFS = ['a set "x"', "a set s1", "a set 5", "a set u1", "a eqm n1", 'a eqm "q"', 'a equ "x"', "a equ 5", "a setstr zz", "a setsym s1", "a setsym a", "a set a",
            "a set a+a", "a", "a = se", "a eqm", "a eqm a", "a set se,5"]
    USES = [" dc.b a", " echo a,a", "b set a", " dv e1 a", " if a", " endif", " ifconst a", " endif", "c equ a", " err"]

    def redefine(ds):
        ps, n = S.problems(KINDS, list(ds) + USES)
        judge("redefinition", "; ".join(ds), ps, n, "symbol definitions")
    for ds in itertools.product([d for d in DEFS if d != "a set se,5"], repeat=2):
        if "a eqm a" in ds:
            continue            # endless evaluation
        jobs.append((redefine, ds,))
    for d in DEFS[:7]:
        for e in DEFS[:7]:
            jobs.append((redefine, (d, e, d),))
            jobs.append((redefine, (d, e, "a setsym a", d),))

    # conditionals, loops and macros opened and closed in any order
    STEPS = [" m 1,b", " if 1", " if 0", " else", " eif", " repeat 2", " repeat 0", " repend", " mexit", " endm", " end", " subroutine"]
    body = (" nop", " endm")

    def structure(steps):
        ps, n = S.problems(KINDS, [" mac m"] + list(steps), lines=body)
        judge("structure", ";".join(x.strip() for x in steps), ps, n, "block directives")
    for k in (1, 2, 3):
        for steps in itertools.product(STEPS, repeat=k):
            jobs.append((structure, steps,))
    for pre in ((" m 1", " if 1", " repeat 2"), (" m", " m 2"), (" repeat 3", " m 1,2,3", " repeat 2"), (" if 1", " m", " if 0")):
        for steps in itertools.product((" if 1", " repeat 1", " repend", " mexit", " eif", " end", " else"), repeat=2):
            jobs.append((structure, pre + steps,))

    # instructions
    def instructions(table, cpu):
        Q = Sweep(ck, table=table, tight=True, processor=cpu)
        Q.w.max_steps = 600000
        Q.prelude()
        done = set()
        for e in mne_table(m, table):
            k = (e.vect, e.okmask, e.flags)
            if k in done:
                continue
            done.add(k)
            for o in ("", "n1", "u1", "#s1", "s1", "s1,s1", "(n1),y", "n1,n1,n1", "nx", "#", "(", "n1,", "(n1", "(n1,", "n1,x,", "'", "[", "r", "d", ",", "h'", "$"):
                ps, n = Q.problems(KINDS, ["a %s %s" % (e.name, o)])
                judge("instructions", "%s %s %s" % (table, e.name, o), ps, n, "instruction " + e.name)
    for table, cpu in (("Mne6502", 6502), ("Mne65c02", 6502), ("Mne6803", 6803), ("MneHD6303", 6303), ("Mne68705", 68705), ("Mne68HC11", 6811), ("Mne68908", 68908), ("MneF8", 0xf8)):
        if table in m.globals:
            jobs.append((instructions, table, cpu,))

    # end of files: names, frames and what was left open in them
    M = Main(ck, models={"free": None})
    mon = Monitor(M.w, calls=False)
    mw = M.w

    def push(name):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, "pushinclude", [I.mkstr(s, "inc_" + name, name)])]
        return f

    def call(fn, *args):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, fn, [I.mkstr(s, "t_" + fn, a) if isinstance(a, str) else C(a, 64) for a in args])]
        return f

    def push_if(x):
        def f(I, s):
            return [(st, None) for st, rv in I.call(s, "pushif", [C(x, 32)])]
        return f
    H = lambda e=None: Line(word="x", flags=K("MF_IF"), effect=e)
    scripts = {"plain": [H(), None], "one file": [H(push("i1")), H(), None, H(), None],
               "nested files": [H(push("i1")), H(push("i2")), None, H(), None, H(), None],
               "conditional left open": [H(push_if(1)), H(push("i1")), H(push_if(1)), H(push_if(0)), None, H(), None],
               "conditional left open at the end": [H(push_if(1)), None],
               "two files": [H(push("i1")), None, H(push("i1")), None, None]}

    def ends(name, args, redo):
        mon.problems.clear()
        body = scripts[name]
        extra = [H(bypass(effect(Redo=1, Redo_why=2), None))] if redo else []
        rs = M.go((extra + body) * 3, args=args)
        ps = [p for p in mon.problems if p[0] in KINDS]
        judge("end of file", "%s %s%s" % (name, " ".join(args), ", two passes" if redo else ""), ps, len(rs), ck.fnline("MainShadow"))
    for name in scripts:
        for args in ((), ("-v4",), ("-ll.txt",), ("-v4", "-ll.txt")):
            for redo in (0, 1):
                jobs.append((ends, name, args, redo,))

    # the messages of a pass
    P = Sweep(ck, tight=True, real=("passbuffer_update",))
    pw = P.w
    pw.models.pop("asmerr")
    pw.models["exit"] = lambda I, s, a, ins: (I.exits.append(("exit", s, ins)), "stop")[1]

    def error(err, text, frames, fmt, before, listing):
        """frames: what is open, innermost first, m for macros and f for files; before: before the first pass."""
        s = P.base.copy()
        pw.gset(s, "F_errorformat", fmt)
        if listing:
            pw.gset(s, "FI_listfile", pw.mkobj(s, "listing", 8))
        if before:
            pw.gset(s, "bStopAtEnd", C(0, 64))
        prev = C(0, 64)
        for i, c in enumerate(reversed(frames)):
            p = pw.mkobj(s, "frame%d" % i, P.size("_INCFILE"), "zero")
            pw.fset(s, p, "_INCFILE", "name", pw.mkstr(s, "fname%d" % i, "name%d" % i))
            pw.fset(s, p, "_INCFILE", "flags", MACRO if c == "m" else 0)
            pw.fset(s, p, "_INCFILE", "next", prev)
            prev = p
        pw.gset(s, "pIncfile", prev)
        P.mon.problems.clear()
        n0 = len(pw.exits)
        rs = pw.run(s, "asmerr", [C(err, 32), C(0, 8), pw.mkstr(s, "etext", text) if text is not None else C(0, 64)])
        ps = [p for p in P.mon.problems if p[0] in KINDS]
        judge("errors", "error %d with text %s, format %d in '%s'%s%s" % (err, text, fmt, frames, ", before the first pass" if before else "", ", listed" if listing else ""), ps, len(rs) + len(pw.exits) - n0, ck.fnline("asmerr"))
    MACRO = K("INF_MACRO")
    for e in sorted(x[0] for x in errdefs(m)):
        for text in ("x", None):
            for frames in ("f", "mf", ""):
                for before in (0, 1):
                    jobs.append((error, e, text, frames, K("ERRORFORMAT_WOE", "ERRORFORMAT_DILLON", "ERRORFORMAT_GNU")[e % 3], before, e % 2))

    def messages(ops):
        sts = [P.base.copy()]
        P.mon.problems.clear()
        for op in ops:
            nx = []
            for st in sts:
                if op[0] == "update":
                    a = [C(op[1], 32), pw.mkstr(st, "msg%d" % op[2], "x" * op[2])]
                elif op[0] == "cleanup":
                    a = []
                else:
                    a = [C(op[1], 32)]
                nx += [x for x, rv in pw.run(st, "passbuffer_" + op[0], a)]
            sts = nx
        ps = [p for p in P.mon.problems if p[0] in KINDS]
        judge("messages", " ".join("%s%s" % (o[0], list(o[1:]) or "") for o in ops), ps, len(sts), "message buffers")
    up, big = ("update", 0, 10), ("update", 0, 9000)
    for seq in ([up], [up, ("clear", 0), up], [big, big, up], [big, big, ("output", 0), big, big, ("clear", 0), up, ("output", 0)], [("update", 1, 9000), big, ("update", 1, 9000), big, ("output", 1)], []):
        jobs.append((messages, seq + [("cleanup",)],))
    ck.fan(jobs)
    for r, n in (("directives", 1000), ("files", 80), ("redefinition", 300), ("structure", 1800), ("expressions", 4000), ("lines", 400), ("line ends", 600), ("instructions", 2000), ("end of file", 40), ("errors", 300), ("messages", 6)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C50", run)
