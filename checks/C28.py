"""C28: nothing is written outside buffers, tables and heap blocks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.sweep import *
from vsa.mainprog import *
from vsa.check import World, module
from vsa.fio import Files
from vsa.interp import cstring

KINDS = ("outside", "undecided")
BIG = 1023          # longest line that is read in one piece


def cut(pre, unit, post, n=BIG):
    """pre, as many units as fit into n characters, post."""
    k = (n - len(pre) - len(post)) // len(unit)
    return pre + unit * k + post


def run(ck):
    m = ck.m
    jobs = []
    S = Sweep(ck, reads=False)
    S.w.max_steps = 6_000_000
    S.prelude()
    w = S.w
    U, ST, MC = K("SYM_UNKNOWN", "SYM_STRING", "SYM_MACRO")

    def judge(rule, inst, ps, n, where):
        ck.cov["writes met"] = S.mon.count["store"] + S.mon.count["copy"]
        inst = inst if len(inst) < 70 else inst[:40] + "... (%d characters)" % len(inst)
        ck.ob(rule, inst, n > 0, "no outcome", where)
        ck.ob(rule, inst, not ps, "; ".join("%s at %s" % (t, wh) for k, wh, t in ps[:2]), ps[0][1] if ps else where)

    names = sorted({e.name for e in mne_table(m, "Ops")})
    OPERANDS = ["", "n1", "u1", "s1", "e1", "se", '"ab"', '"', "'", "1,2", "s1,c5", "u1,s1", "[", "]", "s1+s1", ",", "#s1", "(s1),y", ".", "\\", "a" * 30, "9" * 30, "$" + "f" * 30]

    # short operands of every kind
    def directive(op):
        for o in OPERANDS:
            if op == "set" and "," in o and o not in ("1,2", "s1,c5", ","):
                continue
            for lab, ls in (("a", False), ("s1", True)):
                if ls and o in ("n1", "e1"):
                    continue
                ps, n = S.problems(KINDS, [lab + " " + op + " " + o], listing=ls, setup=lambda s: w.gset(s, "FI_listfile", w.mkobj(s, "listing", 8)) if ls else None)
                judge("directives", "%s %s %s" % (lab, op, o), ps, n, "directive " + op)
    for op in names:
        jobs.append((directive, op))

    # the longest lines
    def long(op, listing):
        p = "a %s " % op
        forms = [cut(p, "b", ""), cut(p, "1", ""), cut(p + '"', "x", '"'), cut(p + '"', "x", ""), cut(p, "1,", "1"), cut(p, " ", "1"), cut(p, "'", ""),
                 cut(p, "a b ", ""), cut(p, "0", ""), cut(p, "}", "")]
        if op not in ("set", "seg"):
            forms.append(cut(p + '"', "x", '",1'))
        for t in forms:
            ps, n = S.problems(KINDS, [t], listing=listing, setup=lambda s: w.gset(s, "FI_listfile", w.mkobj(s, "listing", 8)) if listing else None)
            judge("long operands", t, ps, n, "directive " + op)
    for op in names:
        if op not in ("repeat", "align", "ds", "include"):
            jobs.append((long, op, op in ("dc", "echo", "mac", "seg", "eqm")))

    def lines(ts, inst, listing=False, **notes):
        def setup(s):
            if listing:
                w.gset(s, "FI_listfile", w.mkobj(s, "listing", 8))
        ps, n = S.problems(KINDS, ts, listing=listing, setup=setup, **notes)
        judge("long lines", inst, ps, n, "line handling")
    for L in (BIG, BIG - 1, BIG - 2):
        for ls in (False, True):
            for pre, unit, post in (("", "a", ""), ("", " ", ""), (" ", "a", ""), (" ", "a", " 1"), ("", "a", " dc 1"), (".", "a", ""), ("", "a", "$"), ("", "a", ":"), ("^ ", "a", ""),
                                    (" # ", "a", ""), ("", ".", ""), (" ", ".", ""), ("", "a", " = 1"), ("", "a", " = \"x\""), ("a = ", "b", ""), ("", ";", ""), ("a ;", "c", ""), ("", "\t", ""),
                                    ("a\t", "b\t", ""), ("", "a", "'"), (" dc ", "1", "'"), ("a,\"", "x", "\""), ("a,\"", "x", ""), (" lda #", "a", ""), (" lda (", "a", "),y"), (" lda.", "b", "")):
                t = cut(pre, unit, post, L)
                jobs.append((lines, [t], "%s%s...%s of %d%s" % (pre, unit, post, len(t), ", listed" if ls else ""), ls))
    for unit in (",c5", ",0-1", ",n1-n1-1", ",u1", ",\"x\""):
        for L in (60, 400, BIG):
            t = cut("a", unit, " = 1", L)
            if "n1" not in unit:
                jobs.append((lines, [t], "label a%s... of %d" % (unit, len(t))))
                jobs.append((lines, [cut("b set a", unit, "", L)], "set a%s... of %d" % (unit, L)))
                jobs.append((lines, [cut("b set " + "a" * 250, unit, "", L)], "set of a long name, %s... of %d" % (unit, L)))
    for k in (240, 250, 254, 255, 256, 257, 258, 300):
        jobs.append((lines, ["b set " + "a" * k + ",c5"], "set of a name of %d and a number" % k))
        jobs.append((lines, ["b set " + "a" * k + ',"x"'], "set of a name of %d and a letter" % k))
        jobs.append((lines, ["b set " + "a" * k + ',"' + "y" * k + '"'], "set of a name of %d and a string of %d" % (k, k)))
        jobs.append((lines, ["b set a," + "c" * k], "set with a name of %d to evaluate" % k))
        jobs.append((lines, ["a," + "c" * k + " = 1"], "label with a name of %d to evaluate" % k))
        jobs.append((lines, ["a," + '"' + "c" * k + '" = 1'], "label with a string of %d" % k))

    # symbols of every length, local and not, in definitions and label mismatches
    def names_(k, pre, post):
        nm = pre + "a" * k + post

        def setup(s):
            w.gset(s, "Localindex", 10 ** 9)
            w.gset(s, "Localdollarindex", 10 ** 9)
        ps, n = S.problems(KINDS, [nm, " org $2000", nm, " dc.b " + nm, nm + " eqm 1", nm + " = 5"], setup=setup)
        judge("names", "name %s%d letters%s" % (pre, k, post), ps, n, "symbols")
    for k in (1, 30, 900, 1000, 1010, 1014):
        for pre, post in (("", ""), (".", ""), ("", "$")):
            jobs.append((names_, k, pre, post))

    def direct(fn, k, pre, post):
        """Names longer than any line, from the command line."""
        s = S.base.copy()
        w.gset(s, "Localindex", 10 ** 9)
        w.gset(s, "Localdollarindex", 10 ** 9)
        S.mon.problems.clear()
        nm = pre + "a" * k + post
        rs = w.run(s, fn, [w.mkstr(s, "longname", nm), C(len(nm), 32)] + ([C(1, 8)] if fn == "CreateSymbol" else []))
        judge("names", "%s of %s%d letters%s" % (fn, pre, k, post), [p for p in S.mon.problems if p[0] in KINDS], len(rs), ck.fnline(fn))
    for fn in ("findsymbol", "CreateSymbol"):
        for k in (1022, 1023, 1024, 1025, 1100, 3000):
            for pre, post in (("", ""), (".", ""), ("", "$")):
                jobs.append((direct, fn, k, pre, post))

    # macro arguments put into lines
    def arguments(text, args, disable, ml):
        s = S.base.copy()
        fr = w.gget(s, "pIncfile")
        prev = C(0, 64)
        for i, a in reversed(list(enumerate([",".join(args)] + list(args)))):
            off, sz = w.fld("_STRLIST", "buf")
            p = w.mkobj(s, "marg%d" % i, off + len(a) + 1, "zero")
            o = w.getobj(s, p.a[0]).mod()
            for j, c in enumerate(a.encode()):
                w.put(o, off + j, C(c, 8))
            s.mem[p.a[0]] = o
            w.fset(s, p, "_STRLIST", "next", prev)
            prev = p
        w.fset(s, fr, "_INCFILE", "args", prev)
        if ml:
            w.gset(s, "mlflag", 1)
        S.mon.problems.clear()
        b = text.encode()
        s.mem["H:linebuf"] = Obj("zero", S.MAXLINE, b + bytes(S.MAXLINE - len(b)), {})
        n0 = len(w.exits)
        rs = w.run(s, "cleanup", [obj("H:linebuf"), C(disable, 8)])
        judge("macro arguments", "%s with arguments of %s%s" % (text if len(text) < 30 else "%s...%s of %d" % (text[:10], text[-8:], len(text)), [len(a) for a in args], " in a comment" if ml else ""),
              [p for p in S.mon.problems if p[0] in KINDS], len(rs) + len(w.exits) - n0, ck.fnline("cleanup"))
    for dis in (0, 1):
        for args in ((), ("",), ("a",), ("abc", "de"), ("x" * 1000,), ("x" * 500, "y" * 500), ("{1}",), ("x" * 1022,)):
            for text in ("{1}", " {1} {2}", "{0}", cut(" ", "a", "{1}"), cut(" {1}", "a", ""), cut(" ", "{1}", ""), cut("{1", " ", "}"), cut(" ", "a", "{"), cut(" ", "a", "{9}")):
                if any("{" in a for a in args) and not dis and ("{1" in text or "{0" in text):
                    continue    # expands for ever into the size limit
                jobs.append((arguments, text, args, dis, 0))
    for ml in (0, 1):
        for L in (10, BIG - 1, BIG):
            for pre, unit, post in (("", "a", "*/"), ("*/", "a", ""), ("*/ a /*", "b", ""), ("", "a", ""), ("a /*", "b", "*/"), ("a /*b*/", "c", ""), ("a ", "b", "/*"), ("/*", "a", ""), ("/*a*/", "/*b*/", ""),
                                    ("", "a", "'"), ("", "'", ""), ("", '"', ""), ("*/", "a", "'"), ("*/ '/*", "a", "'"), ("a*/b/*", "c", "*/"), ("a*/b;/*", "c", "*/"), ("a/*b*/;", "c", "")):
                for nl in ("", "\n", "\r\n"):
                    jobs.append((arguments, cut(pre, unit, post + nl, L), (), 0, ml))

    # macro definitions and calls with long lines
    for unit in ("a", " ", "{1}", "'", "1,"):
        jobs.append((macro, (ck, S, judge, unit)))
    for k in (0, 1, 2, 1000):
        jobs.append((lines, [" mac " + "m" * max(k, 1), " " + "m" * max(k, 1) + " " + "b," * (k // 2)], "macro name of %d" % k))

    # strings longer than a line, as the command line can define
    def strings(op, n, form):
        s = S.base.copy()
        s = S.symbol(s, "bs", 0, ST, "x" * n)
        s = S.symbol(s, "be", 0, ST | MC, '"' + "y" * n + '"')
        s = S.symbol(s, "bn", 0, ST | MC, "1" * n)
        S.mon.problems.clear()
        r = S.lines(s, ["a %s %s" % (op, form)])
        judge("long strings", "%s %s of %d" % (op, form, n), [p for p in S.mon.problems if p[0] in KINDS], len(r), "directive " + op)
    for op in names:
        if op not in ("repeat", "align", "ds"):
            for n in (1022, 1023, 1024, 1100, 3000):
                jobs.append((strings, op, n, "bs"))
            jobs.append((strings, op, 3000, "be"))
            jobs.append((strings, op, 3000, "bn"))

    # data lists and fills around the size of the code buffer
    G = m.globals["Gen"].ty.size if "Gen" in m.globals else 1024

    def fill(n, size, redo):
        s = S.base.copy()
        w.gset(s, "Redo", redo)
        S.mon.problems.clear()
        rs = w.run(s, "genfill", [C(0x1234, 64), C(n, 64), C(size, 32)])
        judge("fills", "%d items of %d" % (n, size), [p for p in S.mon.problems if p[0] in KINDS], len(rs), ck.fnline("genfill"))
    for size in (1, 2, 4):
        for n in (0, 1, G // size - 1, G // size, G // size + 1, 2 * G // size + 3):
            for redo in (0, 1):
                jobs.append((fill, n, size, redo))

    def data(op, n):
        """An evaluated list or string of n items."""
        s = S.base.copy()
        s = S.symbol(s, "bs", 0, ST, "x" * n)
        s = S.symbol(s, "es", 0, ST | MC, ",".join(["1"] * min(n, 60)))
        s = S.symbol(s, "ev", 0, ST | MC, "..+1")
        S.mon.problems.clear()
        r = S.lines(s, [" %s bs,bs,1,bs" % op if op[:2] != "dv" else " %s ev bs,bs,1" % op])
        judge("fills", "%s of strings of %d" % (op, n), [p for p in S.mon.problems if p[0] in KINDS], len(r), "directive " + op)
    for op in ("dc.b", "dc.w", "dc.l", "dc.s", "dv.b", "dv.l"):
        for n in (G // 4 - 1, G // 4, G // 4 + 1, G // 2, G - 1, G, G + 1):
            if op[:2] != "dv" or n < 300:
                jobs.append((data, op, n))

    # INCBIN pieces
    def incbin(sizes, redo):
        ps, n = S.problems(KINDS, [' incbin "x"'], setup=lambda s: w.gset(s, "Redo", redo), fopen=True, fread=sizes)
        judge("fills", "incbin pieces of %s" % (sizes,), ps, n, "directive incbin")
    for sz in ((), (1,), (1024, 1024, 5)):
        for redo in (0, 1):
            jobs.append((incbin, sz, redo))

    # instructions of every processor with awkward operands
    def instructions(table, cpu):
        Q = Sweep(ck, table=table, reads=False, processor=cpu)
        Q.w.max_steps = 6_000_000
        Q.prelude()
        done = set()
        for e in mne_table(m, table):
            k = (e.vect, e.okmask, e.flags)
            if k in done:
                continue
            done.add(k)
            for o in ("", "n1", "u1", "#n1", "s1", "n1,x", "(n1),y", "n1,n1,n1", "n1,#n1,n1", "z" * 40) + ((cut("", "b", "", 1000), cut("", "1,", "1", 1000)) if len(done) % 8 == 1 or "F8" in table else ()):
                for strict in (0, 1) if o == "n1" else (0,):
                    ps, n = Q.problems(KINDS, ["a %s %s" % (e.name, o)], setup=lambda s: Q.w.gset(s, "bStrictMode", strict))
                    judge("instructions", "%s %s %s" % (table, e.name, o), ps, n, "instruction " + e.name)
    for table, cpu in (("Mne6502", 6502), ("Mne65c02", 6502), ("Mne6803", 6803), ("MneHD6303", 6303), ("Mne68705", 68705), ("Mne68HC11", 6811), ("Mne68908", 68908), ("MneF8", 0xf8)):
        if table in m.globals:
            jobs.append((instructions, table, cpu))

    # error messages and the message buffers
    A = Sweep(ck, reads=False, real=("passbuffer_update",))
    aw = A.w
    aw.models.pop("asmerr")
    aw.models["exit"] = lambda I, s, a, ins: (I.exits.append(("exit", s, ins)), "stop")[1]
    ERRS = [e for e in errnums(m)]

    def error(err, fmt, name, text, depth):
        s = A.base.copy()
        aw.gset(s, "F_errorformat", fmt)
        fr = aw.gget(s, "pIncfile")
        aw.fset(s, fr, "_INCFILE", "name", aw.mkstr(s, "longfile", "f" * name))
        aw.fset(s, fr, "_INCFILE", "lineno", (1 << 63) - 1)
        A.mon.problems.clear()
        n0 = len(aw.exits)
        sts, n = [s], 0
        for i in range(depth):
            nx = []
            for st in sts:
                r = aw.run(st, "asmerr", [C(err, 32), C(0, 8), aw.mkstr(st, "etext", "t" * text) if text is not None else C(0, 64)])
                nx += [x for x, rv in r]
            sts = nx
        judge("messages", "error %d in format %d, file name of %d, text of %s, %d times" % (err, fmt, name, text, depth), [p for p in A.mon.problems if p[0] in KINDS], len(sts) + len(aw.exits) - n0, ck.fnline("asmerr"))
    W = K("ERRORFORMAT_WOE", "ERRORFORMAT_DILLON", "ERRORFORMAT_GNU")
    for fmt in W:
        for name in (1, 480, 499, 500, 520, 3000):
            for err in (ERRS[6], ERRS[len(ERRS) // 2]):
                jobs.append((error, err, fmt, name, 10, 1))
    for err in ERRS:
        for text in (None, 1000, 5000):
            jobs.append((error, err, W[0], 5, text, 1))
    jobs.append((error, ERRS[6], W[2], 400, 400, 45))

    def messages(ops):
        sts = [A.base.copy()]
        A.mon.problems.clear()
        for k, (b, n) in enumerate(ops):
            nx = []
            for st in sts:
                nx += [x for x, rv in aw.run(st, "passbuffer_update" if n is not None else "passbuffer_clear", [C(b, 32)] + ([aw.mkstr(st, "msg%d" % k, "x" * n)] if n is not None else []))]
            sts = nx
        judge("messages", "texts of %s" % ops, [p for p in A.mon.problems if p[0] in KINDS], len(sts), "message buffers")
    for b in (0, 1):
        for n in (16382, 16383, 16384, 16385, 20000, 33000):
            jobs.append((messages, [(b, n), (b, 1), (b, 1)]))
            jobs.append((messages, [(b, 10), (b, n - 10), (b, 1), (b, None), (b, n)]))
            jobs.append((messages, [(1 - b, 5), (b, n), (1 - b, n), (b, n if n < 17000 else 100), (b, 16400)]))

    # values in listings
    def value(v, flags):
        s = S.base.copy()
        S.mon.problems.clear()
        sts = [s]
        for i in range(6):
            sts = [x for st in sts for x, rv in w.run(st, "sftos", [C(v, 64), C(flags, 32)])]
        judge("listings", "value %x, flags %d" % (v, flags), [p for p in S.mon.problems if p[0] in KINDS], len(sts), ck.fnline("sftos"))
    for v in (0, 0xffff, (1 << 63) - 1, (1 << 64) - 1):
        for fl in (0, 1, 4, 8, 255):
            jobs.append((value, v, fl))

    # include paths
    def paths(d, f, q):
        ps, n = S.problems(KINDS, [" incdir " + "d" * d, " incdir " + q + "e" * d + q, " include " + q + "f" * f + q, ' incbin "' + "f" * f + '"'])
        judge("paths", "directories of %d, file name of %d" % (d, f), ps, n, "include paths")
    for d in (0, 1, 500, 1000):
        for f in (1, 500, 1000):
            for q in ("", '"'):
                jobs.append((paths, d, f, q))

    # lines of macros are copied into the line buffer of the main loop
    def mainloop(n):
        M = Main(ck)
        mon = Monitor(M.w, reads=False, calls=False)
        mw = M.w

        def enter(I, s):
            fr = I.mkobj(s, "mframe", S.size("_INCFILE"), "zero")
            I.fset(s, fr, "_INCFILE", "next", I.gget(s, "pIncfile"))
            I.fset(s, fr, "_INCFILE", "flags", K("INF_MACRO"))
            I.fset(s, fr, "_INCFILE", "name", I.mkstr(s, "mname", "m"))
            off, sz = I.fld("_STRLIST", "buf")
            p = I.mkobj(s, "mline", off + n + 1, "zero")
            o = I.getobj(s, p.a[0]).mod()
            for j, c in enumerate((b"@" + b"0" * n)[:n - 1] + b"1"):
                I.put(o, off + j, C(c, 8))
            s.mem[p.a[0]] = o
            I.fset(s, p, "_STRLIST", "next", 0)
            I.fset(s, fr, "_INCFILE", "strlist", p)
            I.gset(s, "pIncfile", fr)

        def leave(I, s):
            I.exits.append(("exit", s, None))
            return "stop"
        rs = M.go([Line(word="x", flags=0, effect=enter), Line(word="y", flags=0, effect=leave), None])
        judge("long lines", "macro line of %d" % n, [p for p in mon.problems if p[0] in KINDS], any(e[0] == "macroline" for st, k, c in rs for e in flat(st.trace)), ck.fnline("MainShadow"))
    for n in (2, 1000, 1022, 1023, vmacro_line(m)):
        jobs.append((mainloop, n))

    # conversion to hex
    def hexfile():
        files = Files()
        md = dict(files.models())
        md["fopen"] = lambda I, s, a, ins: I.mkptr("stream_" + (cstring(I, s, a[0]) or b"?").decode())
        md["fclose"] = lambda I, s, a, ins: C(0, 32)
        m2 = module("ftohex")
        w2 = World(m2, md, fixed=set(m2.globals), unroll=3000)
        ck.interps.append(w2)
        mon = Monitor(w2, reads=False, calls=False)
        for fmt in (1, 2, 3):
            for n in (0, 1, 15, 16, 17, 255, 256, 257, 600):
                s = State()
                mon.problems.clear()
                w2.mkobj(s, "argv", None, "zero")
                o = w2.getobj(s, "H:argv").mod()
                for i, t in enumerate(("ftohex", str(fmt), "in", "out")):
                    w2.put(o, 8 * i, w2.mkstr(s, "arg%d" % i, t))
                s.mem["H:argv"] = o
                word = lambda v: [C(v & 255, 8), C(v >> 8, 8)]
                files.fill(s, w2.mkptr("stream_in"), (word(0x1000) if fmt < 3 else []) + (word(n) if fmt == 2 else []) + [C(i & 255, 8) for i in range(n)])
                n0 = len(w2.exits)
                rs = w2.run(s, "main", [C(4, 32), obj("H:argv")])
                judge("hex conversion", "format %d, %d bytes" % (fmt, n), [p for p in mon.problems if p[0] in KINDS], len(rs) + len(w2.exits) - n0, "src/ftohex.c")
    jobs.append((hexfile,))

    ck.fan(jobs)
    for r, n in (("directives", 1500), ("long operands", 500), ("long lines", 250), ("names", 80), ("macro arguments", 500), ("long strings", 300), ("fills", 80), ("instructions", 500), ("messages", 100),
                 ("listings", 30), ("paths", 30), ("hex conversion", 25)):
        ck.need(r, n)


def macro(ctx):
    ck, S, judge, unit = ctx
    body = tuple(cut(" ", unit, "", n) for n in (10, 1021, 1022, 1023)) + (" " + unit * 30, " endm")
    ps, n = S.problems(KINDS, [" mac m", " m 1,2"], lines=body)
    judge("macro arguments", "definition with lines of %s" % unit, ps, n, ck.fnline("v_macro"))


def vmacro_line(m):
    """Longest line a macro definition can hold: what its line buffer takes."""
    best = 0
    f = m.funcs.get("v_macro")
    for b in f.blocks.values() if f else ():
        for i in b.insts:
            if i.op == "alloca" and i.ty.k == "arr":
                best = max(best, i.ty.size)
    return max(best - 1, 1)


def errnums(m):
    from vsa.mnem import errdefs
    return sorted(e[0] for e in errdefs(m))


if __name__ == "__main__":
    main("C28", run)
