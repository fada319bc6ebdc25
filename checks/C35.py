"""C35: place and text of error messages."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.fio import Files
from vsa.interp import cstring
from vsa.screen import screen_models

# words that identify the message belonging to an error
TEXT = {
    "NONE": "OK", "COMMAND_LINE": "command-line", "FILE_ERROR": "Unable to open", "NOT_RESOLVABLE": "not resolvable", "TOO_MANY_PASSES": "Too many passes",
    "NON_ABORT": "See previous", "SYNTAX_ERROR": "Syntax Error", "EXPRESSION_TABLE_OVERFLOW": "Expression table overflow", "UNBALANCED_BRACES": "Unbalanced Braces",
    "DIVISION_BY_0": "Division by zero", "UNKNOWN_MNEMONIC": "Unknown Mnemonic", "ILLEGAL_ADDRESSING_MODE": "Illegal Addressing mode",
    "ILLEGAL_FORCED_ADDRESSING_MODE": "Illegal forced Addressing mode", "NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO": "args passed to Macro",
    "PREMATURE_EOF": "Premature EOF", "ILLEGAL_CHARACTER": "Illegal character", "BRANCH_OUT_OF_RANGE": "Branch out of range",
    "ERR_PSEUDO_OP_ENCOUNTERED": "ERR pseudo-op", "ORIGIN_REVERSE_INDEXED": "Origin Reverse-indexed", "EQU_VALUE_MISMATCH": "EQU: Value mismatch",
    "ADDRESS_MUST_BE_LT_100": "<$100.", "ADDRESS_MUST_BE_LT_10000": "<$10000.", "ILLEGAL_BIT_SPECIFICATION": "Illegal bit specification",
    "NOT_ENOUGH_ARGS": "Not enough arguments", "LABEL_MISMATCH": "Label mismatch", "MACRO_REPEATED": "definition is repeated", "VALUE_UNDEFINED": "Value Undefined",
    "PROCESSOR_NOT_SUPPORTED": "not supported", "REPEAT_NEGATIVE": "REPEAT parameter < 0", "BADERROR": "Bad error value",
    "ONLY_ONE_PROCESSOR_SUPPORTED": "Only one processor", "BAD_FORMAT": "Bad output format", "VALUE_MUST_BE_1_OR_4": "1 or 4",
    "VALUE_MUST_BE_LT_10": "<$10.", "VALUE_MUST_BE_LT_8": "<$8", "VALUE_MUST_BE_LT_F": "<$f", "VALUE_MUST_BE_LT_10000": "<$10000.",
    "ILLEGAL_OPERAND_COMBINATION": "combination of operands", "RECURSION_TOO_DEEP": "Recursion too deep", "AVOID_SEGFAULT": "Internal error",
    "MISSING_ENDM": "Unbalanced macro", "MISSING_COMMENT_END": "comment not closed", "SPURIOUS_COMMENT_CLOSE": "closed without open", "TYPE_MISMATCH": "Type mismatch",
}


def run(ck):
    F = Files()

    M = Main(ck, models=screen_models({k: v for k, v in F.models().items() if k in ("fprintf", "fputs", "fputc", "putc", "fwrite")}))
    w = M.w
    where = ck.fnline("asmerr")
    INFM, MFIF = K("INF_MACRO", "MF_IF")

    def desc(e):
        for p, t in descs:
            if p == e:
                return t
        return None

    # message text for each error, from the program's own report with a marker as its text
    descs = []

    def report_of(e, fmt, text, chain, listing, abort=False):
        """Report error e with the source files of chain open, innermost first: [(is macro, name, line)]"""
        s = State()
        nxt = C(0, 64)
        for k in reversed(range(len(chain))):
            mac, name, line = chain[k]
            p = w.mkobj(s, "frame%d" % k, None, "zero")
            w.fset(s, p, "_INCFILE", "next", nxt)
            w.fset(s, p, "_INCFILE", "name", w.mkstr(s, "fname%d" % k, name))
            w.fset(s, p, "_INCFILE", "lineno", line)
            w.fset(s, p, "_INCFILE", "flags", INFM if mac else 0)
            nxt = p
        w.gset(s, "pIncfile", nxt)
        w.gset(s, "F_errorformat", fmt)
        w.gset(s, "pass", 1)
        w.gset(s, "bStopAtEnd", w.mkobj(s, "stop", 12, "zero"))
        L = w.mkobj(s, "listing", 8, "zero")
        w.gset(s, "FI_listfile", L if listing else 0)
        w.gset(s, "stdout", w.mkobj(s, "stdoutstream", 8, "zero"))
        n0 = len(w.exits)
        t = w.mkstr(s, "etext", text) if text is not None else C(0, 64)
        rs = [(st, "return", rv) for st, rv in w.run(s, "asmerr", [C(e, 32), C(int(abort), 1), t])]
        for kind, st, ins in w.exits[n0:]:
            code = [x[1] for x in st.trace if x[0] == "exit"]
            rs.append((st, kind, code[-1] if code else None))
        out = []
        for st, kind, rv in rs:
            up = [x for x in flat(st.trace) if x[0] == "update"]
            msg = None if any(x[2] is None for x in up) else "".join(x[2].decode("latin-1") for x in up if isc(x[1]) and cv(x[1]) == 0)
            d = F.data(st, L)
            ls = "".join(chr(cv(b)) if isc(b) else "#" for b in d)
            out.append((st, kind, rv, msg, ls))
        return out

    FMT = {0: lambda n, l: "%s (%d): error: " % (n, l), 1: lambda n, l: "line %7d %-10s " % (l, n), 2: lambda n, l: "%s:%d: error: " % (n, l)}

    def learn():
        for nm, t in TEXT.items():
            e = K("ERROR_" + nm)
            for st, kind, rv, msg, ls in report_of(e, 0, "@text@", [(0, "f", 1)], False):
                pre = FMT[0]("f", 1)
                good = ck.ob("message", nm, kind == "return" and msg is not None and msg.startswith(pre) and msg.endswith("\n"), "reported as %r" % msg, where)
                d = msg[len(pre):-1] if good else None
                ck.ob("message text", nm, d is not None and t in d, "error %d is reported as %r" % (e, d), where)
                ck.ob("message form", nm, d is not None and d.count("@text@") <= 1 and "%" not in d, "error %d is reported as %r" % (e, d), where)
                descs.append((e, d))
    ck.rule(learn)

    CH = {
        "file": [(0, "a.asm", 12)], "include": [(0, "inc/b.h", 3), (0, "a.asm", 120)], "deep": [(0, "c", 99999), (0, "b", 2), (0, "a", 1)],
        "macro": [(1, "mac", 4), (0, "a.asm", 15)], "macros": [(1, "m2", 1), (1, "m1", 2), (0, "longfilename.asm", 1234567)],
        "macro in include": [(1, "m", 7), (0, "x.inc", 8), (0, "a.asm", 9)], "include in macro": [(0, "x.inc", 5), (1, "m", 7), (0, "a.asm", 9)],
        "macro in include in macro": [(1, "m2", 5), (0, "y", 6), (1, "m", 7), (0, "z", 9)],
    }

    def place(e, fmt, text, what, listing):
        ch = CH[what]
        name, line = next((n, l) for m, n, l in ch if not m)
        inst = "error %d in %s, -E%d, %s%s" % (e, what, fmt, "text" if text is not None else "no text", ", listing" if listing else "")
        d = desc(e)
        want = FMT[fmt](name, line) + d.replace("@text@", text or "") + "\n"
        rs = report_of(e, fmt, text, ch, listing)
        ck.ob("place", inst, len(rs) > 0, "no result", where)
        for st, kind, rv, msg, ls in rs:
            ck.ob("place", inst, kind == "return" and msg == want, "reported as %r, expected %r" % (msg, want), where)
            ck.ob("error number", inst, isc(rv) and cv(rv) == e, "reported number is %s" % rv, where)
            if listing:
                ck.ob("listing", inst, ls == want, "listed as %r, expected %r" % (ls, want), where)
    es = [e for e, d in descs]
    for e in es:
        if desc(e) is None:
            continue
        ck.rule(place, e, 2, "abc", "macro in include", True)
    for e in K("ERROR_SYNTAX_ERROR", "ERROR_DIVISION_BY_0"):
        if desc(e) is None:
            continue
        for fmt, text, what, lst in itertools.product((0, 1, 2), (None, "", "some text", "100%d %s"), CH, (False, True)):
            ck.rule(place, e, fmt, text, what, lst)

    def aborts(e, lst):
        for st, kind, rv, msg, ls in report_of(e, 0, "t", CH["macro"], lst, True):
            inst = "error %d with abort%s" % (e, ", listing" if lst else "")
            ck.ob("exit status", inst, kind != "return" and rv is not None and isc(rv) and cv(rv) == e, "ends as %s with status %s" % (kind, rv), where)
            out = [x for x in flat(st.trace) if x[0] == "output"]
            ck.ob("shown", inst, len([x for x in out if isc(x[1]) and cv(x[1]) == 0]) == 1, "the message is not shown", where)
    for e in es:
        if e:
            ck.rule(aborts, e, False)
            ck.rule(aborts, e, True)

    # errors in the course of reading: which line is named
    ERR = K("ERROR_UNKNOWN_MNEMONIC")

    def messages(st):
        up = [x for x in flat(st.trace) if x[0] == "update" and isc(x[1]) and cv(x[1]) == 0]
        if any(x[2] is None for x in up):
            return None
        return [m for m in "".join(x[2].decode("latin-1") for x in up).split("\n") if m]

    def where_of(ms):
        return None if ms is None else [m.split(" (")[0] + ":" + m.split(" (")[1].split(")")[0] for m in ms]

    def inc(name):
        def f(I, s):
            return I.call(s, "pushinclude", [I.mkstr(s, "iname", name)])
        return f

    def mac(lines):
        def f(I, s):
            src = I.gget(s, "pIncfile")
            fr = I.mkobj(s, "macframe%d" % lines[0], None, "zero")
            I.fset(s, fr, "_INCFILE", "next", src)
            I.fset(s, fr, "_INCFILE", "name", I.mkstr(s, "macname", "mac"))
            I.fset(s, fr, "_INCFILE", "fi", I.fget(s, src, "_INCFILE", "fi"))
            I.fset(s, fr, "_INCFILE", "flags", INFM)
            I.gset(s, "Mlevel", cv(I.gget(s, "Mlevel")) + 1)
            nxt = C(0, 64)
            for q in reversed(lines):
                p = I.mkobj(s, "mline%d" % q, None, "zero")
                I.fset(s, p, "_STRLIST", "next", nxt)
                off, n = I.fld("_STRLIST", "buf")
                o = I.getobj(s, p.a[0]).mod()
                for z, ch in enumerate(("@%d" % q).encode()):
                    I.put(o, off + z, C(ch, 8))
                s.mem[p.a[0]] = o
                nxt = p
            I.fset(s, fr, "_INCFILE", "strlist", nxt)
            I.gset(s, "pIncfile", fr)
        return f
    bad = lambda: Line(word="bad", flags=0, effect=report(ERR))
    unk = lambda: Line(word="unk")
    ok = lambda: Line(word="ok", flags=0)
    SCRIPTS = {
        "first line": ([bad(), None], ["src:1"]), "third line": ([ok(), Line(), unk(), None], ["src:3"]),
        "every line": ([bad(), unk(), bad(), unk(), None], ["src:1", "src:2", "src:3", "src:4"]),
        "included file": ([ok(), Line(word="i", flags=0, effect=inc("sub")), bad(), ok(), unk(), None, bad(), None], ["sub:1", "sub:3", "src:3"]),
        "two included files": ([Line(word="i", flags=0, effect=inc("s1")), ok(), bad(), None, Line(word="i", flags=0, effect=inc("s2")), unk(), None, ok(), bad(), None],
                               ["s1:2", "s2:1", "src:4"]),
        "nested": ([Line(word="i", flags=0, effect=inc("s1")), ok(), Line(word="i", flags=0, effect=inc("s2")), bad(), None, unk(), None, bad(), None],
                   ["s2:1", "s1:3", "src:2"]),
        "macro": ([ok(), Line(word="m", flags=0, effect=mac([4, 5])), bad(), None, bad(), unk()], ["src:2", "src:2", "src:3"]),
        "missing file": ([ok(), Line(word="i", flags=0, effect=inc("gone")), bad(), None], ["src:2", "src:3"]),
        "not selected": ([ok(), Line(word="if", flags=MFIF, effect=None), unk(), None], ["src:3"]),
    }

    def course(name, fmt=0):
        script, want = SCRIPTS[name]
        rs = M.go(script, opens={"gone": (False,)})
        ck.ob("line", name, len(rs) > 0, "no result", ck.fnline("MainShadow"))
        for st, kind, code in rs:
            n = where_of(messages(st))
            # (a missing include file calls for another pass, with the same messages or none)
            ck.ob("line", name, n is not None and n[:len(want)] == want and (len(n) == len(want) or name == "missing file"), "messages name %s, expected %s" % (n, want), ck.fnline("MainShadow"))
    for n in SCRIPTS:
        ck.rule(course, n)

    # errors while a line is prepared, and the line number seen by handlers
    def prepared(at, k, total):
        """The error arises in the preparation (comments, macro arguments) or splitting of line k."""
        tag = "cleanup" if at == "preparing" else "parse"
        orig = M.w.models[tag]

        def f(I, s, a, ins):
            out = []
            if s.note.get("ln", 0) - 1 == k:
                sts = [st for st, rv in I.call(s, "asmerr", [C(ERR, 32), C(0, 1), I.mkstr(s, "etext", "text")])]
            else:
                sts = [s]
            for st in sts:
                out.append((st, orig(I, st, a, ins)))
            return out
        M.w.models[tag] = f
        try:
            rs = M.go([ok() for _ in range(total)] + [None])
        finally:
            M.w.models[tag] = orig
        inst = "error %s line %d of %d" % (at, k + 1, total)
        ck.ob("line", inst, len(rs) > 0, "no result", ck.fnline("MainShadow"))
        for st, kind, code in rs:
            n = where_of(messages(st))
            ck.ob("line", inst, n == ["src:%d" % (k + 1)], "messages name %s" % n, ck.fnline("MainShadow"))
    for at in ("preparing", "splitting"):
        for total in (1, 3):
            for k in range(total):
                ck.rule(prepared, at, k, total)

    # the final line names the reason for the exit status
    def final(e):
        orig = M.w.models.get("MainShadow")
        M.w.models["MainShadow"] = lambda I, s, a, ins: C(e, 32)
        try:
            rs = M.go([None])
        finally:
            if orig is None:
                del M.w.models["MainShadow"]
            else:
                M.w.models["MainShadow"] = orig
        for st, kind, code in rs:
            pr = "".join(x[1] or "#" for x in flat(st.trace) if x[0] == "screen")
            d = desc(e)
            want = d.replace("@text@", "%s") if d is not None else None
            inst = "status %d" % e
            ck.ob("exit status", inst, isc(code) and cv(code) == e, "exit status %s" % code, ck.fnline("main"))
            if e and e != K("ERROR_NON_ABORT"):
                ck.ob("final message", inst, want is not None and want in pr, "final message is %r, expected the text %r" % (pr, want), ck.fnline("main"))
    for e in es:
        ck.rule(final, e)
    for r, n in (("place", 100), ("listing", 50), ("line", 20), ("message text", 40), ("exit status", 40), ("final message", 40)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C35", run)
