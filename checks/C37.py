"""C37: macro arguments."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.lines import text_at, txt, eqtext
from vsa.mnem import fatal_err

# characters with no meaning of their own in a line
PLAIN = ((0x21, 0x21), (0x23, 0x26), (0x28, 0x2b), (0x2d, 0x2e), (0x30, 0x3a), (0x3c, 0x7a), (0x7c, 0x7c), (0x7e, 0x7e), (0xa0, 0xff))


def run(ck):
    N = Nest(ck)
    w = N.w
    for f in ("cleanup", "v_execmac"):
        if f not in ck.m.funcs:
            raise AnalysisBroken("%s not found" % f)
    wc, wx = ck.fnline("cleanup"), ck.fnline("v_execmac")

    def put(s, oname, text):
        p = w.mkobj(s, oname, None, "zero")
        o = w.getobj(s, p.a[0]).mod()
        for i, c in enumerate(text):
            w.put(o, i, C(c, 8) if isinstance(c, int) else c)
        s.mem[p.a[0]] = o
        return p

    def arg(k, n, pre=""):
        return [sym("%sarg%d_%d" % (pre, k, i), 8) for i in range(n)]

    def join(args, sep):
        b = []
        for k, a in enumerate(args):
            if k:
                b += [ord(c) for c in sep]
            b += a
        return b

    def called(s, text, n=0):
        """States after a macro call with this argument text."""
        for c in text:
            if not isinstance(c, int):
                w.limit(s, c, PLAIN)
        p = put(s, "calltext%d" % n, list(text))
        mac = w.mkobj(s, "macro%d" % n, None, "zero")
        w.fset(s, mac, "_MACRO", "name", w.mkstr(s, "macname%d" % n, "mac"))
        w.fset(s, mac, "_MACRO", "strlist", w.mkptr("macbody%d" % n))
        n0 = len(w.exits)
        rs = w.run(s, "v_execmac", [p, mac])
        return [st for st, _ in rs] if len(w.exits) == n0 else []

    def line(st, text, keep=False):
        """[(state, kind, text or None)] after a body line is read."""
        st = st.copy()
        st.trace = ()
        b = [ord(c) for c in text] if isinstance(text, str) else text
        p = put(st, "bodyline", b)
        n0 = len(w.exits)
        out = [(x, "return", text_at(w, x, p)) for x, _ in w.run(st, "cleanup", [p, C(1 if keep else 0, 8)])]
        return out + [(x, k, None) for k, x, i in w.exits[n0:]]

    def expect(rule, inst, rs, want):
        """want: characters, or None for a diagnosed error"""
        ck.ob(rule, inst, len(rs) > 0, "no result", wc)
        for st, kind, got in rs:
            bad = any(fatal_err(ck.m, e) for e in N.events(st, "err", "panic", "exit"))
            if want is None:
                ck.ob(rule, inst, bad, "not diagnosed, becomes '%s'" % txt(got), wc)
            else:
                ck.ob(rule, inst, kind == "return" and not bad, "diagnosed as an error", wc)
                ck.ob(rule, inst, got is not None and eqtext(w, st, got, want), "becomes '%s', expected '%s'" % (txt(got), txt([C(c, 8) if isinstance(c, int) else c for c in want])), wc)

    def o(t):
        return [ord(c) for c in t]

    def each():
        lens = [(), (1,), (3,), (0, 2), (2, 0, 1), (2, 1), (1, 1, 1), (3, 2, 1, 4), (1,) * 12]
        for ls in lens:
            args = [arg(k, n) for k, n in enumerate(ls)]
            for sep in (",", ", ", ",   ", " ,"):
                if len(ls) < 2 and sep != ",":
                    continue
                if sep != "," and ls and 0 in ls:
                    continue
                whole = join(args, sep)
                for st in called(N.state("fm"), whole) or [None]:
                    inst0 = "call with %d arguments %s separated by '%s'" % (len(ls), ls, sep)
                    ck.ob("call", inst0, st is not None, "no single result", wx)
                    if st is None:
                        continue
                    expect("argument", "%s, {0}" % inst0, line(st, " op {0}"), o(" op ") + whole if whole else o(" op"))
                    for k in range(len(ls)):
                        a = args[k] + (o(" ") if sep == " ," and k < len(ls) - 1 else [])
                        for pre, post in ((" op ", "+1"), ("", " x"), (" op #", ",x")):
                            expect("argument", "%s, '%s{%d}%s'" % (inst0, pre, k + 1, post), line(st, "%s{%d}%s" % (pre, k + 1, post)), o(pre) + a + o(post))
                    for k in (len(ls) + 1, len(ls) + 2, 40):
                        expect("missing", "%s, {%d}" % (inst0, k), line(st, " op {%d}" % k), None)

    def several():
        a, b = arg(0, 2), arg(1, 3)
        for st in called(N.state("fm"), join([a, b], ",")):
            expect("several", "{1}{2}", line(st, " {1}{2}"), o(" ") + a + b)
            expect("several", "{2},{1},{2}", line(st, " op {2},{1},{2}"), o(" op ") + b + o(",") + a + o(",") + b)
            expect("several", "label and operand", line(st, "{1}lab op {2}+{1}"), a + o("lab op ") + b + o("+") + a)
            expect("several", "{0} and {2}", line(st, " {0} {2}"), o(" ") + a + o(",") + b + o(" ") + b)
            expect("several", "second one missing", line(st, " op {1},{3}"), None)
            expect("comment", "in a comment", line(st, " op {1} ; {7}"), o(" op ") + a)
            expect("comment", "whole line", line(st, "; {7}"), [])
            expect("kept", "line of a macro being defined", line(st, " op {1},{7}", True), o(" op {1},{7}"))
            expect("unterminated", "no closing brace", line(st, " op {1"), None)

    def quoted():
        """Quoted arguments keep their blanks and characters on the line they are put into."""
        for a in ('"a  b"', '"a;b"', "' ", "';", '"  "', '1+"x y"'):
            for text, k in ((a, 1), ("1," + a, 2), (a + ",1", 1)):
                for st in called(N.state("fm"), o(text)):
                    for pre, post in (("", ""), ("1,", ",2")):
                        for st2, kind, got in line(st, " op %s{%d}%s" % (pre, k, post)):
                            inst = "argument %s of '%s' in ' op %s{%d}%s'" % (a, text, pre, k, post)
                            ck.ob("quoted", inst, kind == "return" and not N.events(st2, "err", "panic", "exit"), "diagnosed as an error", wc)
                            if kind != "return":
                                continue
                            rs = w.run(st2, "parse", [obj("H:bodyline")])
                            ck.ob("quoted", inst, len(rs) == 1, "no single result", ck.fnline("parse"))
                            for st3, _ in rs:
                                g = text_at(w, st3, w.gget(st3, "Av", 16, 8))
                                ck.ob("quoted", inst, g is not None and eqtext(w, st3, g, o(pre + a + post)), "operand is '%s'" % txt(g), wc)

    def nested():
        a, b, c = arg(0, 2), arg(1, 1), arg(0, 3, "inner")
        for st in called(N.state("f"), join([a, b], ","), 0):
            for s2 in called(st.copy(), c, 1):
                expect("nested", "inner call's argument", line(s2, " op {1}"), o(" op ") + c)
                expect("nested", "inner call's missing argument", line(s2, " op {2}"), None)
                n0 = len(w.exits)
                back = [x for x, k in N.run(s2.copy(), "endm")]
                ck.ob("nested", "end of the inner macro", len(back) > 0 and len(w.exits) == n0, "no result", N.where("endm"))
                for s3 in back:
                    expect("nested", "outer call's first argument afterwards", line(s3, " op {1}"), o(" op ") + a)
                    expect("nested", "outer call's second argument afterwards", line(s3, " op {2}"), o(" op ") + b)
                    expect("nested", "outer call's missing argument afterwards", line(s3, " op {3}"), None)

    def skipped():
        """Nothing is diagnosed in a line that is not assembled."""
        a = arg(0, 2)
        for x, acc in ((0, 1), (1, 0), (0, 0)):
            for st in called(N.state("fm", ifs=[(1, x, acc)]), a):
                for st2, kind, got in line(st, " op {3}"):
                    ck.ob("skipped", "missing argument, %d %d" % (x, acc), kind == "return" and not N.events(st2, "err", "panic", "exit"), "diagnosed in a skipped line", wc)
        for st2, kind, got in line(N.state("f"), " op {1}"):
            ck.ob("missing", "outside any macro", any(fatal_err(ck.m, e) for e in N.events(st2, "err", "panic", "exit")), "not diagnosed", wc)

    each()
    several()
    quoted()
    nested()
    skipped()
    ck.need("argument", 150)
    ck.need("missing", 60)
    ck.need("nested", 6)


if __name__ == "__main__":
    main("C37", run)
