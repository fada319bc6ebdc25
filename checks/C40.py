"""C40: splitting source lines into label, operation and operand."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.lines import *
from vsa.mnem import fatal_err


def run(ck):
    S = Source(ck)
    w = S.w

    def bad(st):
        return [e for e in flat(st.trace) if e[0] in ("err", "panic", "exit")]

    def show(parts):
        return "".join(p if isinstance(p, str) else "?" * len(p.cs) for p in parts).replace("\t", "\\t")

    def lines(rule, ls, end="\n"):
        """ls: [(parts, words)] read one after another; words None: only its effect on the following lines matters,
        'error': diagnosed."""
        cur = [S.start()]
        inst = " / ".join("'%s'" % show(p) for p, _ in ls)
        for n, (parts, want) in enumerate(ls):
            nxt = []
            for s in cur:
                rs = S.read(s, parts, oname="line%d" % n, end=end)
                ck.ob(rule, inst, len(rs) > 0, "no result", S.wc)
                for st, kind, got in rs:
                    e = bad(st)
                    if want == "error":
                        ck.ob(rule, inst, any(fatal_err(ck.m, x) for x in e), "not diagnosed", S.wc)
                        continue
                    ck.ob(rule, inst, kind == "return" and not e, "diagnosed as an error", S.wc)
                    if kind != "return":
                        continue
                    for what, g, x in zip(("label", "operation", "operand"), got, want):
                        x = chars_of(*x) if isinstance(x, (list, tuple)) else chars_of(x)
                        ck.ob(rule, inst, g is not None and eqtext(w, st, g, x),
                              "line %d: %s is '%s', expected '%s'" % (n + 1, what, txt(g), txt([C(c, 8) if isinstance(c, int) else c for c in x])), S.where)
                    nxt.append(st)
            cur = nxt

    x = Any("x", 2)
    y = Any("y", 1)
    q = Any("q", 3, QUOTED)
    c = Any("c", 3, COMMENT)
    b = Any("b", 3, BLOCK)
    lab = Any("l", 2)

    def one(rule, parts, words):
        lines(rule, [(parts, words)])

    def words():
        for end in ("\n", "\r\n", ""):
            for l, name in (([lab, " "], [lab]), ([lab, ":"], [lab]), ([lab, ": "], [lab]), (["\t"], ""), ([" "], ""), (["^", lab, " "], [lab]), (["  ^ ", lab, "\t"], [lab]),
                            ([" #"], ""), (["#"], "")):
                lines("words", [(l + ["op"], (name, "op", ""))], end)
                for gap in (" ", "   ", "\t", " \t "):
                    lines("words", [(l + ["op", gap, x], (name, "op", [x]))], end)
                    if end == "\n":
                        lines("words", [(l + [" op.b", gap, x, gap, y, gap], (name, "op", [x, " ", y]))])
            lines("words", [([lab], ([lab], "", ""))], end)
            lines("words", [([lab, ":"], ([lab], "", ""))], end)
            lines("words", [([], ("", "", ""))], end)
            lines("words", [([" \t "], ("", "", ""))], end)
            for eqs in ("=", " =", "= ", " = ", "\t=\t"):
                lines("words", [([lab, eqs, x], ([lab], "=", [x]))], end)
        for n in (1, 20, 60):
            z = Any("z", n)
            one("words", [lab, " op ", z], ([lab], "op", [z]))

    def quotes():
        for pre, post in ((" op ", ""), (" op ", ",1"), ("lab op 1,", " "), ("lab op ", ",\"b\"")):
            l = "lab" if pre[0] == "l" else ""
            opnd = pre.split("op ")[1]
            one("quotes", [pre, '"', q, '"', post], (l, "op", [opnd, '"', q, '"', post.strip()]))
            one("quotes", [pre, '"', q, '"', post, ";", c], (l, "op", [opnd, '"', q, '"', post.strip()]))
            for t in ("", "a  b", ";", "a;b c", "   ", "'", "{1}", "a'b'c", "^#:=,"):
                one("quotes", [pre, '"', t, '"', post], (l, "op", [opnd, '"', t, '"', post.strip()]))
        k = Any("k", 1, ((0x20, 0x29), (0x2b, 0x2e), (0x30, 0x7f), (0x81, 0xff)))
        for pre in (" op #", " op "):
            for post in ("", "+1", ",2"):
                one("character", [pre, "'", k, post], ("", "op", [pre[4:], "'", k, post]))
                one("character", [pre, "'", k, post, ";", c], ("", "op", [pre[4:], "'", k, post]))
        one("character", [" op '\t,1"], ("", "op", "' ,1"))
        one("character", [" op '\n"], ("", "op", "' "))
        one("quotes", [' op "', x], "error")
        one("quotes", [' op "a",1,"', x], "error")

    def comments():
        for body, want in ((["op ", x], [x]), (["op"], ""), (["op ", x, "  "], [x])):
            for l, name in ((" ", ""), ("lab ", "lab"), ("lab: ", "lab")):
                for sep in (";", " ;", "\t; ", " ;;"):
                    one("comment", [l] + body + [sep, c], (name, "op", want))
                    one("comment", [l] + body + [sep], (name, "op", want))
                for t in ("a */ b", "/* a", "/* a */", '"', "'", "{1}", "{1", "^#:="):
                    one("comment", [l] + body + [";", t], (name, "op", want))
                one("block", [l] + body + ["/*", b, "*/"], (name, "op", want))
                one("block", [l] + body + [" /*", b, "*/ ;", c], (name, "op", want))
                one("block", [l, "/*", b, "*/ "] + body, (name, "op", want))
                one("block", [l] + body + ["/* a;b */"], (name, "op", want))
                one("block", [l, "/* ; */"] + body, (name, "op", want))
                one("block", [l, "/*", b, "*/"] + body + ["/*", b, "*/"], (name, "op", want))
        one("comment", [";", c], ("", "", ""))
        one("comment", ["lab;", c], ("lab", "", ""))
        one("comment", ["lab ;", c], ("lab", "", ""))
        one("block", ["/*", b, "*/"], ("", "", ""))
        one("block", [" op ", x, "/*", b, "*/+", y], ("", "op", [x, "+", y]))
        one("block", [" op ", x, "*/"], "error")
        one("block", ["*/ op"], "error")

    def across():
        after = ([" op ", x], ("", "op", [x]))
        for first, w1 in (([" op ", x, "/*", b], ("", "op", [x])), (["lab /*", b], ("lab", "", "")), (["/*", b], ("", "", "")), (["/*"], ("", "", ""))):
            for mid in ([], [["lab op ", x]], [[b], [" op ", x, ";", b]]):
                for last, w3 in ((["*/"], ("", "", "")), ([b, "*/ op ", x], ("", "op", [x])), ([" op ", x, "*/"], ("", "", "")), ([b, "*/", " op ", x, ";", c], ("", "op", [x])),
                                 ([b, "*/ op /*", b, "*/ ", x], ("", "op", [x]))):
                    lines("across lines", [(first, w1)] + [(p, ("", "", "")) for p in mid] + [(last, w3), after])
        lines("across lines", [(["/*", b, "*/ op ", x], ("", "op", [x])), after])
        lines("across lines", [([" op ", x, ";/*", c], ("", "op", [x])), after])
        lines("across lines", [(["/* a"], ("", "", "")), (["b */ op /*", b], ("", "op", "")), ([" op ", x], ("", "", "")), (["*/"], ("", "", "")), after])

    words()
    quotes()
    comments()
    across()
    for r, n in (("words", 100), ("quotes", 40), ("character", 10), ("comment", 80), ("block", 30), ("across lines", 60)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C40", run)
