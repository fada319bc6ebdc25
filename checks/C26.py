"""C26: limits on passes, macro depth, evaluation depth and output size."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.nest import Nest
from vsa.expr import Expr
from vsa.emit import Emit
from vsa.mnem import fatal_err


def run(ck):
    m = ck.m
    # --- passes
    M = Main(ck)
    WM = ck.fnline("MainShadow")
    H = lambda e=None: Line(word="x", flags=0, effect=e)
    redo = lambda n, why=2: effect(Redo=n, Redo_why=why, Redo_eval=0)
    MANY = K("ERROR_TOO_MANY_PASSES")

    def passes(opt, n, err):
        script = [H(bypass(*[redo(50 - k, 2 + k) for k in range(30)])), H(report(K("ERROR_LABEL_MISMATCH"))) if err else H(), None] * (n + 3)
        rs = M.go(script, args=(opt,) if opt else ())
        inst = "%s, new open references in every pass%s" % (opt or "no option", ", with reports" if err else "")
        ck.ob("passes", inst, len(rs) > 0, "no result", WM)
        for st, kind, code in rs:
            k = len([e for e in flat(st.trace) if e[0] == "fopen" and e[1] == "src"])
            ck.ob("passes", inst, k == n, "%d passes, limit %d" % (k, n), WM)
            ck.ob("passes", inst, code is not None and isc(code) and cv(code) & 255 != 0, "ends with status %s" % code, WM)
    for opt, n in [("", 10)] + [("-%s%d" % (c, k), k) for c in "pP" for k in (1, 2, 3, 7, 12)]:
        for err in (0, 1):
            ck.rule(passes, opt, n, err)

    # --- macro depth
    LIM = 32
    N = Nest(ck)
    w = N.w

    def macros(level, text):
        s = N.state("fm")
        w.gset(s, "Mlevel", level)
        top = w.gget(s, "pIncfile")
        mac = w.mkobj(s, "macro", None, "zero")
        w.fset(s, mac, "_MACRO", "name", w.mkstr(s, "macname", "m"))
        w.fset(s, mac, "_MACRO", "strlist", w.mkptr("body"))
        n0 = len(w.exits)
        s.trace = ()
        rs = [(st, "return") for st, rv in w.run(s, "v_execmac", [w.mkstr(s, "mtext", text), mac])] + [(st, k) for k, st, i in w.exits[n0:]]
        inst = "call %d deep, arguments '%s'" % (level, text)
        wh = ck.fnline("v_execmac")
        ck.ob("macro depth", inst, len(rs) > 0, "no result", wh)
        for st, kind in rs:
            if level >= LIM:
                ck.ob("macro depth", inst, kind == "abort" and has_err(st), "a macro call is entered %d deep" % level, wh)
            else:
                ck.ob("macro depth", inst, kind == "return" and not has_err(st), "call refused", wh)
                v = w.gget(st, "Mlevel")
                ck.ob("macro depth", inst, isc(v) and cv(v) == level + 1, "the depth becomes %s" % v, wh)
                ck.ob("macro depth", inst, w.fget(st, w.gget(st, "pIncfile"), "_INCFILE", "next") is top, "no new macro frame", wh)
    for level in list(range(0, 33)) :
        for text in ("", "a,b"):
            ck.rule(macros, level, text)

    def leaving(fr, name):
        """Leaving macros takes the depth back."""
        if True:
            s = N.state(fr)
            rs = N.run(s, name)
            for st, kind in rs:
                k = 0
                p = w.gget(st, "pIncfile")
                while not isc(p):
                    fl = w.fget(st, p, "_INCFILE", "flags")
                    k += 1 if isc(fl) and cv(fl) & N.INFM else 0
                    p = w.fget(st, p, "_INCFILE", "next")
                v = w.gget(st, "Mlevel")
                ck.ob("macro depth", "%s in %s" % (name, fr), isc(v) and cv(v) == k, "depth %s with %d macros entered" % (v, k), N.where(name))
    for fr in ("fm", "fmm", "fmfm", "fmmm"):
        for name in ("mexit", "endm", "end"):
            ck.rule(leaving, fr, name)

    # --- evaluation depth: some counter grows by one on the way from a symbol into its own text and is checked
    def m_rec(I, s, a, ins):
        s.ev("rec", *[I.gget(s, c) for c in counters])
        p = I.mkptr("recres")
        I.fset(s, p, "_SYMBOL", "flags", 0)
        I.fset(s, p, "_SYMBOL", "next", 0)
        I.fset(s, p, "_SYMBOL", "string", 0)
        return p
    counters = sorted(n for n, g in m.globals.items() if g.ty.size == 4 and isinstance(g.init, tuple) and n not in ("Argi", "Opi", "Argibase", "Opibase") and not n.startswith("."))
    counters = [c for c in counters if used_in(m, c, "pushsymbol")]
    E = Expr(ck, models={"eval": m_rec, "FreeSymbolList": lambda I, s, a, ins: s.ev("freelist")})
    ew = E.w
    wp = ck.fnline("pushsymbol")
    MAC = K("SYM_MACRO")

    def evaluate(text, flags, init):
        s = State()
        for g in ("Argi", "Opi", "Argibase", "Opibase", "Redo_eval", "Xdebug"):
            ew.gset(s, g, 0)
        for c, v in init.items():
            ew.gset(s, c, v)
        p = ew.mkptr("sym0")
        ew.fset(s, p, "_SYMBOL", "flags", flags)
        ew.fset(s, p, "_SYMBOL", "string", ew.mkstr(s, "symtext", "x"))
        if flags is None:
            s.note["find"] = "none"
        n0 = len(ew.exits)
        rs = [(st, "return") for st, rv in ew.run(s, "pushsymbol", [ew.mkstr(s, "name", text)])]
        return rs + [(st, k) for k, st, i in ew.exits[n0:]]

    depth = []

    def find():
        for st, kind in evaluate("abc", MAC, {c: 0 for c in counters}):
            rec = [e for e in flat(st.trace) if e[0] == "rec"]
            for e in rec:
                for c, v in zip(counters, e[1:]):
                    if isc(v) and sv(v) == 1:
                        depth.append(c)
        ck.ob("evaluation depth", "counter", bool(depth), "nothing counts how deep symbols refer to each other", wp)
    ck.rule(find)

    def level(n):
        inst = "%d evaluations under way" % n
        for c in depth[:1]:
            for st, kind in evaluate("abc", MAC, {c: n}):
                rec = [e for e in flat(st.trace) if e[0] == "rec"]
                if n >= 10000:
                    ck.ob("evaluation depth", inst, kind == "abort" and has_err(st) and not rec, "the symbol's text is evaluated all the same", wp)
                elif n <= 100:
                    ck.ob("evaluation depth", inst, kind == "return" and len(rec) == 1, "refused", wp)
                if kind == "return":
                    i = counters.index(c)
                    ck.ob("evaluation depth", inst, all(isc(e[1 + i]) and sv(e[1 + i]) == n + 1 for e in rec), "the count is not increased by one", wp)
                    v = ew.gget(st, c)
                    ck.ob("evaluation depth", inst, isc(v) and sv(v) == n, "the count is %s afterwards" % v, wp)
    for n in (0, 1, 5, 100, 10000, 10001, 1 << 20, (1 << 31) - 2):
        ck.rule(level, n)

    def balanced(text, flags):
        """The count is back where it was after any kind of symbol or illegal character."""
        for c in depth[:1]:
            for n in (0, 7):
                for st, kind in evaluate(text, flags, {c: n}):
                    v = ew.gget(st, c)
                    if kind == "return":
                        ck.ob("evaluation depth", "'%s' flags %s from %d" % (text, flags, n), isc(v) and sv(v) == n, "the count is %s afterwards" % v, wp)
    U, S, R = K("SYM_UNKNOWN", "SYM_STRING", "SYM_REF")
    for text in ("a", "a$", ".loc", "#", "\\", ";", ")"):
        for fl in (0, U, S, MAC, MAC | U, R, MAC | S) if text[0] in "a." else (0,):
            ck.rule(balanced, text, fl)

    # --- nesting within one expression
    Q = Expr(ck, recursion=80)
    qw = Q.w
    sizes = {n: m.globals[n].ty.size for n in ("Argstack", "Argflags", "Argstring", "Opdis", "Oppri")}
    bad = []

    def on_store(s, oid, off, v, inst):
        if oid[:2] == "g:" and oid[2:] in sizes:
            n = max(1, v.w // 8)
            if not isc(off) or not 0 <= sv(off) <= sizes[oid[2:]] - n:
                bad.append("%s[%s]" % (oid[2:], off))
    qw.on_store = on_store

    def nesting(text, what, ok):
        s = State()
        for g in ("Argi", "Opi", "Argibase", "Opibase", "SymAlloc", "Xdebug"):
            qw.gset(s, g, 0)
        for c in counters:
            qw.gset(s, c, 0)
        qw.gset(s, "Processor", 6502)
        qw.gset(s, "ucasm_indexed_notation", 0)
        for k in range(100):
            p = qw.mkptr("sym%d" % k)
            qw.fset(s, p, "_SYMBOL", "value", sym("val%d" % k, 64))
            qw.fset(s, p, "_SYMBOL", "flags", 0)
        bad.clear()
        n0 = len(qw.exits)
        qw.models.pop("eval", None)
        rs = [(st, "return") for st, rv in qw.run(s, "eval", [qw.mkstr(s, "line", text), C(0, 32)])] + [(st, k) for k, st, i in qw.exits[n0:]]
        wh = ck.fnline("eval")
        ck.ob("expression nesting", what, len(rs) > 0, "no result", wh)
        ck.ob("expression nesting", what, not bad, "written outside the tables: %s" % bad[:3], wh)
        for st, kind in rs:
            if ok is True:
                ck.ob("expression nesting", what, kind == "return" and not has_err(st), "refused (%s)" % (kind if kind != "return" else [e for e in flat(st.trace) if e[0] == "err"][:2]), wh)
            elif ok is False:
                ck.ob("expression nesting", what, kind == "abort" and has_err(st), "accepted", wh)
    for n in (1, 5, 15, 30, 31, 32, 33, 34, 40, 65):
        for op, cl, nm in (("[", "]", "brackets"), ("-", "", "minus signs"), ("~[", "]", "complements in brackets"), ("<", "", "low byte signs"), ("1+[", "]", "sums in brackets"), ("a*[b+[", "]]", "products of sums")):
            k = len([c for c in op if c not in "1ab"])
            ck.rule(nesting, op * n + "a" + cl * n, "%d %s" % (n, nm), True if k * n <= 30 else False if k * n > 34 else None)
    for n in (2, 31, 62, 63, 64, 65, 70):
        ck.rule(nesting, ",".join(["a"] * n), "%d operands" % n, None)
        ck.rule(nesting, "+".join(["a"] * n), "%d terms" % n, True)
        ck.rule(nesting, "[".join(["a"] * n), "%d unclosed brackets" % n, None)
        ck.rule(nesting, "a" + " a" * n, "%d operands without operator" % n, None)

    # --- output size
    EM = Emit(ck)
    gw = EM.w
    wg = ck.fnline("generate")
    RAW, RAS, DEF = K("FORMAT_RAW", "FORMAT_RAS", "FORMAT_DEFAULT")

    def size(fmt, limit, org, n, flags, redo, fresh, start):
        inst = "format %d limit %d: %d bytes at %d%s%s" % (fmt, limit, n, org, " (flags %d)" % flags if flags else "", ", not written" if redo else "")
        s = EM.state(fmt, redo=redo, flags=flags, fresh=True, org=C(start, 64), maxsize=limit)
        sts = [s]
        if not fresh:
            sts = [st for st, k in EM.emit(s, [C(1, 8)]) if k == "return"]
            ck.ob("output size", inst + " (first byte)", bool(sts), "refused", wg)
        for st0 in sts:
            EM.setseg(st0, "org", C(org, 64))
            before = len(EM.content(st0))
            for st, kind in EM.emit(st0, [C(2, 8)] * n):
                got = len(EM.content(st)) - before
                if org + n > limit:
                    ck.ob("output size", inst, kind == "abort" and has_err(st), "the output grows beyond the limit", wg)
                    ck.ob("output size", inst, got <= n + 6 or org <= limit, "%d bytes are written first" % got, wg)
                else:
                    ck.ob("output size", inst, kind == "return" and not has_err(st), "refused", wg)
    for fmt in (RAW, RAS, DEF):
        for redo in (0, 1):
            for fl in (0, EM.SFB, K("SF_RORG")):
                for limit in (100, 640):
                    for org, n in ((0, 1), (limit - 1, 1), (limit - 3, 4), (limit, 1), (limit - 3, 3), (limit + 1, 0), (limit + 1, 1), (limit + 200, 2), (1 << 40, 1), (limit - 1, 2)):
                        for fresh in (True, False):
                            if fresh or org > 0:
                                ck.rule(size, fmt, limit, org, n, fl, redo, fresh, 0)
    for r, n in (("passes", 40), ("macro depth", 60), ("evaluation depth", 30), ("expression nesting", 100), ("output size", 150)):
        ck.need(r, n)


def used_in(m, g, root):
    """Is the global read or written by the function or something it calls directly?"""
    todo, seen = [root], set()
    while todo:
        n = todo.pop()
        f = m.funcs.get(n)
        if f is None or n in seen or n in ("asmerr", "eval"):
            continue
        seen.add(n)
        for b in f.blocks.values():
            for i in b.insts:
                if i.op in ("load", "store") and ("g", g) in [x for x in i.a if isinstance(x, tuple)]:
                    return True
                if i.op == "call" and i.a[0][0] == "g":
                    todo.append(i.a[0][1])
    return False


if __name__ == "__main__":
    main("C26", run)
