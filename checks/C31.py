"""C31: effect of the command-line options."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.interp import cstring

SCALARS = {"E": "F_errorformat", "T": "F_sortmode", "d": "Xdebug", "f": "F_format", "p": "nMaxPasses", "v": "F_verbose",
           "S": "bStrictMode", "R": "bRemoveOutBin", "m": "maxFileSize", "L": "F_ListAllPasses"}
TEXTS = {"o": "F_outfile", "l": "F_listfile", "s": "F_symfile"}


def atoi(t):
    t = t.lstrip(" \t")
    sg = -1 if t[:1] == "-" else 1
    if t[:1] in ("-", "+"):
        t = t[1:]
    n = ""
    while t and t[0].isdigit():
        n, t = n + t[0], t[1:]
    return sg * int(n or 0)


def run(ck):
    where = ck.fnline("MainShadow")

    def define(tag):
        def f(I, s, a, ins):
            s.ev(tag, cstring(I, s, I.gget(s, "Av", 0, 8)), cstring(I, s, a[0]))
        return f
    M = Main(ck, models={"v_set": define("set"), "v_eqm": define("eqm"), "v_incdir": lambda I, s, a, ins: s.ev("incdir", cstring(I, s, a[0]))})
    w = M.w
    for g in list(SCALARS.values()) + list(TEXTS.values()):
        if g not in ck.m.globals:
            raise AnalysisBroken("setting %s not found" % g)

    def settings(st):
        out = {}
        for g in SCALARS.values():
            v = w.subst(st, w.gget(st, g))
            out[g] = sv(v) if isc(v) else str(v)
        for g in TEXTS.values():
            p = w.gget(st, g)
            t = None if isc(p) else cstring(w, st, p)
            out[g] = t.decode("latin-1") if t is not None else None
        return out

    base = {}

    def defaults():
        rs = M.go([Line(), None])
        for st, kind, code in rs:
            base.update(settings(st))
            ck.ob("defaults", "no options", base == {
                "F_errorformat": 0, "F_sortmode": 0, "Xdebug": 0, "F_format": 1, "nMaxPasses": 10, "F_verbose": 0, "bStrictMode": 0,
                "bRemoveOutBin": 0, "maxFileSize": 640 * 1024, "F_ListAllPasses": 0, "F_outfile": "a.out", "F_listfile": None, "F_symfile": None},
                "settings without options are %s" % base, where)
            ck.ob("defaults", "a source file name is enough", kind == "return" and isc(code) and cv(code) == 0, "ends with %s %s" % (kind, code), where)
    defaults()
    if not base:
        raise AnalysisBroken("no result without options")

    def effect_of(arg):
        """(changed settings, definitions) or None for an argument that must be refused."""
        if arg[:1] not in ("-", "/"):
            return None
        c, rest = arg[1:2], arg[2:]
        n = atoi(rest)
        if c in "ETfpPdvm" and c:
            lo, hi = {"E": (0, 2), "T": (0, 2), "f": (1, 3), "p": (1, None), "P": (1, None), "m": (65, None)}.get(c, (None, None))
            if lo is not None and n < lo or hi is not None and n > hi:
                return None
            if c == "d":
                n = int(n != 0)
            if c == "m":
                n *= 1024
            return {SCALARS[c.replace("P", "p")]: n}, []
        if c in "olLs" and c:
            if not rest:
                return None
            d = {TEXTS[c.lower()]: rest}
            if c == "L":
                d["F_ListAllPasses"] = 1
            return d, []
        if c in "SR" and c:
            return {SCALARS[c]: 1}, []
        if c in "DM" and c:
            nm, eq, val = rest.partition("=")
            return {}, [("set" if c == "D" else "eqm", nm.encode(), (val if eq else "0").encode())]
        if c == "I":
            return {}, [("incdir", rest.encode())]
        return None

    def args(av):
        inst = " ".join(av)
        want, defs, bad = dict(base), [], False
        for a in av:
            e = effect_of(a)
            if e is None:
                bad = True
                break
            want.update(e[0])
            defs += e[1]
        rs = M.go([Line(), None], args=av)
        ck.ob("options", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            tr = flat(st.trace)
            opened = [e[1] for e in tr if e[0] in ("fopen", "fopenfail")]
            if bad:
                ck.ob("refused", inst, (kind != "return" or isc(code) and sv(code) & 255 != 0), "accepted: ends with status %s" % code, where)
                ck.ob("refused", inst, not [n for n in opened if n in ("src", want["F_outfile"], want["F_listfile"])] and not [e for e in tr if e[0] in ("parse", "read", "unlink")],
                      "the source is assembled all the same (files opened: %s)" % opened, where)
                continue
            got = settings(st)
            diff = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
            ck.ob("setting", inst, not diff, "settings (found, documented): %s" % diff, where)
            ck.ob("definitions", inst, [e for e in tr if e[0] in ("set", "eqm", "incdir")] == defs, "defines %s, documented %s" % ([e for e in tr if e[0] in ("set", "eqm", "incdir")], defs), where)
            ck.ob("accepted", inst, kind == "return" and isc(code) and cv(code) == 0, "ends with %s %s" % (kind, code), where)
            exp = [want["F_outfile"]] + ([want["F_listfile"]] if want["F_listfile"] else []) + ["src"]
            ck.ob("files", inst, [n for n in opened] == exp, "opens %s, expected %s" % (opened, exp), where)

    NUM = ("", "0", "1", "2", "3", "4", "7", "10", "64", "65", "100", "127", "1000", "-1", "-5", "x", "2x", " 2", "+1", "00", "01")
    for c in "ETfpPdvm":
        for n in NUM:
            if c != "v" or 0 <= atoi(n) < 128:
                ck.rule(args, ("-" + c + n,))
    for c in "olLs":
        for n in ("", "x", "a.b", "/dir/name", "-", " n", "l2"):
            ck.rule(args, ("-" + c + n,))
    for c in "SR":
        ck.rule(args, ("-" + c,))
    for c in "DM":
        for n in ("sym", "sym=1", "sym=", "s=a=b", "Sym_1=$10+2", "a=-1", ""):
            ck.rule(args, ("-" + c + n,))
    for n in ("", "dir", "/a/b", "=x"):
        ck.rule(args, ("-I" + n,))
    known = "ETdMDfoLlPpsvISRm"
    for k in range(32, 127):
        if chr(k) not in known:
            ck.rule(args, ("-" + chr(k),))
            ck.rule(args, ("-" + chr(k) + "1",))
    for a in ("", "-", "/", "stray", "=x", " -f3", "f3", "\\f3", "+f3"):
        ck.rule(args, (a,))
        ck.rule(args, ("-f2", a))
        ck.rule(args, ("-R", a, "-f2"))
    # combinations: later options override earlier ones, order does not matter otherwise
    GOOD = ("-f3", "-f2", "-oout", "-o2", "-llist", "-Lall", "-ssym", "-v1", "-v0", "-d1", "-DA=1", "-MB", "-Ix", "-p3", "-P5", "-T1", "-T2", "-E2", "-S", "-R", "-m100", "/f3", "/oz")
    for a, b in itertools.product(GOOD, repeat=2):
        ck.rule(args, (a, b))
    ck.rule(args, GOOD)
    ck.rule(args, tuple(reversed(GOOD)))
    for b in ("-f9", "-E3", "-T3", "-o", "-l", "-s", "-L", "-p0", "-P0", "-m64", "-q", "stray"):
        for g in ("-oout", "-R", "-f3", "-DA=1"):
            ck.rule(args, (g, b))
            ck.rule(args, (b, g))

    def nosource():
        s = State()
        for av in (["dasm"],):
            p = M.argv(s, av)
            n0 = len(w.exits)
            rs = [(st, "return", rv) for st, rv in w.run(s, "main", [C(1, 32), p])] + [(st, k, C(1, 32)) for k, st, ins in w.exits[n0:]]
            ck.ob("refused", "no source file", len(rs) > 0, "no result", where)
            for st, kind, code in rs:
                ck.ob("refused", "no source file", kind != "return" or isc(code) and cv(code) != 0, "ends with status %s" % code, where)
                ck.ob("refused", "no source file", not [e for e in flat(st.trace) if e[0] == "fopen"], "files are opened", where)
    ck.rule(nosource)

    # -P asks for all passes, -p stops when two passes in a row have the same open references
    def passes(arg, n, status):
        L = Line(word="fwd", flags=0, effect=effect(Redo=1, Redo_why=2, Redo_eval=1))
        rs = M.go([L, None] * 20, args=(arg,) if arg else ())
        inst = arg or "no option"
        ck.ob("passes", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            got = len([e for e in flat(st.trace) if e[0] == "fopen" and e[1] == "src"])
            ck.ob("passes", inst, got == n, "%d passes, documented %d" % (got, n), where)
            ck.ob("passes", inst, isc(code) and cv(code) == status, "ends with status %s, expected %d" % (code, status), where)
    UNRES, MANY = K("ERROR_NOT_RESOLVABLE", "ERROR_TOO_MANY_PASSES")
    for arg, n, e in (("", 2, UNRES), ("-p5", 2, UNRES), ("-p1", 1, MANY), ("-P1", 1, MANY), ("-P3", 3, MANY), ("-P7", 7, MANY), ("-p2", 2, UNRES)):
        ck.rule(passes, arg, n, e)
    for r, n in (("setting", 500), ("refused", 300), ("files", 500), ("passes", 14)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C31", run)
