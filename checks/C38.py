"""C38: INCBIN and the search for included files."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.fio import Files, Content
from vsa.interp import cstring
from vsa.mnem import fatal_err
from vsa.sweep import Sweep

MEMORY = ("afterfree", "doublefree")


def run(ck):
    F = Files()
    m = ck.m
    for f in ("v_incbin", "v_include", "v_incdir"):
        if f not in m.funcs:
            raise AnalysisBroken("%s not found" % f)
    if "Gen" not in m.globals:
        raise AnalysisBroken("output buffer not found")
    GEN = m.globals["Gen"].ty.size
    STRING, UNK = K("SYM_STRING", "SYM_UNKNOWN")

    def m_fopen(I, s, a, ins):
        n = cstring(I, s, a[0])
        if n is None:
            raise AnalysisBroken("file name undetermined")
        n = n.decode("latin-1")
        s.ev("fopen", n)
        have = s.note.get("files", {})
        if n not in dict(have):
            return C(0, 64)
        k = s.note.get("nopen", 0) + 1
        s.note["nopen"] = k
        p = I.mkptr("file%d" % k)
        F.fill(s, p, dict(have)[n])
        s.ev("opened", n, p)
        return p

    def m_generate(I, s, a, ins):
        n = I.subst(s, I.gget(s, "Glen"))
        if not isc(n):
            raise AnalysisBroken("undetermined number of bytes")
        red = I.truth(s, T.eq(I.gget(s, "Redo"), C(0, 32)))
        s.ev("gen", sv(n), Content(I.load(s, T.add(obj("g:Gen"), C(i, 64)), 1) for i in range(sv(n))) if red and sv(n) <= GEN else None)

    def m_eval(I, s, a, ins):
        s.ev("eval")
        t = cstring(I, s, a[0])
        want = s.note["operands"]
        head = nxt = C(0, 64)
        for k in reversed(range(len(want))):
            p = I.mkobj(s, "opnd%d" % k, None, "zero")
            v = want[k]
            if isinstance(v, str):
                I.fset(s, p, "_SYMBOL", "flags", STRING)
                I.fset(s, p, "_SYMBOL", "string", I.mkstr(s, "opstr%d" % k, v))
            elif v is None:
                I.fset(s, p, "_SYMBOL", "flags", UNK)
            else:
                I.fset(s, p, "_SYMBOL", "value", v)
            I.fset(s, p, "_SYMBOL", "next", head)
            head = p
        return head

    md = F.models()
    md.update({"fopen": m_fopen, "generate": m_generate, "eval": m_eval})
    N = Nest(ck, md)
    w = N.w

    def start(operands, files, redo=0, dirs=()):
        s = N.state("ff")
        w.gset(s, "Redo", redo)
        w.gset(s, "F_listfile", 0)
        w.gset(s, "incdirlist", 0)
        for d in dirs:
            rs = N.run(s, "incdir", '"%s"' % d if " " in d else d)
            if len(rs) != 1 or rs[0][1] != "return":
                return None
            s = rs[0][0]
        s.note["files"] = tuple(files)
        s.note["operands"] = tuple(operands)
        return s

    def bad(st):
        return any(fatal_err(m, e) for e in N.events(st, "err", "panic", "exit"))

    def contents(n):
        return Content(sym("byte%d" % i, 8) if i < 40 or i >= n - 20 else C(i & 255, 8) for i in range(n))

    wb, wi = N.where("incbin"), N.where("include")

    def incbin():
        for size in (0, 1, 3, 100, GEN - 1, GEN, GEN + 1, 2 * GEN, 2 * GEN + 7):
            data = contents(size)
            for skip in sorted({None, 0, 1, 2, size - 1, size, size + 1, size + 5, GEN} - {-1}, key=lambda x: -1 if x is None else x):
                for redo in (0, 1, 3):
                    ops = ["f.bin"] + ([] if skip is None else [skip])
                    s = start(ops, [("f.bin", data)], redo)
                    inst = "%d bytes, skip %s, %s" % (size, skip, "unresolved pass" if redo else "resolved pass")
                    rs = N.run(s, "incbin", '"f.bin"')
                    ck.ob("bytes", inst, len(rs) > 0, "no result", wb)
                    for st, kind in rs:
                        ck.ob("bytes", inst, kind == "return" and not bad(st), "diagnosed as an error", wb)
                        g = N.events(st, "gen")
                        want = data[skip or 0:]
                        n = sum(e[1] for e in g)
                        ck.ob("bytes", inst, n == len(want) and all(e[1] >= 0 for e in g), "the address advances by %d, expected %d" % (n, len(want)), wb)
                        if not redo:
                            got = []
                            for e in g:
                                got += list(e[2]) if e[2] is not None else [None]
                            ok = len(got) == len(want) and all(a is not None and same(w, st, a, b) for a, b in zip(got, want))
                            ck.ob("bytes", inst, ok, "other bytes are emitted", wb)
                        tr = N.events(st)
                        lab = [i for i, e in enumerate(tr) if e[0] == "label"]
                        gi = [i for i, e in enumerate(tr) if e[0] == "gen"]
                        ck.ob("label", inst, len(lab) == 1 and (not gi or lab[0] < gi[0]), "label not defined once before the bytes", wb)
                        op = [e[2] for e in tr if e[0] == "opened"]
                        cl = [e[1] for e in tr if e[0] == "fclose"]
                        ck.ob("closed", inst, op == cl, "file is not closed once", wb)
                        ck.ob("memory", inst, not N.events(st, *MEMORY), "released memory is used or released again", wb)
        for redo in (0, 1):
            for ops, what in (([None], "an unresolved symbol"), ([5], "a number"), (["f.bin", None], "an unresolved skip count")):
                s = start(ops, [("f.bin", contents(3))], redo)
                for st, kind in N.run(s, "incbin", "name"):
                    inst = "%s as operand%s" % (what, ", unresolved pass" if redo else "")
                    n0 = sum(e[1] for e in N.events(st, "gen"))
                    ck.ob("operand", inst, bad(st) or (kind == "return" and w.truth(st, T.eq(w.gget(st, "Redo"), C(0, 32))) is False and n0 == 0), "accepted", wb)

    def search():
        dirsets = [(), ("d1",), ("d", "d1"), ("d1", "d"), ("d1/",), ("d1", "d2"), ("d2/", "d1"), ("d1", "d2", "d1"), ("d1", "d1", "d2"), ("vol:", "d2"), ("a/b", "c", "d", "e")]
        for dirs in dirsets:
            for name in ("f.bin", "sub/f.bin"):
                seen = []
                for d in dirs:
                    if d not in seen:
                        seen.append(d)
                cand = [name] + [d + ("" if d[-1] in "/:" else "/") + name for d in seen]
                for hit in list(range(len(cand))) + [None]:
                    # the file exists at the given place and at all later ones
                    files = [] if hit is None else [(c, contents(2)) for c in cand[hit:]]
                    for direc in ("incbin", "include"):
                        for quoted in (True, False) if direc == "include" else (True,):
                            where = wb if direc == "incbin" else wi
                            inst = "%s %s%s, directories %s, %s" % (direc, name, "" if quoted else " unquoted", list(dirs), "present first as " + cand[hit] if hit is not None else "missing")
                            s = start([name] if quoted else [None], files, 0, dirs)
                            ck.ob("search", inst, s is not None, "INCDIR fails", N.where("incdir"))
                            if s is None:
                                continue
                            rs = N.run(s, direc, '"%s"' % name if quoted else name)
                            ck.ob("search", inst, len(rs) > 0, "no result", where)
                            for st, kind in rs:
                                tr = N.events(st)
                                tried = [e[1] for e in tr if e[0] == "fopen"]
                                want = cand if hit is None else cand[:hit + 1]
                                ck.ob("search", inst, tried == want, "tries %s, expected %s" % (tried, want), where)
                                ck.ob("memory", inst, not N.events(st, *MEMORY), "released memory is used or released again", where)
                                if hit is None:
                                    ck.ob("missing", inst, bad(st), "not diagnosed", where)
                                    if direc == "incbin":
                                        ck.ob("missing", inst, kind != "return", "the assembly continues", where)
                                    continue
                                ck.ob("search", inst, kind == "return" and not bad(st), "diagnosed as an error", where)
                                op = [e[2] for e in tr if e[0] == "opened"]
                                if direc == "include" and kind == "return" and len(op) == 1:
                                    inc = w.gget(st, "pIncfile")
                                    ck.ob("entered", inst, inc != N.frames[-1] and w.fget(st, inc, "_INCFILE", "fi") == op[0], "lines are not read from the file", where)
                                    ck.ob("entered", inst, w.fget(st, inc, "_INCFILE", "next") == N.frames[-1], "reading does not come back to the including file", where)
                                    ck.ob("entered", inst, w.truth(st, T.eq(w.fget(st, inc, "_INCFILE", "lineno"), C(0, 64))) is True, "line numbers do not start anew", where)
                                    ck.ob("entered", inst, not N.events(st, "fclose"), "file closed", where)

    # names written without quotes, with the program's own evaluation
    def m_open(I, s, a, ins):
        n = cstring(I, s, a[0])
        s.ev("fopen", n.decode("latin-1") if n is not None else None)
        return I.mkptr("fopened")
    S = Sweep(ck, models={"fopen": m_open})
    S.prelude()

    def written(text, name):
        inst = "include %s" % text
        rs = S.lines(S.base.copy(), [" include " + text])
        ck.ob("written", inst, len(rs) > 0, "no result", wi)
        for st, kind in rs:
            tr = list(flat(st.trace))
            ck.ob("written", inst, kind == "return" and not any(fatal_err(m, e) for e in tr if e[0] in ("err", "panic", "exit")), "diagnosed as an error", wi)
            got = [e[1] for e in tr if e[0] == "fopen"]
            ck.ob("written", inst, got == [name], "opens %s" % got, wi)
    for d in "0123456789":
        written(d + "name", d + "name")
        written(d + "n.asm", d + "n.asm")
    for n in ("name", "n.asm", "_n", "Name.H"):
        written(n, n)
        written('"%s"' % n, n)
    written("s1", "abc")
    incbin()
    search()
    for r, n in (("written", 50), ("bytes", 400), ("label", 150), ("closed", 150), ("operand", 6), ("search", 200), ("missing", 20), ("entered", 100)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C38", run)
