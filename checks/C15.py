"""C15: assignments to symbols."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.symtab import *
from vsa.mnem import *
from vsa.expr import *


def run(ck):
    def ev(I, s, a, ins):
        s.ev("eval")
        p = s.note.get("opnd")
        if p is None:
            raise AnalysisBroken("evaluation of unexpected text")
        return p
    S = Symtab(ck, {"eval": ev, "FreeSymbolList": lambda I, s, a, ins: s.ev("freelist"), "free": lambda I, s, a, ins: s.ev("free", a[0])})
    w = S.w
    ops = {}
    for e in mne_table(ck.m, "Ops"):
        ops.setdefault(e.name, e)
    OLD, NEW = sym("oldvalue", 64), sym("newvalue", 64)
    R0 = sym("redo0", 32)
    CH = [sym("c%d" % i, 8) for i in range(3)]

    def where(n):
        return ck.fnline(ops[n].vect) if n in ops else "directive table"

    def string(s, name, chars):
        p = w.mkobj(s, name, len(chars) + 1, "zero")
        o = w.getobj(s, p.a[0]).mod()
        for i, c in enumerate(chars):
            w.limit(s, c, ((33, 126),))
            w.put(o, i, c)
        s.mem[p.a[0]] = o
        return p

    def operand(s, kind, value=NEW):
        p = w.mkobj(s, "opnd", None, "zero")
        fl = {"number": 0, "unresolved": S.UNK, "string": S.STRING}[kind]
        w.fset(s, p, "_SYMBOL", "flags", fl)
        w.fset(s, p, "_SYMBOL", "value", value)
        w.fset(s, p, "_SYMBOL", "string", string(s, "opstr", CH) if kind == "string" else 0)
        w.fset(s, p, "_SYMBOL", "next", 0)
        w.fset(s, p, "_SYMBOL", "addrmode", K("AM_BYTEADR"))
        s.note["opnd"] = p

    def go(name, label, chain, kind, text="text", value=NEW, local=3, dollar=4, seg=0, setup=None):
        e = ops.get(name)
        if e is None:
            return []
        s = S.state(chain, local, dollar, seg)
        w.gset(s, "Av", w.mkstr(s, "label", label), 0, 8)
        w.gset(s, "Redo", R0)
        w.limit(s, R0, ((0, 1 << 20),))
        w.gset(s, "bStrictMode", 0)
        if kind:
            operand(s, kind, value)
        if setup:
            setup(s)
        mp = w.mkobj(s, "mne", None, "zero")
        w.fset(s, mp, "_MNE", "name", w.mkstr(s, "mnename", name))
        n0 = len(w.exits)
        p = w.mkstr(s, "text", text)
        out = [Result(S, st, R0) for st, _ in w.run(s, e.vect, [p, mp])]
        return out + [Result(S, st, R0, k) for k, st, i in w.exits[n0:]]

    def chars(st, p, n):
        return [w.load(st, T.add(p, C(i, 64)), 1) for i in range(n)]

    def lookup(r, name):
        rs = S.find(r.st.copy(), name)
        if len(rs) != 1 or isc(rs[0][1]):
            return None, None
        return rs[0]

    def assigned(rule, inst, r, name, kind, wh, val=NEW):
        st, p = lookup(r, name)
        if p is None:
            ck.ob(rule, inst, False, "symbol not found afterwards", wh)
            return
        f = S.f(st, p, "flags")
        if not isc(f):
            ck.ob(rule, inst, False, "flags undetermined", wh)
            return
        ck.ob(rule, inst, bool(cv(f) & S.UNK) == (kind == "unresolved"), "symbol is %sresolved" % ("un" if cv(f) & S.UNK else ""), wh)
        ck.ob(rule, inst, bool(cv(f) & S.STRING) == (kind == "string") and not cv(f) & S.MACRO, "symbol flags %#x" % cv(f), wh)
        if kind == "number":
            ck.ob(rule, inst, same(w, st, S.f(st, p, "value"), val), "value is %s, expected %s" % (S.f(st, p, "value"), val), wh)
        if kind == "string":
            sp = S.f(st, p, "string")
            ok = not isc(sp)
            if ok:
                got = chars(st, sp, 4)
                ok = all(same(w, st, a, b) for a, b in zip(got, CH + [C(0, 8)]))
            ck.ob(rule, inst, ok, "string is not the expression's", wh)

    NAMES = [("sym", "sym"), ("Sym", "Sym"), (".loc", "3.loc"), ("10$", "4$10$")]
    OTHER = ("other", 0, C(77, 64))

    def fresh(d):
        for label, full in NAMES:
            for kind in ("number", "unresolved", "string"):
                for chain in ([], [OTHER]):
                    inst = "%s of new %s to %s" % (d, label, kind)
                    rs = go(d, label, chain, kind)
                    ck.ob("assign", inst, len(rs) > 0, "no result", where(d))
                    for r in rs:
                        ck.ob("assign", inst, r.kind == "return" and not r.errs, "error reported", where(d))
                        if r.kind == "return":
                            assigned("assign", inst, r, label, kind, where(d))
                            if kind != "unresolved":
                                ck.ob("no further pass", inst, not r.redo, "asks for another pass", where(d))
                            if chain:
                                ck.ob("others unchanged", inst, same(w, r.st, S.f(r.st, S.ptrs[0], "value"), C(77, 64)), "", where(d))

    def again(d, d2):
        """Value over a previous value."""
        for label, full in NAMES:
            for ofl, what in ((0, "resolved"), (S.REF, "resolved and used"), (S.UNK, "unresolved"), (S.UNK | S.REF, "unresolved and used")):
                for kind in ("number", "unresolved", "string"):
                    inst = "%s of %s %s to %s" % (d, what, label, kind)
                    val = C(0, 64) if kind == "string" else NEW
                    rs = go(d, label, [(full, ofl, OLD), OTHER], kind, value=val)
                    ck.ob("reassign", inst, len(rs) > 0, "no result", where(d))
                    for r in rs:
                        if r.kind != "return":
                            ck.ob("reassign", inst, False, "aborts", where(d))
                            continue
                        assigned("reassign", inst, r, label, kind, where(d))
                        ck.ob("others unchanged", inst, same(w, r.st, S.f(r.st, S.ptrs[1], "value"), C(77, 64)), "", where(d))
                        err = any(fatal_err(ck.m, e) for e in r.errs) or bool(r.errs)
                        if d2 == "set":
                            ck.ob("set is free", inst, not err and not r.redo, "diagnosed", where(d))
                            continue
                        if ofl & S.UNK:
                            ck.ob("equ first value", inst, not err and (kind == "unresolved" or not r.redo), "diagnosed", where(d))
                        elif kind == "unresolved":
                            ck.ob("equ lost value", inst, r.redo_sure, "no further pass", where(d))
                        else:
                            eq = w.truth(r.st, T.eq(val, OLD))
                            if eq is None:
                                ck.ob("equ mismatch", inst, False, "same outcome for equal and different values", where(d))
                            elif eq:
                                ck.ob("equ match", inst, not err and not r.redo, "equal value diagnosed", where(d))
                            else:
                                ck.ob("equ mismatch", inst, err and r.redo_sure, "different value accepted", where(d))

    def concrete(d):
        """Pairs of values that differ in one part only."""
        pairs = [(0, 1), (1, 0), (0, 256), (0, 65536), (1, 1 + (1 << 32)), (0, 1 << 63), (-1, 0xffff), (-1, 0xffffffff), (255, -1), (5, -5)]
        for a, b in pairs:
            rs = go(d, "sym", [("sym", 0, C(a, 64))], "number", value=C(b, 64))
            ck.ob("equ mismatch", "%s %d then %d" % (d, a, b), len(rs) > 0, "no result", where(d))
            for r in rs:
                ck.ob("equ mismatch", "%s %d then %d" % (d, a, b), bool(r.errs) and r.redo_sure, "different value accepted", where(d))
                if r.kind == "return":
                    assigned("reassign", "%s %d then %d" % (d, a, b), r, "sym", "number", where(d), C(b, 64))
            rs = go(d, "sym", [("sym", 0, C(a, 64))], "number", value=C(a, 64))
            for r in rs:
                ck.ob("equ match", "%s %d then %d" % (d, a, a), not r.errs and not r.redo, "equal value diagnosed", where(d))

    def eqm():
        wh = where("eqm")
        for label, full in NAMES:
            for text in ("1", "a+b*(c)", ".. * 2", "x" * 300):
                for chain in ([], [OTHER], [(full, 0, OLD), OTHER], [(full, S.UNK | S.REF, OLD), OTHER], [(full, S.STRING, C(0, 64)), OTHER],
                              [(full, S.STRING | S.SET | S.MACRO, C(0, 64)), OTHER]):
                    inst = "eqm %s %.10s over %s" % (label, text, [(c[0], c[1]) for c in chain])

                    def setup(s):
                        for i, c in enumerate(chain):
                            if c[1] & S.STRING:
                                w.fset(s, S.ptrs[i], "_SYMBOL", "string", w.mkstr(s, "oldstr", "old"))
                    rs = go("eqm", label, chain, None, text=text, setup=setup)
                    ck.ob("eqm", inst, len(rs) > 0, "no result", wh)
                    for r in rs:
                        ck.ob("eqm", inst, r.kind == "return" and not r.errs and not r.redo, "error or further pass", wh)
                        if r.kind != "return":
                            continue
                        ck.ob("eqm", inst, not any(e[0] == "eval" for e in r.st.trace), "text evaluated at the definition", wh)
                        st, p = lookup(r, label)
                        if p is None:
                            ck.ob("eqm", inst, False, "symbol not found afterwards", wh)
                            continue
                        f = S.f(st, p, "flags")
                        ck.ob("eqm", inst, isc(f) and cv(f) & S.MACRO and not cv(f) & S.UNK, "symbol flags %s" % f, wh)
                        sp = S.f(st, p, "string")
                        ok = not isc(sp) and sp != obj("H:text")
                        if ok:
                            got = chars(st, sp, len(text) + 1)
                            ok = all(isc(a) and cv(a) == b for a, b in zip(got, text.encode() + b"\0"))
                        ck.ob("eqm", inst, ok, "text not stored", wh)

    def dot(d):
        wh = where(d)
        for label in (".", "*"):
            for seg in (0, S.SFU, S.SFB, S.SFR, S.SFR | S.SFB):
                for kind in ("number", "unresolved"):
                    inst = "%s %s %s, segment flags %#x" % (label, d, kind, seg)
                    rs = go(d, label, [OTHER], kind, seg=seg)
                    ck.ob("origin", inst, len(rs) > 0, "no result", wh)
                    for r in rs:
                        ck.ob("origin", inst, r.kind == "return", "aborts", wh)
                        if r.kind != "return":
                            continue
                        if kind == "unresolved":
                            ck.ob("origin", inst, r.fails, "no further pass", wh)
                            continue
                        cs = w.gget(r.st, "Csegment")
                        org, rorg, fl = [w.fget(r.st, cs, "_SEGMENT", f) for f in ("org", "rorg", "flags")]
                        want = (ORG, NEW) if seg & S.SFR else (NEW, RORG)
                        ck.ob("origin", inst, same(w, r.st, org, want[0]) and same(w, r.st, rorg, want[1]) and isc(fl) and
                              bool(cv(fl) & S.SFR) == bool(seg & S.SFR) and bool(cv(fl) & S.SFB) == bool(seg & S.SFB),
                              "origin %s, relocated origin %s, flags %s" % (org, rorg, fl), wh)

    def eqm_use():
        """Every use of an EQM symbol evaluates its text anew."""
        E = Expr(ck, models={"findsymbol": lambda I, s, a, ins: I.mkptr("sym0")})
        ew = E.w
        V1, V2 = sym("firstvalue", 64), sym("secondvalue", 64)
        wh = ck.fnline("eval")
        q = ew.mkptr("recres")

        def setup(s):
            p = ew.mkptr("sym0")
            ew.fset(s, p, "_SYMBOL", "flags", S.MACRO | S.STRING | S.SET)
            ew.fset(s, p, "_SYMBOL", "value", 0)
            ew.fset(s, p, "_SYMBOL", "string", ew.mkstr(s, "eqmtext", "x"))
            ew.fset(s, q, "_SYMBOL", "flags", 0)
            ew.fset(s, q, "_SYMBOL", "value", V1)
            ew.fset(s, q, "_SYMBOL", "next", 0)
        n = 0
        for env, s in E.start("a+a", nargs=0, lastwasop=1, setup=setup):
            for env2, s2, p in E.steps_to([(env, s)], 1):
                ck.ob("eqm use", "first value", same(ew, s2, E.argv(s2, 0), V1), "value %s" % E.argv(s2, 0), wh)
                ew.fset(s2, q, "_SYMBOL", "value", V2)
                ew.fset(s2, q, "_SYMBOL", "flags", 0)
                for env3, s3, p in E.steps_to([(dict(env2), s2)], 3):
                    n += 1
                    ck.ob("eqm use", "second value", same(ew, s3, E.argv(s3, 1), V2), "value %s" % E.argv(s3, 1), wh)
                    rec = [e for e in s3.trace if e[0] == "rec"]
                    ck.ob("eqm use", "evaluations", len(rec) == 2, "%d evaluations" % len(rec), wh)
        ck.ob("eqm use", "two uses", n > 0, "no result", wh)

    for n in ("equ", "=", "set", "eqm"):
        ck.ob("available", n, n in ops, "directive missing", "directive table")
    for d in ("equ", "=", "set"):
        if d not in ops:
            continue
        ck.rule(fresh, d)
        ck.rule(again, d, "set" if d == "set" else "equ")
        if d != "set":
            ck.rule(concrete, d)
            ck.rule(dot, d)
    if "eqm" in ops:
        ck.rule(eqm)
    ck.rule(eqm_use)
    for r, n in (("assign", 100), ("reassign", 200), ("equ mismatch", 20), ("equ match", 10), ("equ lost value", 8), ("set is free", 20), ("eqm", 100), ("origin", 20), ("eqm use", 3)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C15", run)
