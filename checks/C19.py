"""C19: local label scopes change exactly at SUBROUTINE, labels and macro boundaries."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.symtab import *
from vsa.mainprog import *

SCOPE = ("Localindex", "Lastlocalindex", "Localdollarindex", "Lastlocaldollarindex")
L0, L9, D0, D9 = (sym(n, 64) for n in ("local", "lastlocal", "dollar", "lastdollar"))


def run(ck):
    m = ck.m
    for g in SCOPE:
        if g not in m.globals:
            raise AnalysisBroken("scope variable %s not found" % g)

    def enter(w, s):
        for g, t in zip(SCOPE, (L0, L9, D0, D9)):
            w.gset(s, g, t)
        w.limit(s, L9, ((0, 1 << 40),))
        w.limit(s, D9, ((0, 1 << 40),))
        w.limit(s, L0, ((0, 1 << 40),))
        w.limit(s, D0, ((0, 1 << 40),))

    def judge(w, st, inst, local, dollar, where):
        """local/dollar: 'fresh', 'same' or a pair of expected terms."""
        for what, g, last, g0, last0, want in (("'.name' scope", SCOPE[0], SCOPE[1], L0, L9, local), ("'nnn$' scope", SCOPE[2], SCOPE[3], D0, D9, dollar)):
            cur, la = w.gget(st, g), w.gget(st, last)
            if want == "same":
                ck.ob("unchanged", "%s, %s" % (inst, what), same(w, st, cur, g0) and same(w, st, la, last0), "scope changes to %s (last %s)" % (cur, la), where)
            elif want == "fresh":
                ck.ob("fresh", "%s, %s" % (inst, what), w.truth(st, T.ult(last0, cur)) is True, "scope %s may have been used before (last %s)" % (cur, last0), where)
                ck.ob("fresh", "%s, %s remembered" % (inst, what), w.truth(st, T.ult(la, cur)) is False, "scope %s may be given out again (last %s)" % (cur, la), where)
            else:
                ck.ob("restored", "%s, %s" % (inst, what), same(w, st, cur, want) and same(w, st, la, last0), "scope is %s" % cur, where)

    # --- labels
    def labels():
        S = Symtab(ck)
        w = S.w
        where = ck.fnline("programlabel")
        cases = [("label", "fresh"), ("Label:", "fresh"), ("x", "fresh"), ("_a1", "fresh"), (".loc", "same"), (".loc:", "same"), ("1$", "same"), ("10$:", "same"), ("", "same"), ("n" * 300, "fresh")]
        for name, want in cases:
            for sf in (0, S.SFR, S.SFB, S.SFU):
                for known in (False, True):
                    full = name.rstrip(":")
                    chain = [("q", 0, C(1, 64))]
                    if known and name and want == "fresh":
                        chain.append((full, S.UNK | S.REF, C(0, 64)))
                    s = S.state(chain, 0, 0, sf, 0)
                    if want == "same":
                        # local names are looked up under their scope number
                        for g, v in zip(SCOPE, (3, 8, 4, 9)):
                            w.gset(s, g, v)
                        w.gset(s, "Av", w.mkstr(s, "label", name), 0, 8)
                        w.gset(s, "Redo", 0)
                        rs = w.run(s, "programlabel", [])
                        ck.ob("unchanged", "label %r, flags %x" % (name, sf), len(rs) > 0 and all(
                            [sv(w.gget(st, g)) if isc(w.gget(st, g)) else None for g in SCOPE] == [3, 8, 4, 9] for st, _ in rs), "a local label changes a scope", where)
                        continue
                    enter(w, s)
                    w.gset(s, "Av", w.mkstr(s, "label", name), 0, 8)
                    w.gset(s, "Redo", 0)
                    rs = w.run(s, "programlabel", [])
                    inst = "label %s%s, flags %x" % (name[:8], " known" if known else "", sf)
                    ck.ob("fresh", inst, len(rs) > 0, "no result", where)
                    for st, _ in rs:
                        judge(w, st, inst, "same", "fresh", where)

    # --- SUBROUTINE and macro calls
    def handlers():
        N = Nest(ck)
        w = N.w
        where = N.where("subroutine")
        for frames in ("f", "fm", "ff"):
            s = N.state(frames)
            enter(w, s)
            rs = N.run(s, "subroutine")
            ck.ob("fresh", "SUBROUTINE, frames %s" % frames, len(rs) > 0, "no result", where)
            for st, k in rs:
                judge(w, st, "SUBROUTINE, frames %s" % frames, "fresh", "same", where)
        ex = "v_execmac"
        if ex not in m.funcs:
            raise AnalysisBroken("macro call handler not found")
        where = ck.fnline(ex)
        for frames in ("f", "fm", "ff"):
            for text in ("", "a", "a,b", "a, b ,c"):
                s = N.state(frames)
                enter(w, s)
                mac = w.mkobj(s, "macro", None, "zero")
                w.fset(s, mac, "_MACRO", "name", w.mkstr(s, "macname", "mac"))
                w.fset(s, mac, "_MACRO", "strlist", w.mkptr("macbody"))
                n0 = len(w.exits)
                p = w.mkstr(s, "text", text)
                rs = w.run(s, ex, [p, mac])
                inst = "macro call %r, frames %s" % (text, frames)
                ck.ob("fresh", inst, len(rs) > 0, "no result", where)
                for st, _ in rs:
                    judge(w, st, inst, "fresh", "fresh", where)
                    l9, d9 = w.gget(st, SCOPE[1]), w.gget(st, SCOPE[3])
                    # lines of the macro change the scopes, then it ends
                    for end in ("endm", "mexit"):
                        s2 = st.copy()
                        w.gset(s2, SCOPE[0], 123456)
                        w.gset(s2, SCOPE[2], 654321)
                        for st2, k2 in N.run(s2, end):
                            ok = same(w, st2, w.gget(st2, SCOPE[0]), L0) and same(w, st2, w.gget(st2, SCOPE[2]), D0)
                            ck.ob("restored", "%s by %s" % (inst, end), ok, "scopes after the macro are %s, %s" % (w.gget(st2, SCOPE[0]), w.gget(st2, SCOPE[2])), N.where(end))
                            ok = same(w, st2, w.gget(st2, SCOPE[1]), l9) and same(w, st2, w.gget(st2, SCOPE[3]), d9)
                            ck.ob("restored", "%s by %s, next scope" % (inst, end), ok, "scopes already used would be given out again", N.where(end))

    # --- everything else leaves them alone
    def others():
        wr = {}
        for f in m.funcs.values():
            for b in f.blocks.values():
                for ins in b.insts:
                    if ins.op == "store" and ins.a[1][0] == "g" and ins.a[1][1] in SCOPE:
                        wr.setdefault(f.name, set()).add(ins.a[1][1])
        ck.ob("writers", "at least the label, subroutine and macro handlers", len(wr) >= 3, "only %s" % sorted(wr), "-")
        OPS = mne_table(m, "Ops")
        mayscope = {"subroutine", "endm", "mexit", "end"}

        def reach(f, cut):
            seen, work = set(), [f]
            while work:
                x = work.pop()
                if x in seen or x in cut or x not in m.funcs:
                    continue
                seen.add(x)
                for b in m.funcs[x].blocks.values():
                    for ins in b.insts:
                        if ins.op == "call" and ins.a[0][0] == "g":
                            work.append(ins.a[0][1])
            return seen
        fns = {}
        for e in OPS:
            fns.setdefault(e.vect, []).append(e.name)
        for t in [g for g in m.globals if g.startswith("Mne")]:
            try:
                for e in mne_table(m, t):
                    fns.setdefault(e.vect, []).append(e.name)
            except AnalysisBroken:
                pass
        for f, names in sorted(fns.items()):
            if set(names) & mayscope:
                continue
            bad = [x for x in reach(f, {"programlabel"}) if x in wr]
            ck.ob("other statements", "/".join(sorted(set(names))[:4]), not bad, "changes label scopes in %s" % bad, ck.fnline(f))
        for f in ("eval", "findsymbol", "CreateSymbol", "generate", "cleanup", "parse", "pushinclude", "findmne", "v_macro", "closegenerate", "clearrefs", "clearsegs"):
            if f in m.funcs:
                bad = [x for x in reach(f, {"programlabel"}) if x in wr]
                ck.ob("other statements", f, not bad, "changes label scopes in %s" % bad, ck.fnline(f))

    # --- passes and files
    def passes():
        M = Main(ck)
        w = M.w
        where = ck.fnline("MainShadow")
        IF = K("MF_IF")

        def obs(I, s):
            s.ev("obs", tuple(I.gget(s, g) for g in SCOPE))

        def dirty(vals, redo=1):
            def f(I, s):
                obs(I, s)
                for g, v in zip(SCOPE, vals):
                    I.gset(s, g, v)
                I.gset(s, "Redo", redo)
                I.gset(s, "Redo_why", 2 if I.gget(s, "pass").a and sv(I.gget(s, "pass")) % 2 else 4)
            return f
        for vals in ((5, 6, 7, 8), (1, 1, 1, 1), (0, 3, 0, 3), (9, 9, 0, 0), (0, 0, 9, 9)):
            for n in (2, 3):
                script = []
                for p in range(n):
                    script += [Line(word="x", flags=IF, effect=dirty(vals, 1 if p < n - 1 else 0)), Line(label="l", word="y", flags=0, effect=lambda I, s: s.ev("mid", tuple(I.gget(s, g) for g in SCOPE))), None]
                rs = M.go(script)
                inst = "%d passes ending with scopes %s" % (n, vals)
                ck.ob("passes", inst, len(rs) == 1, "%d results" % len(rs), where)
                for st, k, code in rs:
                    ob = [e[1] for e in flat(st.trace) if e[0] == "obs"]
                    ck.ob("passes", inst + " same start", len(ob) == n and all(all(a is b for a, b in zip(o, ob[0])) for o in ob), "scopes at the start of the passes: %s" % ob, where)
                    mid = [e[1] for e in flat(st.trace) if e[0] == "mid"]
                    ck.ob("passes", inst + " between lines", all([sv(x) for x in o] == list(vals) for o in mid), "scopes change between lines", where)

    for r in (labels, handlers, others, passes):
        ck.rule(r)
    for r, n in (("fresh", 60), ("unchanged", 60), ("restored", 40), ("other statements", 30), ("passes", 25)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C19", run)
