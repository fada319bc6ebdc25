"""C42: SEG, ORG, RORG and REND select segments and addresses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.data import *

ADDR = ("org", "rorg", "initorg", "initrorg")
FLAGS = ("flags", "rflags", "initflags", "initrflags")
OLDFILL = 0x5a


def run(ck):
    D = Data(ck)
    w = D.w
    m = ck.m
    for g in ("Seglist", "Csegment", "OrgFill"):
        if g not in m.globals:
            raise AnalysisBroken("%s not found" % g)
    U, R, B = D.SFU, D.SFR, D.SFB
    ops = {n: D.ops.get(n) for n in ("seg", "org", "rorg", "rend")}
    for n, e in ops.items():
        ck.ob("available", n, e is not None, "directive missing", "directive table")
    GLOBALS = [g for g in ("Redo", "Redo_why", "OrgFill", "Localindex", "Localdollarindex", "Lastlocalindex", "Lastlocaldollarindex", "CheckSum", "Glen", "Processor", "pass",
                           "Ifstack", "Reploop", "pIncfile", "ListMode", "MsbOrder") if g in m.globals]

    def seg(s, k, name, nxt, fl):
        p = w.mkobj(s, "seg%d" % k, None, "zero")
        w.fset(s, p, "_SEGMENT", "name", w.mkstr(s, "segname%d" % k, name))
        w.fset(s, p, "_SEGMENT", "next", nxt)
        for f in ADDR:
            v = sym("%s%d" % (f, k), 64)
            w.limit(s, v, ((0, 1 << 40),))
            w.fset(s, p, "_SEGMENT", f, v)
        for f, v in zip(FLAGS, fl):
            w.fset(s, p, "_SEGMENT", f, v)
        return p

    def state(names, flags, cur, items=None, mnext=-1):
        s = D.state(items, mnext=mnext)
        head = C(0, 64)
        ps = []
        for k in reversed(range(len(names))):
            head = seg(s, k, names[k], head, flags[k])
            ps.insert(0, head)
        w.gset(s, "Seglist", head)
        w.gset(s, "Csegment", ps[cur])
        for g in GLOBALS:
            w.gset(s, g, 0)
        w.gset(s, "OrgFill", OLDFILL)
        w.gset(s, "Av", w.mkstr(s, "label", ""), 0, 8)
        return s, ps

    def view(st, p):
        return tuple(w.fget(st, p, "_SEGMENT", f) for f in ADDR + FLAGS)

    def walk(st):
        """segments in the list, by name"""
        out, p = [], w.gget(st, "Seglist")
        while not (isc(p) and cv(p) == 0):
            if isc(p) or len(out) > 8:
                return None
            n, txt = w.fget(st, p, "_SEGMENT", "name"), ""
            for i in range(40):
                c = w.load(st, T.add(n, C(i, 64)), 1)
                if not isc(c):
                    return None
                if cv(c) == 0:
                    break
                txt += chr(cv(c))
            out.append((txt, p))
            p = w.fget(st, p, "_SEGMENT", "next")
        return out

    def others(inst, s0, r, ps, skip, wh, allow=()):
        for k, p in enumerate(ps):
            if k != skip:
                a, b = view(s0, p), view(r.st, p)
                ck.ob("other segments", inst, all(same(w, r.st, x, y) for x, y in zip(a, b)), "segment %d changed: %s" % (k, [x for x, y in zip(b, a) if not same(w, r.st, x, y)]), wh)
        for g in GLOBALS:
            if g not in allow:
                a, b = w.gget(s0, g), w.gget(r.st, g)
                ck.ob("nothing else", inst, same(w, r.st, a, b), "%s changed to %s" % (g, b), wh)
        ck.ob("nothing else", inst, not any(e[0] in ("gen", "fill", "err", "panic", "exit") for e in r.st.trace), "emits bytes or reports an error", wh)
        ck.ob("label", inst, len([e for e in r.st.trace if e[0] == "label"]) == 1, "label defined %d times" % len([e for e in r.st.trace if e[0] == "label"]), wh)

    KIND = {"known": (0, 0, 0, 0), "new": (U, U, U, U), "uninitialised": (B, U, U, U), "relocated": (R, 0, 0, 0), "new uninitialised": (B | U, U, U, U), "relocated unknown": (R, U, 0, U),
            "both": (B | R, 0, 0, 0)}

    def segments():
        wh = ck.fnline(ops["seg"].vect)
        for names in (["INITIAL CODE SEGMENT"], ["code", "INITIAL CODE SEGMENT"], ["Code", "code", "cod"], ["a", "", "code"], ["code2", "b", "code"]):
            for cur in range(len(names)):
                for kn, kf in KIND.items():
                    for want in ("code", "Code", "cod", "code2", "", "x y"):
                        for ext in (-1, "BSS"):
                            fl = [kf if k == len(names) - 1 else KIND["known"] for k in range(len(names))]
                            s, ps = state(names, fl, cur, mnext=ext)
                            inst = "SEG%s %r of %s, current %r, last %s" % (".U" if ext == "BSS" else "", want, names, names[cur], kn)
                            s0 = s.copy()
                            rs = D.run(s, ops["seg"], want)
                            ck.ob("segment", inst, len(rs) > 0, "no result", wh)
                            for r in rs:
                                ck.ob("segment", inst, r.kind == "return", "aborts", wh)
                                if r.kind != "return":
                                    continue
                                others(inst, s0, r, ps, None, wh)
                                lst = walk(r.st)
                                cs = w.gget(r.st, "Csegment")
                                if lst is None:
                                    ck.ob("segment", inst, False, "segment list not decided", wh)
                                    continue
                                if want in names:
                                    ck.ob("segment", inst, same(w, r.st, cs, ps[names.index(want)]), "segment of that name not selected", wh)
                                    ck.ob("segment", inst, sorted(n for n, p in lst) == sorted(names), "list is %s" % [n for n, p in lst], wh)
                                    continue
                                ck.ob("segment", inst, sorted(n for n, p in lst) == sorted(names + [want]), "list is %s" % [n for n, p in lst], wh)
                                new = [p for n, p in lst if n == want]
                                if len(new) != 1:
                                    continue
                                ck.ob("segment", inst, same(w, r.st, cs, new[0]), "new segment not selected", wh)
                                f = [w.fget(r.st, new[0], "_SEGMENT", x) for x in FLAGS]
                                ck.ob("new segment", inst, all(isc(x) and cv(x) & U for x in f), "addresses of the new segment count as known: %s" % f, wh)
                                ck.ob("new segment", inst, isc(f[0]) and bool(cv(f[0]) & B) == (ext == "BSS"), "flags of the new segment: %s" % f[0], wh)
                                ck.ob("new segment", inst, isc(f[0]) and not cv(f[0]) & R, "the new segment is relocated", wh)

    def origin(word):
        wh = ck.fnline(ops[word].vect)
        a, fl, ia, ifl = ("org", "flags", "initorg", "initflags") if word == "org" else ("rorg", "rflags", "initrorg", "initrflags")
        for kn, kf in KIND.items():
            for initu in (0, U):
                for unk in (False, True):
                    for fill in (None, "0..255", 7) if word == "org" else (None,):
                        items = [Num((-(1 << 62), 1 << 62), unk)] + ([] if fill is None else [Num(fill if isinstance(fill, int) else (0, 255))])
                        kf2 = list(kf)
                        kf2[FLAGS.index(ifl)] = initu
                        s, ps = state(["a", "b"], [KIND["known"], kf2], 1, items)
                        inst = "%s %s%s, segment %s%s" % (word, "unresolved" if unk else "value", "" if fill is None else ", fill %s" % fill, kn, " without first address" if initu else "")
                        s0 = s.copy()
                        rs = D.run(s, ops[word])
                        ck.ob(word, inst, len(rs) > 0, "no result", wh)
                        for r in rs:
                            ck.ob(word, inst, r.kind == "return", "aborts", wh)
                            if r.kind != "return":
                                continue
                            others(inst, s0, r, ps, 1, wh, ("OrgFill", "Redo", "Redo_why"))
                            ck.ob(word, inst, same(w, r.st, w.gget(r.st, "Csegment"), ps[1]), "changes the current segment", wh)
                            new = dict(zip(ADDR + FLAGS, view(r.st, ps[1])))
                            old = dict(zip(ADDR + FLAGS, view(s0, ps[1])))
                            f0 = cv(old["flags"])
                            wf = f0 & ~U | (U if unk else 0) if word == "org" else f0 | R
                            ck.ob(word, inst, isc(new["flags"]) and cv(new["flags"]) == wf, "segment flags %s, expected %#x" % (new["flags"], wf), wh)
                            if word == "rorg":
                                ck.ob(word, inst, isc(new["rflags"]) and bool(cv(new["rflags"]) & U) == unk, "relocated address resolved: %s" % new["rflags"], wh)
                            if not unk:
                                ck.ob(word, inst, same(w, r.st, new[a], D.val(0)), "address is %s" % new[a], wh)
                            if initu and not unk:
                                ck.ob("first address", inst, same(w, r.st, new[ia], D.val(0)) and isc(new[ifl]) and not cv(new[ifl]) & U, "first address %s, flags %s" % (new[ia], new[ifl]), wh)
                            elif not initu:
                                ck.ob("first address", inst, same(w, r.st, new[ia], old[ia]) and same(w, r.st, new[ifl], old[ifl]), "first address changed to %s" % new[ia], wh)
                            for f in ADDR + FLAGS:
                                if f not in (a, fl, ia, ifl, "flags"):
                                    ck.ob(word, inst, same(w, r.st, new[f], old[f]), "%s changed to %s" % (f, new[f]), wh)
                            if word == "org":
                                g = w.gget(r.st, "OrgFill")
                                exp = C(OLDFILL, 8) if fill is None else C(fill, 8) if isinstance(fill, int) else T.extract(D.val(1), 0, 8)
                                ck.ob("fill value", inst, same(w, r.st, g, exp), "fill value is %s" % g, wh)

    def rend():
        wh = ck.fnline(ops["rend"].vect)
        for kn, kf in KIND.items():
            s, ps = state(["a", "b"], [KIND["relocated"], kf], 1)
            s0 = s.copy()
            rs = D.run(s, ops["rend"], "")
            ck.ob("rend", kn, len(rs) > 0, "no result", wh)
            for r in rs:
                ck.ob("rend", kn, r.kind == "return", "aborts", wh)
                if r.kind != "return":
                    continue
                others(kn, s0, r, ps, 1, wh)
                ck.ob("rend", kn, same(w, r.st, w.gget(r.st, "Csegment"), ps[1]), "changes the current segment", wh)
                new, old = dict(zip(ADDR + FLAGS, view(r.st, ps[1]))), dict(zip(ADDR + FLAGS, view(s0, ps[1])))
                f0 = cv(old["flags"])
                ck.ob("rend", kn, isc(new["flags"]) and cv(new["flags"]) == f0 & ~R, "segment flags %s" % new["flags"], wh)
                for f in ("org", "initorg", "initrorg", "initflags", "initrflags"):
                    ck.ob("rend", kn, same(w, r.st, new[f], old[f]), "%s changed to %s" % (f, new[f]), wh)

    for n, f in (("seg", segments), ("org", lambda: origin("org")), ("rorg", lambda: origin("rorg")), ("rend", rend)):
        if ops[n] is not None:
            ck.rule(f)
    for r, n in (("segment", 900), ("new segment", 300), ("org", 200), ("rorg", 100), ("rend", 40), ("first address", 50), ("fill value", 60)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C42", run)
