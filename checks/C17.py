"""C17: nesting is balanced on every way out; REPEAT counts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.nest import *
from vsa.mainprog import *

N1 = sym("count", 64)


def run(ck):
    m = ck.m
    INFM, MFIF = K("INF_MACRO", "MF_IF")

    def check_left(N, s0, st, frames, ifs, reps, keep, inst, where, scopes=True):
        """Only the first keep frames and what was opened in them are left."""
        w = N.w
        ck.ob("position", inst, same(w, st, w.gget(st, "pIncfile"), N.frames[keep - 1]), "reading does not go on in the caller", where)
        i = max([k + 1 for k, (f, _, _) in enumerate(ifs) if f < keep] or [0])
        ck.ob("conditionals", inst, same(w, st, N.top(st), N.ifp[i]), "conditional level is not the caller's", where)
        j = max([k + 1 for k, (f, _, _) in enumerate(reps) if f < keep] or [0])
        ck.ob("loops", inst, same(w, st, w.gget(st, "Reploop"), N.rp[j - 1] if j else C(0, 64)), "loop level is not the caller's", where)
        fr = [w.resolve(st, e[1])[0] for e in N.events(st, "free")]
        must = {"H:frame%d" % k for k in range(keep, len(frames))} | {"H:if%d" % k for k in range(i, len(ifs))} | {"H:rep%d" % k for k in range(j, len(reps))}
        kept = {"H:frame%d" % k for k in range(keep)} | {"H:if%d" % k for k in range(i)} | {"H:rep%d" % k for k in range(j)} | {"H:ifbase"}
        ck.ob("kept", inst, not kept & set(fr), "releases what belongs to the caller: %s" % sorted(kept & set(fr)), where)
        ck.ob("released once", inst, all(fr.count(x) <= 1 for x in must) and not N.events(st, "afterfree", "doublefree"), "released blocks %s" % fr, where)
        ch = [o for o in N.changed(s0, st) if o in kept]
        ck.ob("kept", inst + " contents", not ch, "changes %s" % ch, where)
        if scopes and keep < len(frames) and frames[keep] == "m":
            ck.ob("scopes", inst, same(w, st, w.gget(st, "Localindex"), C(1000 + keep, 64)) and same(w, st, w.gget(st, "Localdollarindex"), C(2000 + keep, 64)),
                  "label scopes are not the caller's", where)
        ck.ob("depth", inst, same(w, st, w.gget(st, "Mlevel"), C(frames[:keep].count("m"), 32)), "macro depth is not the caller's", where)

    def shapes(frames):
        """Conditionals and loops in every combination of up to three levels, innermost last."""
        n = len(frames)
        last = n - 1
        out = [((), ()), (((last, 1, 1),), ()), ((), ((last, C(3, 64), 0),)), (((last, 1, 1), (last, 1, 1)), ((last, C(3, 64), 0), (last, C(2, 64), 0)))]
        for f in range(last):
            out += [(((f, 1, 1),), ()), (((f, 1, 1), (last, 1, 1)), ()), (((f, 1, 1), (last, 0, 1), (last, 0, 0)), ((f, C(3, 64), 0),)),
                    (((f, 1, 1), (last, 1, 1)), ((f, C(3, 64), 0), (last, C(2, 64), 0))), (((f, 1, 1),), ((f, C(3, 64), 0), (last, C(2, 64), 0), (last, C(5, 64), 0)))]
        return out

    # --- leaving a macro
    def macros():
        N = Nest(ck)
        for word in ("endm", "mexit"):
            where = N.where(word)
            for frames in ("fm", "fmm", "ffm", "fmfm"):
                for k, (ifs, reps) in enumerate(shapes(frames)):
                    s = N.state(frames, ifs, reps)
                    inst = "%s, frames %s, nesting %d" % (word, frames, k)
                    rs = N.run(s.copy(), word)
                    ck.ob("position", inst, len(rs) > 0, "no result", where)
                    for st, kind in rs:
                        ck.ob("quiet", inst, kind == "return" and not N.events(st, "err", "panic", "exit", "label", "seek", "fclose"), "leaving a macro is diagnosed or moves a file", where)
                        check_left(N, s, st, frames, ifs, reps, len(frames) - 1, inst, where)
            for frames in ("f", "ff", "fmf"):
                ifs = ((0, 1, 1), (len(frames) - 1, 1, 1))
                s = N.state(frames, ifs, ((0, C(3, 64), 0),))
                for st, kind in N.run(s.copy(), word):
                    inst = "%s outside a macro, frames %s" % (word, frames)
                    check_left(N, s, st, frames, ifs, ((0, C(3, 64), 0),), len(frames), inst, where)
                    ck.ob("misuse", inst, any(fatal_err(m, e) for e in N.events(st, "err", "panic", "exit")), "not diagnosed", where)

    # --- END
    def ends():
        N = Nest(ck)
        where = N.where("end")
        SEEK_END = 2
        for frames, keep in (("f", 1), ("fm", 1), ("fmm", 1), ("ff", 2), ("ffm", 2), ("fmf", 3), ("fmfm", 3)):
            for k, (ifs, reps) in enumerate(shapes(frames)):
                s = N.state(frames, ifs, reps)
                inst = "end, frames %s, nesting %d" % (frames, k)
                rs = N.run(s.copy(), "end")
                ck.ob("position", inst, len(rs) > 0, "no result", where)
                for st, kind in rs:
                    i = max([q for q, f in enumerate(frames) if f == "f"])
                    check_left(N, s, st, frames, ifs, reps, i + 1, inst, where)
                    sk = N.events(st, "seek")
                    fi = N.w.fget(st, N.frames[i], "_INCFILE", "fi")
                    ck.ob("end of file", inst, len(sk) == 1 and same(N.w, st, sk[0][1], fi) and isc(sk[0][2]) and cv(sk[0][2]) == 0 and isc(sk[0][3]) and cv(sk[0][3]) == SEEK_END,
                          "the rest of the file is not skipped", where)

    # --- end of file and end of macro text in the main loop
    def mainloop():
        M = Main(ck)
        w = M.w
        where = ck.fnline("MainShadow")

        def observe(I, s):
            s.ev("obs", I.gget(s, "Ifstack"), I.gget(s, "Reploop"), I.gget(s, "pIncfile"), I.gget(s, "Localindex"), I.gget(s, "Localdollarindex"))

        def push(kind, nif, nrep, outif=0, outrep=0, text=None):
            def f(I, s):
                src = I.gget(s, "pIncfile")
                top = I.gget(s, "Ifstack")
                rep = C(0, 64)
                for q in range(outif):
                    p = I.mkobj(s, "oif%d" % q, None, "zero")
                    for fld, v in (("next", top), ("file", src), ("xtrue", 1), ("acctrue", 1)):
                        I.fset(s, p, "_IFSTACK", fld, v)
                    top = p
                for q in range(outrep):
                    p = I.mkobj(s, "orep%d" % q, None, "zero")
                    for fld, v in (("next", rep), ("file", src), ("count", 5)):
                        I.fset(s, p, "_REPLOOP", fld, v)
                    rep = p
                s.ev("before", top, rep, src)
                fr = I.mkobj(s, "sub", None, "zero")
                I.fset(s, fr, "_INCFILE", "next", src)
                I.fset(s, fr, "_INCFILE", "name", I.mkstr(s, "subname", "sub"))
                I.fset(s, fr, "_INCFILE", "fi", I.mkptr("substream") if kind == "f" else I.fget(s, src, "_INCFILE", "fi"))
                I.fset(s, fr, "_INCFILE", "flags", INFM if kind == "m" else 0)
                if kind == "m":
                    I.fset(s, fr, "_INCFILE", "saveidx", 77)
                    I.fset(s, fr, "_INCFILE", "savedolidx", 88)
                    I.gset(s, "Mlevel", 1)
                    nxt = C(0, 64)
                    for q in reversed(text):
                        p = I.mkobj(s, "mline%d" % q, None, "zero")
                        I.fset(s, p, "_STRLIST", "next", nxt)
                        off, n = I.fld("_STRLIST", "buf")
                        o = I.getobj(s, p.a[0]).mod()
                        for z, ch in enumerate(("@%d" % q).encode()):
                            I.put(o, off + z, C(ch, 8))
                        s.mem[p.a[0]] = o
                        nxt = p
                    I.fset(s, fr, "_INCFILE", "strlist", nxt)
                else:
                    I.gset(s, "Inclevel", 2)
                for q in range(nif):
                    p = I.mkobj(s, "nif%d" % q, None, "zero")
                    for fld, v in (("next", top), ("file", fr), ("xtrue", q != nif - 1 or 1), ("acctrue", 1)):
                        I.fset(s, p, "_IFSTACK", fld, int(v) if not hasattr(v, "w") else v)
                    top = p
                for q in range(nrep):
                    p = I.mkobj(s, "nrep%d" % q, None, "zero")
                    for fld, v in (("next", rep), ("file", fr), ("count", 5)):
                        I.fset(s, p, "_REPLOOP", fld, v)
                    rep = p
                I.gset(s, "Ifstack", top)
                I.gset(s, "Reploop", rep)
                I.gset(s, "pIncfile", fr)
            return f
        st1 = lambda: Line(word="stmt", flags=MFIF, effect=observe)
        for kind in "fm":
            for nif in (0, 1, 2):
                for nrep in (0, 1, 2):
                    for oi, orp in ((0, 0), (1, 0), (0, 1), (2, 1)):
                        for body in (0, 1, 2):
                            inst = "%s with %d/%d open, caller %d/%d, %d lines" % ("include file" if kind == "f" else "macro", nif, nrep, oi, orp, body)
                            if kind == "f":
                                script = [Line(word="inc", flags=MFIF, effect=push("f", nif, nrep, oi, orp))] + [st1() for _ in range(body)] + [None, st1(), None]
                                aft = body + 2
                            else:
                                # file lines first, macro text after them in the script
                                script = [Line(word="call", flags=MFIF, effect=push("m", nif, nrep, oi, orp, list(range(3, 3 + body)))), st1(), None] + [st1() for _ in range(body)]
                                aft = 1
                            rs = M.go(script)
                            ck.ob("end of block", inst, len(rs) == 1, "%d results" % len(rs), where)
                            for st, k, code in rs:
                                ev = flat(st.trace)
                                b = [e for e in ev if e[0] == "before"]
                                idx = [q for q, e in enumerate(ev) if e[0] == "handler"]
                                order = [ev[q][1] for q in idx]
                                want = list(range(body + 1)) + [aft] if kind == "f" else [0] + list(range(3, 3 + body)) + [aft]
                                if not ck.ob("order", inst, order == want, "lines are assembled in the order %s, expected %s" % (order, want), where):
                                    continue
                                ob = [e for e in ev if e[0] == "obs"][-1]
                                _, top, rep, src = b[0]
                                ck.ob("end of block", inst + " conditionals", same(w, st, ob[1], top), "conditional level is not the caller's", where)
                                ck.ob("end of block", inst + " loops", same(w, st, ob[2], rep), "loop level is not the caller's", where)
                                ck.ob("end of block", inst + " position", same(w, st, ob[3], src), "reading does not go on in the caller", where)
                                if kind == "m":
                                    ck.ob("end of block", inst + " scopes", same(w, st, ob[4], C(77, 64)) and same(w, st, ob[5], C(88, 64)), "label scopes are not the caller's", where)
                                cl = [e for e in ev if e[0] == "fclose" and same(w, st, e[1], w.mkptr("substream"))]
                                ck.ob("file closed", inst, len(cl) == (1 if kind == "f" else 0), "closed %d times" % len(cl), where)
                                fr = [w.resolve(st, e[1])[0] for e in ev if e[0] == "free"]
                                until = max(q for q, e in enumerate(ev) if e[0] == "obs")
                                early = [w.resolve(st, e[1])[0] for e in ev[:until] if e[0] == "free"]
                                ck.ob("released once", inst, all(fr.count(x) <= 1 for x in fr) and not any(x and x.startswith(("H:oif", "H:orep", "H:mline")) for x in early), "released: %s" % fr, where)
                                rd = [e for e in ev if e[0] == "read"]
                                if kind == "f":
                                    subs = [e[1] for e in rd if same(w, st, e[2], w.mkptr("substream"))]
                                    ck.ob("order", inst + " source", subs == list(range(1, body + 2)), "lines read from the included file: %s" % subs, where)
                                ck.ob("quiet", inst, isc(code) and cv(code) == 0, "exit code %s" % code, where)

    # --- closing what another file opened
    def foreign():
        N = Nest(ck)
        for word in ("endif", "eif", "repend"):
            where = N.where(word)
            for frames in ("ff", "fm", "fmf", "fmm"):
                for x, a in ((1, 1), (0, 1), (0, 0)):
                    if word == "repend" and not (x and a):
                        pass
                    ifs = ((len(frames) - 2, x, a),)
                    reps = ((len(frames) - 2, C(3, 64), 0),)
                    s = N.state(frames, ifs, reps)
                    inst = "%s of the caller's block (%d,%d), frames %s" % (word, x, a, frames)
                    rs = N.run(s.copy(), word)
                    ck.ob("foreign", inst, len(rs) > 0, "no result", where)
                    for st, k in rs:
                        ok = same(N.w, st, N.top(st), N.ifp[-1]) and same(N.w, st, N.w.gget(st, "Reploop"), N.rp[-1]) and not N.events(st, "free", "seek")
                        ck.ob("foreign", inst, ok, "closes or repeats a block of another file", where)
                        ck.ob("misuse", inst, any(fatal_err(m, e) for e in N.events(st, "err", "panic", "exit")), "not diagnosed", where)
        s = N.state("f", ())
        for st, k in N.run(s.copy(), "repend"):
            ck.ob("misuse", "repend without repeat", any(fatal_err(m, e) for e in N.events(st, "err", "panic", "exit")), "not diagnosed", N.where("repend"))

    # --- REPEAT counts
    def repeats():
        N = Nest(ck)
        w = N.w
        wr, we = N.where("repeat"), N.where("repend")

        def loop(frames, n, R, limit, inst, exact):
            s = N.state(frames, ((0, 1, 1),), ((0, C(9, 64), 0),), value=n)
            if R:
                w.limit(s, n, R)
            pos = w.fget(s, N.frames[-1], "_INCFILE", "strlist") if frames[-1] == "m" else sym("filepos", 64)
            line0 = w.fget(s, N.frames[-1], "_INCFILE", "lineno")
            rs = N.run(s.copy(), "repeat")
            if len(rs) != 1 or rs[0][1] != "return" or N.events(rs[0][0], "err"):
                ck.ob("repeat", inst, False, "REPEAT does not start a loop", wr)
                return
            st = rs[0][0]
            ck.ob("repeat", inst + " entered", N.active(st) is True and len(N.events(st, "label")) == 1, "body is not assembled", wr)
            times = 1
            while times <= limit:
                # lines of the body advance the position
                body = st.copy()
                w.fset(body, N.frames[-1], "_INCFILE", "lineno", 500)
                if frames[-1] == "m":
                    w.fset(body, N.frames[-1], "_INCFILE", "strlist", w.mkptr("laterline"))
                rs = N.run(body, "repend")
                if len(rs) != 1 or rs[0][1] != "return" or N.events(rs[0][0], "err", "afterfree", "doublefree"):
                    ck.ob("repeat", inst, False, "REPEND after %d rounds: %s" % (times, [N.events(x, "err") for x, _ in rs]), we)
                    return
                st = rs[0][0]
                if N.active(st) is not True:
                    ck.ob("repeat", inst, False, "not active after REPEND", we)
                    return
                if same(w, st, w.gget(st, "Reploop"), N.rp[-1]):
                    break
                if frames[-1] == "m":
                    back = same(w, st, w.fget(st, N.frames[-1], "_INCFILE", "strlist"), pos)
                else:
                    sk = N.events(st, "seek")
                    back = len(sk) == 1 and same(w, st, sk[0][1], w.fget(st, N.frames[-1], "_INCFILE", "fi")) and same(w, st, sk[0][2], pos) and isc(sk[0][3]) and cv(sk[0][3]) == 0
                ck.ob("repeat", inst + " position", back and same(w, st, w.fget(st, N.frames[-1], "_INCFILE", "lineno"), line0), "does not go back to the first line of the body", we)
                times += 1
            if exact is not None:
                ck.ob("repeat", inst, times == exact, "body runs %s times" % (times if times <= limit else "more than %d" % limit), we)
                ck.ob("repeat", inst + " finished", same(w, st, N.top(st), N.ifp[-1]) and not N.events(st, "seek"), "block is not closed after the last round", we)
            else:
                ck.ob("repeat", inst, times > limit, "body runs only %d times" % times, we)
        for frames in ("f", "fm", "ff", "fmm"):
            for n in (1, 2, 3, 5, 8):
                loop(frames, C(n, 64), None, 10, "%d, frames %s" % (n, frames), n)
            for lo in (4, 255, 256, 257, 65535, 65536, 65537, 1 << 31, (1 << 32) + 1):
                loop(frames, C(lo, 64), None, 3, "%d, frames %s" % (lo, frames), None)
            loop(frames, N1, ((4, (1 << 63) - 1),), 3, "any count above 3, frames %s" % frames, None)
            s = N.state(frames, ((0, 1, 1),), ((0, C(9, 64), 0),), value=0)
            for st, k in N.run(s.copy(), "repeat"):
                ck.ob("repeat", "0, frames %s" % frames, k == "return" and N.active(st) is False and not N.events(st, "err"), "body is assembled", wr)
                for st2, k2 in N.run(st, "repend"):
                    ck.ob("repeat", "0, frames %s closed" % frames, k2 == "return" and same(w, st2, N.top(st2), N.ifp[-1]) and same(w, st2, w.gget(st2, "Reploop"), N.rp[-1])
                          and not N.events(st2, "err", "seek"), "block is not closed quietly", we)

    for r in (macros, ends, mainloop, foreign, repeats):
        ck.rule(r)
    for r, n in (("position", 60), ("conditionals", 60), ("loops", 60), ("kept", 100), ("released once", 60), ("scopes", 40), ("depth", 60), ("end of file", 40),
                 ("end of block", 300), ("order", 200), ("file closed", 200), ("foreign", 60), ("misuse", 40), ("repeat", 150)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C17", run)
