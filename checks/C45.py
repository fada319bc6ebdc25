"""C45: summary after each pass: segments, reasons, unresolved symbols."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.sweep import *
from vsa.screen import screen_models

M64 = (1 << 64) - 1
# documented reasons: bit -> words that name it
REASONS = {0: ("mnemonic",), 2: ("DC",), 3: ("DV", "probably"), 4: ("DV", "could"), 5: ("DS",), 6: ("ALIGN", "not resolved"), 7: ("ALIGN", "elocatable"), 8: ("ALIGN", "ormal"),
           9: ("EQU", "not resolved"), 10: ("EQU", "mismatch"), 11: ("IF",), 12: ("REPEAT",), 13: ("forward reference",), 14: ("different",), 15: ("ranch",), 16: ("INCLUDE",), 17: ("INCBIN",)}


def run(ck):
    M = Main(ck, real=("ShowSegments", "ShowUnresolvedSymbols"), models=screen_models())
    w = M.w
    SFU, SFB, SFR = K("SF_UNKNOWN", "SF_BSS", "SF_RORG")
    UNK = K("SYM_UNKNOWN")
    where = ck.fnline("MainShadow")
    wseg = ck.fnline("ShowSegments") if "ShowSegments" in ck.m.funcs else where
    wun = ck.fnline("ShowUnresolvedSymbols") if "ShowUnresolvedSymbols" in ck.m.funcs else where
    nb = ck.m.globals["SHash"].ty.size // 8

    def screen(st):
        t = [x[1] for x in flat(st.trace) if x[0] == "screen"]
        return None if any(x is None for x in t) else "".join(t)

    def segments(segs):
        """Effect: the segment list is this one: [(name, flags, rflags, org, rorg, initflags, initrflags, initorg, initrorg)]"""
        def f(I, s):
            head = C(0, 64)
            for k in reversed(range(len(segs))):
                name, fl, rfl, org, rorg, ifl, irfl, io, ir = segs[k]
                p = I.mkobj(s, "sg%d" % k, None, "zero")
                for fd, v in (("name", I.mkstr(s, "sgname%d" % k, name)), ("flags", fl), ("rflags", rfl), ("org", org), ("rorg", rorg), ("initflags", ifl), ("initrflags", irfl), ("initorg", io), ("initrorg", ir), ("next", head)):
                    I.fset(s, p, "_SEGMENT", fd, v)
                head = p
            I.gset(s, "Seglist", head)
            I.gset(s, "Csegment", head)
            return [(s, None)]
        return f

    def table(syms):
        def f(s):
            heads = {}
            for k in reversed(range(len(syms))):
                name, val, fl, b = syms[k]
                p = w.mkobj(s, "sym%d" % k, None, "zero")
                w.fset(s, p, "_SYMBOL", "name", w.mkstr(s, "name%d" % k, name))
                w.fset(s, p, "_SYMBOL", "namelen", len(name))
                w.fset(s, p, "_SYMBOL", "flags", fl)
                w.fset(s, p, "_SYMBOL", "value", val)
                w.fset(s, p, "_SYMBOL", "next", heads.get(b, C(0, 64)))
                heads[b] = p
            for b, p in heads.items():
                w.gset(s, "SHash", p, 8 * b, 8)
        return f

    def addresses(line):
        """[(hex digits, marked unknown)] of a segment line after its name."""
        out = []
        for x in line.split():
            if x == "????" and out:
                out[-1] = (out[-1][0], True)
            elif len(x) >= 4 and all(c in "0123456789abcdefABCDEF" for c in x):
                out.append((x.lower(), False))
        return out

    def both(*fs):
        def f(I, s):
            ss = [s]
            for g in fs:
                nx = []
                for x in ss:
                    r = g(I, x)
                    nx += [y for y, _ in r] if isinstance(r, list) else [x]
                ss = nx
            return [(x, None) for x in ss]
        return f

    def shown(segs, v, what):
        rs = M.go([Line(word="x", flags=0, effect=segments(segs)), None], args=("-v%d" % v,) if v is not None else ())
        inst = "%s, %s" % (what, "-v%d" % v if v is not None else "no -v")
        ck.ob("segments", inst, len(rs) > 0, "no result", wseg)
        for st, kind, code in rs:
            t = screen(st)
            if not ck.ob("segments", inst, t is not None and kind == "return", "text not decided (%s)" % kind, wseg):
                continue
            ls = t.split("\n")
            for name, fl, rfl, org, rorg, ifl, irfl, io, ir in segs:
                mine = [l for l in ls if l.startswith("%-24s " % name)]
                if not v:
                    ck.ob("quiet", inst, not mine, "segment %s shown" % name, wseg)
                    continue
                if not ck.ob("segments", inst, len(mine) == 1, "segment %s is shown %d times" % (name, len(mine)), wseg):
                    continue
                rest = mine[0][max(24, len(name)):]
                got = addresses(rest)
                want = [("%04x" % (a & M64), bool(f & SFU)) for a, f in ((io, ifl), (ir, irfl), (org, fl), (rorg, rfl))]
                ck.ob("addresses", inst, got == want, "segment %s shows %s, expected %s" % (name, got, want), wseg)
                ck.ob("uninitialised", inst, ("[u]" in rest) == bool(fl & SFB), "segment %s is %smarked [u]" % (name, "" if "[u]" in rest else "not "), wseg)

    def sg(name, k=0, fl=0, rfl=0, ifl=0, irfl=0):
        return (name, fl, rfl, 0x1001 + 16 * k, 0x2002 + 16 * k, ifl, irfl, 0x3003 + 16 * k, 0x4004 + 16 * k)
    for v in (None, 0, 1, 2, 3, 4):
        ck.rule(shown, [sg("CODE")], v, "one segment")
        ck.rule(shown, [sg("CODE"), sg("DATA", 1), sg("BSS", 2, SFB)], v, "three segments")
        ck.rule(shown, [sg("s%d" % i, i) for i in range(7)], v, "seven segments")
    for fl in range(16):
        b = lambda i: SFU if fl >> i & 1 else 0
        ck.rule(shown, [sg("A", 0, b(0), b(1), b(2), b(3)), sg("B", 1, b(3) | SFB, b(2), b(1), b(0))], 1, "unknown addresses %x" % fl)
    for big in (0, 0xffff, 0x10000, 0x12345678, 1 << 40):
        ck.rule(shown, [("BIG", 0, 0, big, big + 1, 0, 0, big + 2, big + 3)], 1, "address %#x" % big)

    def reasons(bits, nredo, neval, v):
        why = sum(1 << b for b in bits)
        rs = M.go([Line(word="x", flags=0, effect=bypass(effect(Redo=nredo, Redo_why=why, Redo_eval=neval), effect())), None, Line(), None], args=("-v%d" % v,))
        inst = "reasons %s, %d events, %d references, -v%d" % (",".join(map(str, bits)), nredo, neval, v)
        ck.ob("reasons", inst, len(rs) > 0, "no result", wseg)
        for st, kind, code in rs:
            t = screen(st)
            if not ck.ob("reasons", inst, t is not None, "text not decided", wseg):
                continue
            # first pass only
            i = t.find("\n----", t.find("SEGMENT NAME"))
            j = t.find("SEGMENT NAME", i + 1)
            p1 = t[i:j if j >= 0 else None]
            got = [l for l in p1.split("\n") if l.startswith(" - ")]
            known = [b for b in bits if b in REASONS]
            ck.ob("reasons", inst, len(got) == len(bits), "%d reasons shown: %s" % (len(got), got[:4]), wseg)
            for b in REASONS:
                n = [l for l in got if all(x in l for x in REASONS[b])]
                if b == 11:
                    n = [l for l in n if " IF" in l]
                if b in known:
                    ck.ob("reasons", inst + " bit %d" % b, len(n) >= 1, "not named", wseg)
            for n, words in ((neval, "unknown symbols"), (nredo, "another assembler pass")):
                l = [x for x in p1.split("\n") if words in x]
                ck.ob("counts", inst, len(l) == 1 and l[0].split()[0] == str(n), "shows %s" % l[:1], wseg)
    for b in sorted(REASONS):
        ck.rule(reasons, (b,), 1, 0, 1)
    ck.rule(reasons, (), 0, 0, 1)
    ck.rule(reasons, (), 3, 2, 2)
    for bs in ((0, 13), (2, 5, 9), (3, 4), (6, 7, 8), (9, 10, 11, 12), (14, 15, 16, 17), tuple(sorted(REASONS))):
        ck.rule(reasons, bs, 12, 345, 1)

    def each_pass(list_of):
        """The counts and reasons shown after a pass are those of that pass."""
        def more(g, f):
            def h(I, s):
                x = I.gget(s, g)
                return C(f(cv(x)), x.w)
            return h
        eff = bypass(*[effect(Redo=more("Redo", lambda x, n=n: x + n), Redo_why=more("Redo_why", lambda x, b=bits: x | sum(1 << i for i in b)),
                              Redo_eval=more("Redo_eval", lambda x, e=e: x + e)) for n, bits, e in list_of])
        rs = M.go([Line(word="x", flags=0, effect=eff), None] * len(list_of), args=("-v1",))
        inst = "passes with %s" % "; ".join("%d events (%s), %d references" % (n, ",".join(map(str, bits)), e) for n, bits, e in list_of)
        ck.ob("each pass", inst, len(rs) > 0, "no result", wseg)
        for st, kind, code in rs:
            t = screen(st)
            if not ck.ob("each pass", inst, t is not None, "text not decided", wseg):
                continue
            parts = t.split("SEGMENT NAME")[1:]
            if not ck.ob("each pass", inst, len(parts) == len(list_of), "%d summaries" % len(parts), wseg):
                continue
            for k, (part, (n, bits, e)) in enumerate(zip(parts, list_of)):
                got = [l for l in part.split("\n") if l.startswith(" - ")]
                ck.ob("each pass", inst, len(got) == len(bits) and all(any(all(x in l for x in REASONS[b]) for l in got) for b in bits), "pass %d shows reasons %s" % (k + 1, got[:4]), wseg)
                for c, words in ((e, "unknown symbols"), (n, "another assembler pass")):
                    l = [x for x in part.split("\n") if words in x]
                    ck.ob("each pass", inst, len(l) == 1 and l[0].split()[0] == str(c), "pass %d shows %s" % (k + 1, l[:1]), wseg)
    ck.rule(each_pass, ((3, (0,), 2), (0, (), 0)))
    ck.rule(each_pass, ((3, (0, 2), 2), (1, (13,), 1), (0, (), 0)))
    ck.rule(each_pass, ((5, (5,), 9), (4, (9,), 9), (4, (9,), 3), (0, (), 0)))
    ck.rule(each_pass, ((2, (0,), 0), (1, (14,), 4), (3, (0, 14), 0), (0, (), 0)))
    ck.need("each pass", 20)

    # the reason is recorded with each event
    def recorded(S, texts, bits):
        s = S.base.copy()
        if "incbin" in texts[0]:
            s.note["fopen"] = True
        inst = " / ".join(x.strip() for x in texts)
        S.w.gset(s, "Redo_why", 0)
        rs = [st for st, k in S.lines(s, list(texts)) if k == "return"]
        ck.ob("recorded", inst, len(rs) > 0, "no result", where)
        for st in rs:
            n, why = (S.w.gget(st, g) for g in ("Redo", "Redo_why"))
            if not ck.ob("recorded", inst, isc(n) and isc(why), "not decided", where):
                continue
            got = [b for b in range(18) if cv(why) >> b & 1]
            ck.ob("recorded", inst, bool(cv(n)) == bool(bits) and (not got if not bits else bool(got) and set(got) <= set(bits)), "%d events, reasons %s, expected %s" % (cv(n), got, list(bits)), where)
    S = Sweep(ck)
    S.prelude()
    F8 = Sweep(ck, table="MneF8", processor=0xf8)
    F8.prelude()
    for X, texts, bits in ((S, (" lda u1",), (0,)), (S, (" lda c5",), ()), (S, (" dc u1",), (2,)), (S, (" dc c5",), ()), (S, ("qm eqm u1", "a dv qm 1"), (3, 4)), (S, ("qm eqm ..+u1", "a dv qm 1"), (3, 4)), (S, ("qm eqm ..", "a dv qm u1"), (2, 3, 4)),
                           (S, ("qm eqm ..", "a dv qm 1"), ()), (S, (" ds u1",), (5,)), (S, (" ds c5",), ()), (S, (" align u1",), (6, 8)), (S, (" align 4,u1",), (6,)), (S, (" rorg u1", " align 4"), (1, 7)), (S, (" org u1", " align 4"), (1, 8)), (S, (" align 4",), ()),
                           (S, ("a = 5", "a = u1"), (9,)), (S, ("a = 5",), ()), (S, ("a = 5", "a = 6"), (10,)), (S, (" if u1",), (11,)), (S, (" if c5",), ()), (S, (" repeat u1",), (12,)), (S, (" repeat 1",), ()), (S, ("b dc f", "f"), (2, 13)), (S, ("b", " nop", "b"), (14,)), (S, ("b", " nop"), ()),
                           (S, (" bne *+200",), (15,)), (S, (" bne *-200",), (15,)), (S, (" bne *",), ()), (S, (" include \"none\"",), (16,)), (S, (" incbin 5",), (17,)), (S, (" incbin \"f\"",), ()), (S, (" ds 1,u1",), (5,)), (S, ("a ds 1,5",), ()),
                           (F8, (" li u1",), (0,)), (F8, (" lis u1",), (0,)), (F8, (" li c5",), ()), (F8, (" bz *+200",), (15,)), (F8, (" bz *",), ())):
        ck.rule(recorded, X, texts, bits)
    ck.need("recorded", 60)

    def unresolved(syms, how):
        """Listing of unresolved symbols: in verbose passes and when the assembly cannot be resolved."""
        want = [n for n, v, f, b in syms if f & UNK]
        if how == "fails":
            rs = M.go([Line(word="x", flags=0, effect=effect(Redo=2, Redo_why=1)), None] * 2, setup=table(syms))
        else:
            rs = M.go([Line(), None], args=("-v%d" % how,), setup=table(syms))
        inst = "%d symbols, %d unresolved, %s" % (len(syms), len(want), "not resolvable" if how == "fails" else "-v%d" % how)
        ck.ob("unresolved symbols", inst, len(rs) > 0, "no result", wun)
        for st, kind, code in rs:
            t = screen(st)
            if not ck.ob("unresolved symbols", inst, t is not None, "text not decided", wun):
                continue
            if how == "fails":
                ck.ob("unresolved symbols", inst, isc(code) and cv(code) != 0, "assembly does not fail", where)
            i = t.find("--- Unresolved Symbol List")
            if not want:
                ck.ob("unresolved symbols", inst, i < 0, "a list is shown", wun)
                continue
            if not ck.ob("unresolved symbols", inst, i >= 0 and t.count("--- Unresolved Symbol List") == 1, "no single list shown", wun):
                continue
            ls = t[i:].split("\n")[1:]
            e = next((k for k, l in enumerate(ls) if l.startswith("---")), None)
            ck.ob("unresolved symbols", inst, e is not None and sorted(l.split()[0] for l in ls[:e] if l.split()) == sorted(want), "lists %s" % ls[:e], wun)
            ck.ob("unresolved count", inst, e is not None and ls[e].split()[1:2] == [str(len(want))], "number not shown", wun)
    for how in ("fails", 3, 4):
        for k, n in ((0, 0), (1, 0), (1, 1), (3, 1), (5, 5), (9, 4)):
            for bs in ((0,), (nb - 1,), (0, 5, nb - 1)):
                for unk in ([range(n), range(k - n, k), range(0, k, 2), range(1, k, 2)] if 0 < n < k else [range(n)]):
                    ck.rule(unresolved, [("name%d" % i, i, (UNK if i in unk else 0) | (4 if i % 2 else 0), bs[i % len(bs)]) for i in range(k)], how)
    for r, n in (("segments", 60), ("quiet", 15), ("addresses", 60), ("uninitialised", 60), ("reasons", 50), ("counts", 30), ("unresolved symbols", 100), ("unresolved count", 30)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C45", run)
