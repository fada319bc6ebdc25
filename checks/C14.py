"""C14: label values and redefinition between passes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.symtab import *
from vsa.mnem import *
from vsa.f8 import *


def run(ck):
    S = Symtab(ck)
    w = S.w
    where = ck.fnline("programlabel")
    OLD = sym("oldvalue", 64)

    def go(name, chain=(), segflags=0, rflags=0, setup=None):
        s = S.state(chain, 3, 4, segflags, rflags)
        w.gset(s, "Av", w.mkstr(s, "label", name), 0, 8)
        w.gset(s, "Redo_if", 0)
        w.gset(s, "Lastlocaldollarindex", 4)
        w.gset(s, "Redo", sym("redo0", 32))
        w.limit(s, sym("redo0", 32), ((0, 1 << 20),))
        if setup:
            setup(s)
        n0 = len(w.exits)
        out = [(st, "return") for st, _ in w.run(s, "programlabel", [])]
        return out + [(st, k) for k, st, i in w.exits[n0:]]

    def redo(st):
        d = T.sub(w.gget(st, "Redo"), sym("redo0", 32))
        t = w.truth(st, T.eq(d, C(0, 32)))
        return None if t is None else not t

    # segment states: flags, rflags, address, unresolved
    SEG = [(0, 0, ORG, 0), (0, S.UNK, ORG, 0), (S.SFU, 0, ORG, 1), (S.SFU, S.UNK, ORG, 1), (S.SFR, 0, RORG, 0), (S.SFR | S.SFU, 0, RORG, 0),
           (S.SFR, S.UNK, RORG, 1), (S.SFR | S.SFU, S.UNK, RORG, 1), (S.SFB, 0, ORG, 0), (S.SFB | S.SFR, 0, RORG, 0), (S.SFB | S.SFU, 0, ORG, 1)]
    # label text, full name in the table (local scope 3, dollar scope 4)
    LAB = [("label", "label"), ("label:", "label"), (".loc", "3.loc"), (".loc:", "3.loc"), ("10$", "4$10$"), ("10$:", "4$10$"), ("Label", "Label"), ("x", "x"),
           ("n" * 200, "n" * 200)]

    def value(st, full, inst, pc, unk):
        """The symbol of that full name has the address and resolvedness."""
        name, l, d = full, 3, 4
        if "." in full:
            name = "." + full.split(".")[1]
        elif "$" in full:
            name = full.split("$", 1)[1]
        S.scope(st, l, d)
        rs = S.find(st.copy(), name)
        if len(rs) != 1 or isc(rs[0][1]):
            ck.ob("value", inst, False, "label not found afterwards", where)
            return
        s2, p = rs[0]
        v, f = S.f(s2, p, "value"), S.f(s2, p, "flags")
        if not unk:
            ck.ob("value", inst, same(w, s2, v, pc), "value is %s, expected %s" % (v, pc), where)
        u = w.truth(s2, T.eq(T.extract(f, 0, 1), C(1, 1))) if S.UNK == 1 else None
        ck.ob("resolvedness", inst, u is bool(unk), "flags are %s" % f, where)

    def fresh():
        for sf, rf, pc, unk in SEG:
            for text, full in LAB:
                inst = "new %s, segment flags %x/%x" % (text[:12], sf, rf)
                rs = go(text, (), sf, rf)
                ck.ob("definition", inst, len(rs) > 0 and all(k == "return" for st, k in rs), "no result", where)
                for st, k in rs:
                    value(st, full, inst, pc, unk)
                    ck.ob("no needless pass", inst, redo(st) is False or unk, "another pass is requested", where)
                    ck.ob("no error", inst, not has_err(st), "reports an error", where)

    def again():
        for sf, rf, pc, unk in SEG:
            for text, full in LAB[:6]:
                for fl, what in ((S.UNK | S.REF, "referenced, no value yet"), (0, "same value"), (S.REF, "same value, referenced"),
                                 (0, "other value"), (S.REF, "other value, referenced")):
                    inst = "%s, %s, segment flags %x/%x" % (text, what, sf, rf)
                    old = pc if "same" in what else OLD

                    def setup(s):
                        if "other" in what:
                            w.assume(s, T.eq(OLD, pc), False)
                    chain = [("other", 0, C(7, 64)), (full, fl, old), ("last", S.UNK, C(0, 64))]
                    rs = go(text, chain, sf, rf, setup)
                    ck.ob("definition", inst, len(rs) > 0, "no result", where)
                    for st, k in rs:
                        if k != "return":
                            continue
                        value(st, full, inst, pc, unk)
                        r = redo(st)
                        if "no value" in what:
                            ck.ob("forward reference", inst, r is True, "no further pass although it was referenced before it had a value", where)
                        elif "other" in what and not unk:
                            ck.ob("changed value", inst, r is True, "no further pass although the value changed", where)
                        elif "same" in what and not unk:
                            ck.ob("no needless pass", inst, r is False and not has_err(st), "unchanged label is diagnosed or forces another pass", where)
                        elif unk and fl & S.REF:
                            ck.ob("address lost", inst, r is True, "no further pass although a referenced label's address is unresolved", where)
                        o = S.ptrs[0]
                        ck.ob("others untouched", inst, same(w, st, S.f(st, o, "value"), C(7, 64)), "another symbol changed", where)

    def phase():
        """While a conditional was undecided in the previous pass the change still forces a pass."""
        for ri in (0, 1, 2, 3, 16):
            def setup(s):
                w.assume(s, T.eq(OLD, ORG), False)
                w.gset(s, "Redo_if", ri)
            for st, k in go("label", [("label", 0, OLD)], 0, 0, setup):
                ck.ob("changed value", "with undecided conditional history %x" % ri, k != "return" or redo(st) is True, "no further pass although the value changed", where)

    def none():
        for sf, rf, pc, unk in SEG:
            for st, k in go("", [("label", 0, OLD)], sf, rf):
                ck.ob("no label", "segment flags %x/%x" % (sf, rf), k == "return" and redo(st) is False and not has_err(st)
                      and same(w, st, S.f(st, S.ptrs[0], "value"), OLD) and same(w, st, w.gget(st, "SHash", 0, 8), S.ptrs[0]), "a line without label has an effect", where)

    # --- where each statement puts its label
    def placement():
        def m_gen(I, s, a, ins):
            s.ev("gen")
        extra = {"pushinclude": lambda I, s, a, ins: s.ev("inc"), "pushif": lambda I, s, a, ins: s.ev("pushif"),
                 "pfopen": lambda I, s, a, ins: I.mkptr("binf"), "fseek": lambda I, s, a, ins: C(0, 32), "ftell": lambda I, s, a, ins: C(5, 64),
                 "fread": lambda I, s, a, ins: C(0, 64), "fclose": lambda I, s, a, ins: C(0, 32), "addmsg": lambda I, s, a, ins: None,
                 "findext": lambda I, s, a, ins: I.gset(s, "Mnext", sym("anyext", 32))}
        D = Data(ck, extra, real=("genfill",), advance=True)
        wd = D.w
        before = {"dc": [Num()], "byte": [Num()], "word": [Num()], "long": [Num()], "ds": [Num("1..255")], "hex": None, "include": [Str(3)], "incbin": [Str(3)],
                  "subroutine": None, "if": [Num()], "ifconst": [Num()], "ifnconst": [Num()], "repeat": [Num("1..255")], "list": None, "err": None}
        after = {"org": [Num((256, 512))], "rorg": [Num((256, 512))], "align": [Num(4)], "seg": None}
        for name, items in list(before.items()) + list(after.items()):
            e = D.ops.get(name)
            if e is None:
                raise AnalysisBroken("directive %s not in the table" % name)
            wh = ck.fnline(e.vect)
            for sf in (0, D.SFR):
                s = D.state(items, segflags=sf, org=0x1001, rorg=0x2002, mnext=D.AM["BYTEADR"] if name in ("dc", "ds") else -1)
                wd.gset(s, "Redo", 0)
                ifs = wd.mkptr("ifs")
                wd.gset(s, "Ifstack", ifs)
                wd.fset(s, ifs, "_IFSTACK", "xtrue", 1)
                wd.fset(s, ifs, "_IFSTACK", "acctrue", 1)
                inc = wd.mkptr("inc")
                wd.gset(s, "pIncfile", inc)
                wd.fset(s, inc, "_INCFILE", "flags", 0)
                if name == "seg":
                    wd.gset(s, "Seglist", 0)
                if name == "incbin":
                    for o in ("opnd0",):
                        wd.fset(s, wd.mkptr(o), "_SYMBOL", "next", 0)
                rs = D.run(s, e, "0102" if name == "hex" else "\"abc\"" if name in ("include", "incbin") else "on" if name == "list" else "text")
                inst = "%s%s" % (name, " in RORG" if sf else "")
                ck.ob("placement", inst, len(rs) > 0, "no result", wh)
                for r in rs:
                    ls = [x for x in r.st.trace if x[0] == "label"]
                    if len(ls) != 1:
                        ck.ob("placement", inst, False, "label defined %d times" % len(ls), wh)
                        continue
                    seg, (org, rorg, fl, rfl) = ls[0][1], ls[0][2]
                    if name in before:
                        ck.ob("placement", inst, same(wd, r.st, org, C(0x1001, 64)) and same(wd, r.st, rorg, C(0x2002, 64)) and same(wd, r.st, fl, C(sf, 8)),
                              "label not at the address before the statement (%s, %s)" % (org, rorg), wh)
                    elif name == "org":
                        ck.ob("placement", inst, same(wd, r.st, org, D.val(0)) and isc(fl) and not cv(fl) & D.SFU, "label not at the new origin", wh)
                    elif name == "rorg":
                        ck.ob("placement", inst, same(wd, r.st, rorg, D.val(0)) and isc(fl) and cv(fl) & D.SFR and not cv(fl) & D.SFU, "label not at the new relocatable origin", wh)
                    elif name == "align":
                        a, n = (org, 0x1004) if not sf else (rorg, 0x2004)
                        ck.ob("placement", inst, same(wd, r.st, a, C(n, 64)), "label not at the aligned address (%s)" % a, wh)
                    else:
                        ck.ob("placement", inst, same(wd, r.st, seg, wd.gget(r.st, "Csegment")) and not same(wd, r.st, seg, wd.mkptr("cseg")), "label not in the new segment", wh)

    # --- instructions: label defined once, before the instruction's bytes
    def once(inst, rs, wh):
        ck.ob("instruction", inst, bool(rs), "no result", wh)
        for r in rs or []:
            if r.kind != "return":
                continue
            ev = [e[0] for e in flat(r.st.trace)]
            ok = ev.count("label") == 1 and (not r.gens or ev.index("label") < ev.index("gen"))
            ck.ob("instruction", inst, ok, "label defined %d times%s" % (ev.count("label"), ", after the bytes" if ev.count("label") == 1 else ""), wh)

    def instructions():
        M = Mnem(ck)
        for shape, names in combos(ck.m, TABLES).items():
            cmos, flags, modes = shape
            for mode, _ in modes:
                if mode not in FORMS:
                    continue
                for cl in ([None] if mode == "IMP" else ["1..255", "unresolved"]):
                    n = 0 if cl is None else 1
                    n += bool(flags & M.IMOD) + bool(flags & M.MASK) + bool(flags & M.REL) + (mode == "BYTEREL")
                    once("%s %s %s" % (names[0], mode, cl), M.run(shape, [cl or "1..255"] * n if n else [], mode, cpu=16502 if cmos else 6502), M.where)

    def f8():
        F = F8(ck)
        rest = [n for n in F.table if F.table[n].vect not in ("v_mnemonic",)]
        for n in sorted(rest):
            e = F.table[n]
            wh = ck.fnline(e.vect)
            if n in BRANCHES:
                forms = [("t", {"t": Target(-100, 100, 2)}), ("t", {"t": "unresolved"})]
            elif n in COND:
                forms = [("c,t", {"c": 1, "t": Target(-100, 100, 2)}), ("c,t", {"c": 1, "t": "unresolved"})]
            elif n == "lr":
                forms = [("a,ku", {}), ("a,r", {"r": 3}), ("r,a", {"r": 3}), ("a,r", {"r": "unresolved"})]
            elif n in SHIFT:
                forms = [("v", {"v": 1}), ("v", {"v": 4}), ("v", {"v": "unresolved"})]
            elif n in ("ins", "outs"):
                forms = [("v", {"v": 3}), ("v", {"v": "unresolved"})]
            else:
                forms = [("v", {"v": 3}), ("v", {"v": "unresolved"})]
            for text, o in forms:
                once("%s %s %s" % (n, text, list(o.values())), F.go(n, text, o), wh)

    for r in (fresh, again, phase, none, placement, instructions, f8):
        ck.rule(r)
    ck.need("value", 150)
    ck.need("resolvedness", 300)
    ck.need("forward reference", 60)
    ck.need("changed value", 60)
    ck.need("no needless pass", 100)
    ck.need("placement", 38)
    ck.need("instruction", 300)


if __name__ == "__main__":
    main("C14", run)
