"""C18: symbol lookup by full name and scope."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.symtab import *

L = "L" * 300
NAMES = ["alpha", "Alpha", "ALPHA", "alphabet", "alph", "alpha1", "a", "b", "ab", "ba", "x.y", "_", "loc", L, L + "a", L + "b", "M" * 63 + "1", "M" * 63 + "2",
         "M" * 31 + "1", "M" * 31 + "2", "M" * 20 + "1", "M" * 20 + "2", "a" * 255 + "1", "a" * 255 + "2", "a" * 1000 + "1", "a" * 1000 + "2"]
LOCALS = [".loc", ".Loc", ".l", ".loc2", "." + "q" * 90 + "1", "." + "q" * 90 + "2", "." + "r" * 1000 + "1", "." + "r" * 1000 + "2", ".a.b"]
DOLLARS = ["1$", "10$", "01$", "a$", "100$", "s" * 90 + "1$", "s" * 90 + "2$"]
SCOPES = [0, 1, 2, 9, 10, 11, 21, 100, 112, 12345, 99999999]


def run(ck):
    S = Symtab(ck)
    w = S.w
    wf, wc = ck.fnline("findsymbol"), ck.fnline("CreateSymbol")

    def full(name, local, dollar):
        if name[0] == ".":
            return ("local", local, name)
        if name[-1] == "$":
            return ("dollar", dollar, name)
        return ("plain", 0, name)

    def show(n, l, d):
        n = n if len(n) < 24 else "%s..(%d)..%s" % (n[:4], len(n), n[-3:])
        return "%s (scopes %d/%d)" % (n, l, d)

    def create(st, name, l, d):
        S.scope(st, l, d)
        rs = S.create(st, name, tail=b"+1")
        if len(rs) != 1:
            return None, None
        return rs[0]

    def one(rs):
        return rs[0] if len(rs) == 1 else (None, None)

    def scenario(made, asked):
        """made: [(name, local, dollar)] created in this order; asked likewise looked up afterwards."""
        st = S.state()
        ptr = {}
        for n, l, d in made:
            st, p = create(st, n, l, d)
            inst = "create " + show(n, l, d)
            if st is None:
                ck.ob("creation", inst, False, "no single result", wc)
                return
            ck.ob("creation", inst, not any(same(w, st, p, q) for q in ptr.values()), "symbol shared with an existing one", wc)
            ck.ob("creation", inst + " unresolved", same(w, st, S.f(st, p, "flags"), C(S.UNK, 8)), "flags are %s" % S.f(st, p, "flags"), wc)
            ptr[full(n, l, d)] = p
        for n, l, d in asked:
            S.scope(st, l, d)
            s2, p = one(S.find(st.copy(), n, tail=b",x"))
            want = ptr.get(full(n, l, d))
            inst = "%s among %d symbols" % (show(n, l, d), len(made))
            if s2 is None:
                ck.ob("lookup", inst, False, "no single result", wf)
                continue
            if want is None:
                ck.ob("lookup", inst, isc(p) and cv(p) == 0, "finds a symbol that was not created under this name and scope", wf)
            else:
                ck.ob("lookup", inst, same(w, s2, p, want), "does not find the symbol created under this name and scope (%s)" % p, wf)

    def plain():
        for n in NAMES:
            for k in NAMES:
                if n == k or abs(len(n) - len(k)) <= 1 or (len(n) < 20 and len(k) < 20) or n.startswith(k):
                    scenario([(n, 3, 4)], [(k, 3, 4), (k, 7, 8)] if n == k else [(k, 3, 4)])
        scenario([(n, 0, 0) for n in NAMES[::2]], [(n, 0, 0) for n in NAMES])
        scenario([(n, 0, 0) for n in reversed(NAMES[1::2])], [(n, 5, 6) for n in NAMES])

    def local():
        for i in SCOPES:
            scenario([(".loc", i, 7), ("loc", i, 7)], [(".loc", j, 7) for j in SCOPES] + [(".loc", i, 8), (".Loc", i, 7), ("loc", i, 7)])
            scenario([("10$", 7, i), ("loc", i, 7)], [("10$", 7, j) for j in SCOPES] + [("10$", 8, i), ("1$", 7, i), ("01$", 7, i), ("100$", 7, i)])
        for n in LOCALS:
            scenario([(n, 2, 0)], [(k, 2, 0) for k in LOCALS] + [(k, 3, 0) for k in LOCALS])
        for n in DOLLARS:
            scenario([(n, 0, 2)], [(k, 0, 2) for k in DOLLARS] + [(k, 0, 3) for k in DOLLARS])
        for a in (1, 2, 12):
            scenario([(n, a, a) for n in LOCALS + DOLLARS], [(n, b, c) for n in LOCALS + DOLLARS for b in (1, 2, 12) for c in (1, 2, 12)])

    def collide():
        """Chains: every bucket holds the same list of symbols."""
        ch = ["alpha", "Alpha", "alphabet", "alph", "0.loc", "1.loc", "11.loc", "0$10$", "1$10$", L + "a", L + "b"]
        ask = [("alpha", 0, 0, 0), ("Alpha", 0, 0, 1), ("alphabet", 0, 0, 2), ("alph", 0, 0, 3), (".loc", 0, 5, 4), (".loc", 1, 5, 5), (".loc", 11, 5, 6),
               ("10$", 5, 0, 7), ("10$", 5, 1, 8), (L + "a", 0, 0, 9), (L + "b", 0, 0, 10), ("ALPHA", 0, 0, None), ("alp", 0, 0, None), ("alphabets", 0, 0, None),
               (".loc", 2, 0, None), (".loc", 111, 0, None), ("10$", 0, 2, None), ("0$", 0, 1, None), (L, 0, 0, None), (L + "c", 0, 0, None), (".l", 0, 0, None)]
        vs = [sym("val%d" % i, 64) for i in range(len(ch))]
        for rot in range(len(ch)):
            order = list(range(rot, len(ch))) + list(range(rot))
            for n, l, d, k in ask:
                s = S.state([(ch[i], S.REF, vs[i]) for i in order], l, d)
                want = S.ptrs[order.index(k)] if k is not None else None
                s2, p = one(S.find(s, n, tail=b" +"))
                inst = "%s in a chain starting with %s" % (show(n, l, d), ch[rot][:12])
                if s2 is None:
                    ck.ob("chain", inst, False, "no single result", wf)
                elif want is None:
                    ck.ob("chain", inst, isc(p) and cv(p) == 0, "finds a symbol of another name or scope", wf)
                else:
                    ck.ob("chain", inst, same(w, s2, p, want), "does not find it", wf)
                    ck.ob("chain", inst + " contents", same(w, s2, S.f(s2, p, "value"), vs[k]) and same(w, s2, S.f(s2, p, "flags"), C(S.REF, 8)), "lookup changes the symbol", wf)
            # creation keeps the others
            s = S.state([(ch[i], S.REF, vs[i]) for i in order], 3, 4)
            old = list(S.ptrs)
            st, p = create(s, "fresh", 3, 4)
            if st is None:
                ck.ob("chain", "create", False, "no single result", wc)
                continue
            for j, i in enumerate(order):
                n = ch[i]
                l = d = 3
                if n[0].isdigit():
                    num, rest = (n.split(".")[0], "." + n.split(".")[1]) if "." in n else (n.split("$")[0], n.split("$", 1)[1])
                    n, l, d = rest, int(num), int(num)
                S.scope(st, l, d)
                s2, q = one(S.find(st.copy(), n))
                ck.ob("chain", "%s after a creation, chain starting with %s" % (show(n, l, d), ch[rot][:12]), s2 is not None and same(w, s2, q, old[j]),
                      "an older symbol is lost", wc)

    def special():
        for sf, rf, val, unk in ((0, 0, ORG, 0), (S.SFU, 0, ORG, 1), (S.SFR, 0, RORG, 0), (S.SFR, S.UNK, RORG, 1), (S.SFR | S.SFU, 0, RORG, 0), (0, S.UNK, ORG, 0),
                                 (S.SFB, S.UNK, ORG, 0), (S.SFB | S.SFR, 0, RORG, 0)):
            s = S.state([(".", S.REF, sym("dv", 64)), ("0.", 0, sym("dv", 64))], segflags=sf, rflags=rf)
            s2, p = one(S.find(s, "."))
            inst = "'.' with segment flags %x/%x" % (sf, rf)
            if s2 is None or isc(p):
                ck.ob("current address", inst, False, "no result", wf)
                continue
            ck.ob("current address", inst, same(w, s2, S.f(s2, p, "value"), val), "value is %s" % S.f(s2, p, "value"), wf)
            fl = S.f(s2, p, "flags")
            ck.ob("current address", inst + " resolved", isc(fl) and bool(cv(fl) & S.UNK) == bool(unk), "flags %s" % fl, wf)
        s = S.state()
        v, f = sym("dvv", 32), sym("dvf", 32)
        for st, _ in w.run(s, "setspecial", [v, f]):
            s2, p = one(S.find(st, ".."))
            ck.ob("DV element", "'..'", s2 is not None and not isc(p) and same(w, s2, S.f(s2, p, "value"), T.sext(v, 64)) and same(w, s2, S.f(s2, p, "flags"), T.extract(f, 0, 8)),
                  "does not denote the element", wf)
        s = S.state()
        cs = sym("sum", 8 * w.gsize("CheckSum"))
        w.gset(s, "CheckSum", cs)
        s2, p = one(S.find(s, "..."))
        ck.ob("checksum", "'...'", s2 is not None and not isc(p) and same(w, s2, S.f(s2, p, "value"), T.zext(cs, 64) if cs.w < 64 else cs)
              and isc(S.f(s2, p, "flags")) and cv(S.f(s2, p, "flags")) == 0, "does not denote the checksum", wf)

    for r in (plain, local, collide, special):
        ck.rule(r)
    ck.need("creation", 200)
    ck.need("lookup", 600)
    ck.need("chain", 200)
    ck.need("current address", 10)


if __name__ == "__main__":
    main("C18", run)
