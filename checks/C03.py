"""C03: PROCESSOR."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
from vsa.proc import *
import isa


def run(ck):
    P = Proc(ck)
    w = P.w
    first = {}

    def names_of(tables):
        out = {}
        for t in tables:
            for e in mne_table(ck.m, t):
                if e.vect == "v_mnemonic":
                    out[e.name] = e
        return out

    def byname():
        for name, (cpu, msb) in NAMES.items():
            ts, st = P.selected(name)
            ck.ob("accepted", name, ts is not None, "PROCESSOR %s is not accepted" % name, P.where)
            if ts is None:
                continue
            first[name] = st
            got = names_of(ts)
            spec = isa.CPUS[cpu]
            same_set = set(got) == set(spec) and all(
                any(n in g for g in (got,)) for n in spec)
            agree = sum(1 for n in spec if n in got and set(got[n].modes.values()) & set(spec[n].values()))
            ck.ob("instruction set", name, same_set and agree >= len(spec) * 0.9,
                  "tables %s are not the %s instruction set (missing %s, extra %s, %d of %d opcodes agree)" % (
                      ts, cpu, sorted(set(spec) - set(got))[:5], sorted(set(got) - set(spec))[:5], agree, len(spec)), P.where)
            ck.ob("no duplicate table", name, len(ts) == len(set(ts)), "a table is added twice: %s" % ts, P.where)
            m = w.gget(st, "MsbOrder")
            ck.ob("byte order", name, isc(m) and (cv(m) != 0) == bool(msb), "byte order %s, expected %d" % (m, msb), P.where)
            p = w.gget(st, "Processor")
            ck.ob("selected", name, isc(p) and cv(p) != 0, "no processor selected", P.where)

    def anyname():
        p = w.mkptr("anytext")
        rs = P.call(State(), p)
        seen = set()
        for st, kind in rs:
            eqs = [v for k, v in st.strs.items() if k[0] == "eq"]
            nm = eqs[0][0].decode() if eqs else None
            if kind == "return":
                ck.ob("only documented names", str(nm), nm in NAMES and not eqs[0][1], "the name %s is accepted" % nm, P.where)
                seen.add(nm)
            else:
                ck.ob("unknown name", "any other text", nm not in NAMES and any(e[0] == "err" and e[2] for e in st.trace),
                      "ends without aborting", P.where)
        ck.ob("unknown name", "any other text", any(k != "return" for st, k in rs), "an arbitrary name is accepted", P.where)

    def second():
        for n1, st in first.items():
            for n2 in NAMES:
                s = st.copy()
                t0 = len(P.tables(s))
                rs = P.call(s, n2)
                ck.ob("second line", "%s then %s" % (n1, n2), len(rs) > 0, "no result", P.where)
                for s2, kind in rs:
                    inst = "%s then %s" % (n1, n2)
                    if NAMES[n1][0] == NAMES[n2][0]:
                        ok = kind == "return" and len(P.tables(s2)) == t0 and not has_err(s2)
                        ck.ob("same again", inst, ok, "repeating the line is rejected or adds instructions again", P.where)
                        if ok:
                            for g in ("MsbOrder", "Processor"):
                                ck.ob("same again", inst + " " + g, same(w, s2, w.gget(s2, g), w.gget(st, g)), "changed", P.where)
                    else:
                        ck.ob("different", inst, kind == "abort" and any(e[0] == "err" and e[2] for e in s2.trace), "accepted", P.where)
            # unknown name as second line
            for s2, kind in P.call(st.copy(), "z80"):
                ck.ob("different", "%s then z80" % n1, kind == "abort", "accepted", P.where)
            # third time (every further pass)
            s = st.copy()
            for k in range(3):
                rs = P.call(s, n1)
                ok = len(rs) == 1 and rs[0][1] == "return"
                ck.ob("every pass", n1, ok and len(P.tables(rs[0][0])) == len(P.tables(st)), "a later pass adds or rejects", P.where)
                if not ok:
                    break
                s = rs[0][0]

    ck.rule(byname)
    ck.rule(anyname)
    ck.rule(second)
    ck.need("accepted", 13)
    ck.need("only documented names", 10)
    ck.need("different", 100)
    ck.need("same again", 30)


if __name__ == "__main__":
    main("C03", run)
