"""C01: opcode tables."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec"))
from vsa.proc import *
from vsa import f8
import isa

FIRST = {"6502": "6502", "65c02": "65c02", "6803": "6803", "hd6303": "hd6303", "68hc11": "68hc11", "68705": "68705", "68908": "68908", "f8": "f8"}


def run(ck):
    P = Proc(ck)
    w = P.w
    masks = {}
    MASK, REL, IMOD = K("MF_MASK", "MF_REL", "MF_IMOD")
    total = 0

    def where(e):
        return "%s[%d] \"%s\"" % (e.table, e.idx, e.name)

    def table(cpu):
        nonlocal total
        ts, st = P.selected(FIRST[cpu])
        if ts is None:
            ck.ob("reachable", cpu, False, "processor %s cannot be selected" % cpu, P.where)
            return
        ents = [e for t in ts for e in mne_table(ck.m, t)]
        names = {}
        for e in ents:
            ck.ob("name", "%s %s" % (cpu, e.name), e.name == e.name.lower() and e.name.isalnum(), "name %r can never be matched" % e.name, where(e))
            ck.ob("unique", "%s %s" % (cpu, e.name), e.name not in names, "listed twice", where(e))
            names.setdefault(e.name, e)
            masks.setdefault(e.okmask, e)
        spec = isa.CPUS[cpu]
        ins = {n: e for n, e in names.items() if e.vect == "v_mnemonic"}
        for n in spec:
            ck.ob("mnemonic present", "%s %s" % (cpu, n), n in ins, "documented mnemonic missing", "%s" % ts)
        for n, e in ins.items():
            total += 1
            if not ck.ob("mnemonic known", "%s %s" % (cpu, n), n in spec, "not a %s mnemonic" % cpu, where(e)):
                continue
            got = {MODES[b]: o for b, o in e.modes.items()}
            want = dict(spec[n])
            if cpu == "65c02" and n == "jmp":
                # parsed forms that are encoded as the word modes (see C04, C05)
                for x in ("INDBYTE", "INDBYTEX"):
                    got.pop(x, None)
            for md in sorted(set(got) | set(want)):
                ck.ob("opcode", "%s %s %s" % (cpu, n, md), got.get(md) == want.get(md),
                      "encoded as %s, documented %s" % (fmt(got.get(md)), fmt(want.get(md))), where(e))
            raw = [v for v in e.raw[len(e.modes):] if v]
            ck.ob("opcode list", "%s %s" % (cpu, n), not raw, "more opcodes than modes", where(e))
            fl = (MASK if n in isa.MASK.get({"68hc11": "6811"}.get(cpu, cpu), ()) else 0) | \
                 (REL if n in isa.BRANCH.get({"68hc11": "6811"}.get(cpu, cpu), ()) else 0) | \
                 (IMOD if n in isa.BITNUM.get({"68hc11": "6811"}.get(cpu, cpu), ()) else 0)
            ck.ob("operand kind", "%s %s" % (cpu, n), (e.flags & (MASK | REL | IMOD)) == fl,
                  "mask/branch/bit operand flags %#x, documented %#x" % (e.flags & (MASK | REL | IMOD), fl), where(e))

    def fmt(v):
        return "nothing" if v is None else "$%02x" % v

    def f8table():
        ts, st = P.selected("f8")
        names = {e.name: e for t in ts or [] for e in mne_table(ck.m, t)}
        base = {}
        for d in (f8.BYTE, f8.WORD, f8.SREG, f8.BRANCHES):
            base.update(d)
        for d in (f8.COND, f8.NIB):
            base.update({n: v[0] for n, v in d.items() if n != "lis"})
        base.update({n: v[1] for n, v in f8.SHIFT.items()})
        for n in list(base) + ["lr", "lis"]:
            ck.ob("mnemonic present", "f8 %s" % n, n in names, "documented mnemonic missing", "MneF8")
        for n, op in base.items():
            if n in names:
                e = names[n]
                ck.ob("opcode", "f8 " + n, e.modes.get(0) == op, "base opcode %s, documented %s" % (fmt(e.modes.get(0)), fmt(op)), where(e))
        extra = [n for n, e in names.items() if e.vect != "v_mnemonic" and n not in base and n not in ("lr", "lis", "res", "db", "dw", "dd")]
        for n in extra:
            ck.ob("mnemonic known", "f8 " + n, False, "not an F8 mnemonic", where(names[n]))

    def expansion():
        """The compact opcode lists are spread to the modes in order, entries become reachable."""
        W = ck.world(dict(BASE_MODELS))
        fld = ck.m.struct_fields("_MNE")
        esz = ck.m.types["%struct._MNE"].size
        no = fld["opcode"][1] // 4
        wh = ck.fnline("addhashtable")
        for okm, ex in masks.items():
            s = State()
            base = W.mkobj(s, "table", 3 * esz, "zero")
            oid = base.a[0]
            o = W.getobj(s, oid).mod()
            fn = obj("g:v_mnemonic")
            ops = [sym("code%d" % j, 32) for j in range(no)]
            bits = [i for i in range(no) if okm >> i & 1]
            for k, nm in enumerate((ex.name, "zz")):
                W.put(o, k * esz + fld["vect"][0], fn)
                W.put(o, k * esz + fld["name"][0], W.mkstr(s, "nm%d" % k, nm))
                W.put(o, k * esz + fld["okmask"][0], C(okm, 8 * fld["okmask"][1]))
                for j in range(len(bits)):
                    W.put(o, k * esz + fld["opcode"][0] + 4 * j, ops[j])
            s.mem[oid] = o
            # the buckets, before
            rs = W.run(s, "addhashtable", [base])
            ck.ob("expansion", "modes %#x" % okm, len(rs) == 1, "not decided", wh)
            for st, rv in rs:
                for k in (0, 1):
                    for j, b in enumerate(bits):
                        v = W.load(st, T.add(base, C(k * esz + fld["opcode"][0] + 4 * b, 64)), 4)
                        ck.ob("expansion", "%s mode %s" % (ex.name, MODES[b]), same(W, st, v, ops[j]), "mode gets %s, expected %s" % (v, ops[j]), wh)
                # each entry heads or follows in its bucket: found by the lookup
                for k, nm in enumerate((ex.name, "zz")):
                    s1 = st.copy()
                    fs = W.run(s1, "findmne", [W.mkstr(s1, "look", nm)])
                    ok = bool(fs) and all(same(W, s2, r, T.add(base, C(k * esz, 64))) for s2, r in fs)
                    ck.ob("reachable", "%s after adding a table" % nm, ok, "not found by its name", wh)

    for cpu in FIRST:
        ck.rule(table, cpu)
    ck.rule(f8table)
    ck.rule(expansion)
    ck.cov["table_entries"] = total
    for rule, n in (("opcode", 1500), ("mnemonic present", 700), ("unique", 700), ("expansion", 200), ("reachable", 60), ("operand kind", 700)):
        ck.need(rule, n)


if __name__ == "__main__":
    main("C01", run)
