"""C04: choice of the addressing mode."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mnem import *


def run(ck):
    M = Mnem(ck)
    w = M.w
    cs = combos(ck.m, TABLES)
    ck.cov["mnemonic_shapes"] = len(cs)
    ck.cov["mnemonics"] = sum(len(v) for v in cs.values())

    def modes_of(r, shape):
        """Which mode's opcode was emitted."""
        b = r.bytes
        if b is None:
            return None
        for n, wide in shape[2]:
            ob = opbytes(shape, n)
            if len(b) >= len(ob) and all(x is y for x, y in zip(b, ob)):
                return n
        return "unknown opcode %s" % showb(b[:2])

    def shape_rule(shape, names):
        cmos, flags, modes = shape
        cpu = 16502 if cmos else 6502
        if flags & M.IMOD:
            return                       # bit operations: layout decided in C05
        extra = (["1..255"] if flags & M.MASK else []) + (["1..255"] if flags & M.REL else [])
        tag = names[0]
        for mode in FORMS:
            if mode == "IMP":
                cls = [None]
            else:
                cls = ["0", "1..255", "256..65535", "-255..-1", "unresolved"]
            for cl in cls:
                needed = 0 if cl is None else CLASSES[cl][2]
                want, fits = choose(shape, mode, needed)
                more = [] if cl is None else list(extra)
                if mode == "BYTEREL":
                    more = ["1..255"]
                ops = ([cl] if cl else []) + more
                inst = "%s written %s value %s" % (tag, mode, cl)
                rs = M.run(shape, ops, mode, cpu=cpu)
                ck.ob("choice", inst, len(rs) > 0, "no result", M.where)
                for r in rs:
                    if want is None:
                        ck.ob("unsupported form", inst, r.fails and not r.gens, "accepted", M.where)
                        continue
                    if not fits and cl != "unresolved":
                        ck.ob("does not fit", inst, r.fails, "no error, emitted %s" % showb(r.bytes), M.where)
                        continue
                    if r.kind != "return":
                        ck.ob("choice", inst, want == "IMP" or (cl is None), "assembly aborted", M.where)
                        continue
                    got = modes_of(r, shape)
                    if mode == "BYTEREL" or want == "REL" or flags & M.REL:
                        # a branch that is out of range reports an error but still has its length
                        pass
                    elif r.errs and cl != "unresolved":
                        ck.ob("choice", inst + " no error", False, "error reported", M.where)
                    ck.ob("choice", inst, got == want, "encoded as %s, smallest legal is %s" % (got, want), M.where)

    def forced_rule(shape, names):
        cmos, flags, modes = shape
        if flags & (M.IMOD | M.MASK | M.REL):
            return
        cpu = 16502 if cmos else 6502
        have = [n for n, _ in modes]
        tag = names[0]
        for mode in FORMS:
            if mode in ("BYTEREL", "INDBYTE") or (cmos and mode == "INDBYTEX"):
                continue
            for req in FORCED:
                for cl in ([None] if mode == "IMP" else ["0", "1..255", "256..65535"]):
                    needed = 0 if cl is None else CLASSES[cl][2]
                    base, _ = choose(shape, mode, 0)
                    f = force(mode, req)
                    inst = "%s.%s written %s value %s" % (tag, req, mode, cl)
                    ok = base is not None and f in have
                    rs = M.run(shape, [cl] if cl else [], mode, mnext=req, cpu=cpu)
                    ck.ob("forced", inst, len(rs) > 0, "no result", M.where)
                    for r in rs:
                        if not ok:
                            ck.ob("forced unsupported", inst, r.fails and not r.gens, "accepted as %s" % modes_of(r, shape), M.where)
                        elif f == "REL":
                            if r.kind == "return":
                                ck.ob("forced", inst, modes_of(r, shape) == "REL", "encoded as %s" % modes_of(r, shape), M.where)
                        elif OPSIZE[f] < needed:
                            if OPSIZE[f] == 1 and req in ("BYTEADR", "BYTEADRX", "BYTEADRY"):
                                ck.ob("forced does not fit", inst, r.fails, "accepted as %s" % modes_of(r, shape), M.where)
                        else:
                            ck.ob("forced", inst, not r.errs and modes_of(r, shape) == f,
                                  "encoded as %s, requested %s%s" % (modes_of(r, shape), f, " with error" if r.errs else ""), M.where)

    for shape, names in cs.items():
        ck.rule(shape_rule, shape, names)
        ck.rule(forced_rule, shape, names)
    ck.need("choice", 300)
    ck.need("unsupported form", 300)
    ck.need("forced", 500)
    ck.need("forced unsupported", 500)


if __name__ == "__main__":
    main("C04", run)
