"""C48: register names of the machine files have their documented addresses."""
import os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "spec")]
from vsa.mach import *
import machines as S


def run(ck):
    def compare(rule, M, want, what, off=0):
        for n in sorted(want):
            v, s = M.sym.get(n, (None, None))
            ck.ob(rule, "%s %s" % (what, n), v == want[n] + off, "%s is %s, documented %#x" % (n, "not defined" if v is None else "%#x" % v, want[n] + off), s.where if s else "machines/%s" % M.done[-1])

    for base, rd, wr in ((None, None, None), (0x40, None, None), (0, 0x30, None), (None, None, 0x100), (0x40, 0x10, 0x80)):
        defs = {k: v for k, v in (("TIA_BASE_ADDRESS", base), ("TIA_BASE_READ_ADDRESS", rd), ("TIA_BASE_WRITE_ADDRESS", wr)) if v is not None}
        M = Machine(["atari2600/vcs.h"], defs)
        what = "vcs.h " + " ".join("%s=%#x" % x for x in sorted(defs.items()))
        compare("Atari 2600", M, S.VCS_WRITE, what, wr if wr is not None else base or 0)
        compare("Atari 2600", M, S.VCS_READ, what, rd if rd is not None else base or 0)
        compare("Atari 2600", M, S.RIOT, what)
        ck.ob("Atari 2600", what + " segment", M.seg == "", "the file ends in segment %s" % M.seg, "machines/atari2600/vcs.h")
    compare("Atari 7800", Machine(["atari7800/7800.h"]), S.A7800, "7800.h")
    compare("Channel F", Machine(["channel-f/ves.h"]), S.CHF, "ves.h")
    for part, (fs, fz, br, dl) in sorted(S.HC11_PARTS.items()):
        for base in (None, 0x1000):
            M = Machine(["68hc11/%s.asm" % part], {} if base is None else {"REGBASE": base})
            what = "%s REGBASE %#x" % (part, base or 0)
            compare("68HC11", M, S.HC11, what, base or 0)
            compare("68HC11", M, S.HC11_BITS, what)
            compare("68HC11", M, {"FLASH_START": fs, "FLASH_SIZE": fz, "BOOTROM_START": br, "DOWNLOAD_SIZE": dl, "RAM_END": dl - 1, "FLASH_END": fs + fz, "INIT": 0x103d}, what)
    for part, (rs, rz, fs, fz) in sorted(S.HC908_PARTS.items()):
        M = Machine(["68hc908/%s.asm" % part])
        compare("68HC908", M, {"RAM_START": rs, "RAM_SIZE": rz, "FLASH_START": fs, "FLASH_SIZE": fz}, part)
        compare("68HC908", M, S.HC908_BITS, part)
        if "jk" in part:
            compare("68HC908", M, S.JK3, part)
            compare("68HC908", M, {"fwCtrlByte": rs + 8, "fwCpuSpeed": rs + 9, "fwLastAddr": rs + 10, "fwDataBlock": rs + 12}, part)
        for n, (v, s) in sorted(M.sym.items()):
            if n.endswith("L") and n[:-1] + "H" in M.sym and n != "BRKL":
                h = M.sym[n[:-1] + "H"][0]
                ck.ob("register pairs", "%s %s" % (part, n), v == h + 1, "%s is %s, its high byte at %s" % (n, v, h), s.where)
        for p in (("RAM_START", rs + 0x10), ("RAM_SIZE", 64), ("FLASH_START", 0x9000), ("FLASH_SIZE", 1024)):
            M2 = Machine(["68hc908/%s.asm" % part], dict([p]))
            ck.ob("given values", "%s %s" % (part, p[0]), M2.sym[p[0]][0] == p[1] and not M2.problems, "%s given by the user is not kept" % p[0], "machines/68hc908/%s.asm" % part)
    for r, n in (("Atari 2600", 350), ("Atari 7800", 70), ("Channel F", 20), ("68HC11", 250), ("68HC908", 300), ("register pairs", 10), ("given values", 16)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C48", run)
