"""Opcode reference of the supported processors, written from the manufacturers' instruction-set structure.

Each processor is a dict mnemonic -> {mode: opcode (with prefix byte)}.  Modes use the assembler's documented
addressing-mode names (see the AM_ list of the user-visible modes in MODES of vsa.dasm).
"""


def M(**kw):
    return {k.lstrip("_"): v for k, v in kw.items()}


# ------------------------------------------------------------------ 6502
def group1(base, imm=True, cmos=False, ny=True):
    """aaabbb01 group: (zp,x) zp #  abs (zp),y zp,x abs,y abs,x"""
    d = {"INDBYTEX": base | 0x01, "BYTEADR": base | 0x05, "WORDADR": base | 0x0d, "INDBYTEY": base | 0x11,
         "BYTEADRX": base | 0x15, "WORDADRY": base | 0x19, "WORDADRX": base | 0x1d}
    if imm:
        d["IMM8"] = base | 0x09
    if cmos:
        d["INDBYTE"] = base | 0x12
    return d


def group2(base, acc=True):
    """aaabbb10 shifts: zp acc abs zp,x abs,x"""
    d = {"BYTEADR": base | 0x06, "WORDADR": base | 0x0e, "BYTEADRX": base | 0x16, "WORDADRX": base | 0x1e}
    if acc:
        d["IMP"] = base | 0x0a
    return d


def group3(base):
    """aaabbb11 combined undocumented operations: all memory modes of group 1 incl. abs,y"""
    return {"INDBYTEX": base | 0x03, "BYTEADR": base | 0x07, "WORDADR": base | 0x0f, "INDBYTEY": base | 0x13,
            "BYTEADRX": base | 0x17, "WORDADRY": base | 0x1b, "WORDADRX": base | 0x1f}


def imp(**kw):
    return {k.rstrip("_"): {"IMP": v} for k, v in kw.items()}


def base6502(cmos):
    t = {}
    for i, n in enumerate("ora and eor adc sta lda cmp sbc".split()):
        t[n] = group1(i << 5, imm=n != "sta", cmos=cmos)
    for n, b in (("asl", 0x00), ("rol", 0x20), ("lsr", 0x40), ("ror", 0x60)):
        t[n] = group2(b)
    t["dec"] = group2(0xc0, acc=False)
    t["inc"] = group2(0xe0, acc=False)
    t["stx"] = {"BYTEADR": 0x86, "BYTEADRY": 0x96, "WORDADR": 0x8e}
    t["ldx"] = {"IMM8": 0xa2, "BYTEADR": 0xa6, "BYTEADRY": 0xb6, "WORDADR": 0xae, "WORDADRY": 0xbe}
    t["sty"] = {"BYTEADR": 0x84, "BYTEADRX": 0x94, "WORDADR": 0x8c}
    t["ldy"] = {"IMM8": 0xa0, "BYTEADR": 0xa4, "BYTEADRX": 0xb4, "WORDADR": 0xac, "WORDADRX": 0xbc}
    t["cpy"] = {"IMM8": 0xc0, "BYTEADR": 0xc4, "WORDADR": 0xcc}
    t["cpx"] = {"IMM8": 0xe0, "BYTEADR": 0xe4, "WORDADR": 0xec}
    t["bit"] = {"BYTEADR": 0x24, "WORDADR": 0x2c}
    t["jmp"] = {"WORDADR": 0x4c, "INDWORD": 0x6c}
    t["jsr"] = {"WORDADR": 0x20}
    for i, n in enumerate("bpl bmi bvc bvs bcc bcs bne beq".split()):
        t[n] = {"REL": 0x10 | i << 5}
    t.update(imp(brk=0x00, rti=0x40, rts=0x60, php=0x08, plp=0x28, pha=0x48, pla=0x68,
                 clc=0x18, sec=0x38, cli=0x58, sei=0x78, tya=0x98, clv=0xb8, cld=0xd8, sed=0xf8,
                 dey=0x88, tay=0xa8, iny=0xc8, inx=0xe8, txa=0x8a, txs=0x9a, tax=0xaa, tsx=0xba, dex=0xca, nop=0xea))
    return t


def cpu6502():
    t = base6502(False)
    # undocumented NMOS opcodes under the names used by the manual
    for n, b in (("slo", 0x00), ("rla", 0x20), ("sre", 0x40), ("rra", 0x60), ("dcp", 0xc0), ("isb", 0xe0)):
        t[n] = group3(b)
    t["lax"] = {"INDBYTEX": 0xa3, "BYTEADR": 0xa7, "WORDADR": 0xaf, "INDBYTEY": 0xb3, "BYTEADRY": 0xb7, "WORDADRY": 0xbf}
    t["sax"] = {"INDBYTEX": 0x83, "BYTEADR": 0x87, "WORDADR": 0x8f, "BYTEADRY": 0x97}
    for n, o in (("anc", 0x0b), ("asr", 0x4b), ("arr", 0x6b), ("ane", 0x8b), ("lxa", 0xab), ("sbx", 0xcb)):
        t[n] = {"IMM8": o}
    t["las"] = {"WORDADRY": 0xbb}
    t["sha"] = {"WORDADRY": 0x9f, "INDBYTEY": 0x93}
    t["shs"] = {"WORDADRY": 0x9b}
    t["shx"] = {"WORDADRY": 0x9e}
    t["shy"] = {"WORDADRX": 0x9c}
    t["nop"].update({"IMM8": 0x80, "BYTEADR": 0x04, "BYTEADRX": 0x14, "WORDADR": 0x0c, "WORDADRX": 0x1c})
    return t


def cpu65c02():
    t = base6502(True)
    t["bit"].update({"IMM8": 0x89, "BYTEADRX": 0x34, "WORDADRX": 0x3c})
    t["jmp"]["INDWORDX"] = 0x7c
    t["bra"] = {"REL": 0x80}
    t.update(imp(dea=0x3a, ina=0x1a, phx=0xda, phy=0x5a, plx=0xfa, ply=0x7a, stp=0xdb, wai=0xcb))
    t["stz"] = {"BYTEADR": 0x64, "BYTEADRX": 0x74, "WORDADR": 0x9c, "WORDADRX": 0x9e}
    t["trb"] = {"BYTEADR": 0x14, "WORDADR": 0x1c}
    t["tsb"] = {"BYTEADR": 0x04, "WORDADR": 0x0c}
    for i in range(8):
        t["bbr%d" % i] = {"BYTEREL": 0x0f | i << 4}
        t["bbs%d" % i] = {"BYTEREL": 0x8f | i << 4}
        t["rmb%d" % i] = {"BYTEADR": 0x07 | i << 4}
        t["smb%d" % i] = {"BYTEADR": 0x87 | i << 4}
    return t


# ------------------------------------------------------------------ 6800 family
MEM = {"neg": 0, "com": 3, "lsr": 4, "ror": 6, "asr": 7, "asl": 8, "lsl": 8, "rol": 9, "dec": 0xa, "inc": 0xc, "tst": 0xd, "clr": 0xf}


def cpu6803():
    t = {}
    # accumulator operations: 1RMMoooo, R selects A (8x) or B (cx), MM = immediate, direct, indexed, extended
    for n, o in (("sub", 0), ("cmp", 1), ("sbc", 2), ("and", 4), ("bit", 5), ("lda", 6), ("eor", 8), ("adc", 9), ("ora", 0xa), ("add", 0xb)):
        for r, b in (("a", 0x80), ("b", 0xc0)):
            t[n + r] = {"IMM8": b | o, "BYTEADR": b | 0x10 | o, "BYTEADRX": b | 0x20 | o, "WORDADR": b | 0x30 | o}
    for r, b in (("a", 0x80), ("b", 0xc0)):
        t["sta" + r] = {"BYTEADR": b | 0x17, "BYTEADRX": b | 0x27, "WORDADR": b | 0x37}
    # 16 bit
    for n, o in (("subd", 0x83), ("addd", 0xc3), ("ldd", 0xcc), ("cpx", 0x8c), ("lds", 0x8e), ("ldx", 0xce)):
        t[n] = {"IMM16": o, "BYTEADR": o + 0x10, "BYTEADRX": o + 0x20, "WORDADR": o + 0x30}
    for n, o in (("std", 0xcd), ("sts", 0x8f), ("stx", 0xcf), ("jsr", 0x8d)):
        t[n] = {"BYTEADR": o + 0x10, "BYTEADRX": o + 0x20, "WORDADR": o + 0x30}
    # memory and accumulator read-modify-write: 4x A, 5x B, 6x indexed, 7x extended
    for n, o in MEM.items():
        t[n] = {"BYTEADRX": 0x60 | o, "WORDADR": 0x70 | o}
        t[n + "a"] = {"IMP": 0x40 | o}
        t[n + "b"] = {"IMP": 0x50 | o}
    t["jmp"] = {"BYTEADRX": 0x6e, "WORDADR": 0x7e}
    for i, n in enumerate("bra brn bhi bls bcc bcs bne beq bvc bvs bpl bmi bge blt bgt ble".split()):
        t[n] = {"REL": 0x20 | i}
    t["bhs"], t["blo"], t["bsr"] = {"REL": 0x24}, {"REL": 0x25}, {"REL": 0x8d}
    t.update(imp(nop=0x01, lsrd=0x04, asld=0x05, lsld=0x05, tap=0x06, tpa=0x07, inx=0x08, dex=0x09, clv=0x0a, sev=0x0b, clc=0x0c,
                 sec=0x0d, cli=0x0e, sei=0x0f, sba=0x10, cba=0x11, tab=0x16, tba=0x17, daa=0x19, aba=0x1b,
                 tsx=0x30, ins=0x31, pula=0x32, pulb=0x33, des=0x34, txs=0x35, psha=0x36, pshb=0x37, pulx=0x38, rts=0x39,
                 abx=0x3a, rti=0x3b, pshx=0x3c, mul=0x3d, wai=0x3e, swi=0x3f))
    return t


def cpu6303():
    t = cpu6803()
    t.update(imp(xgdx=0x18, slp=0x1a))
    # immediate-with-memory group: 7x direct, 6x indexed
    for n, o in (("aim", 1), ("oim", 2), ("eim", 5), ("tim", 0xb)):
        t[n] = {"BYTEADR": 0x70 | o, "BYTEADRX": 0x60 | o}
    return t


def cpu6811():
    t = cpu6803()
    # indexed by Y: page 2 prefix 18 for everything that has an X-indexed form
    for n in list(t):
        if "BYTEADRX" in t[n]:
            t[n]["BYTEADRY"] = 0x1800 | t[n]["BYTEADRX"]
    for n in ("cpx", "ldx", "stx"):
        t[n]["BYTEADRY"] = 0xcd00 | t[n]["BYTEADRX"]
    for n, x in (("cpy", "cpx"), ("ldy", "ldx"), ("sty", "stx")):
        t[n] = {m: (0x1a00 if m == "BYTEADRX" else 0x1800) | (t[x]["BYTEADRX"] if m == "BYTEADRY" else o) for m, o in t[x].items()}
    t["cpd"] = {m: (0xcd00 | 0xa3 if m == "BYTEADRY" else 0x1a00 | o) for m, o in t["subd"].items()}
    for n, d, x in (("bset", 0x14, 0x1c), ("bclr", 0x15, 0x1d), ("brset", 0x12, 0x1e), ("brclr", 0x13, 0x1f)):
        t[n] = {"BYTEADR": d, "BYTEADRX": x, "BYTEADRY": 0x1800 | x}
    t.update(imp(test=0x00, idiv=0x02, fdiv=0x03, stop=0xcf, xgdx=0x8f, xgdy=0x188f, iny=0x1808, dey=0x1809, tsy=0x1830, tys=0x1835,
                 puly=0x1838, aby=0x183a, pshy=0x183c))
    return t


# ------------------------------------------------------------------ 6805 family
def cpu68705():
    t = {}
    for n, o in (("sub", 0), ("cmp", 1), ("sbc", 2), ("cpx", 3), ("and", 4), ("bit", 5), ("lda", 6), ("sta", 7), ("eor", 8), ("adc", 9),
                 ("ora", 0xa), ("add", 0xb), ("jmp", 0xc), ("jsr", 0xd), ("ldx", 0xe), ("stx", 0xf)):
        t[n] = {"BYTEADR": 0xb0 | o, "WORDADR": 0xc0 | o, "WORDADRX": 0xd0 | o, "BYTEADRX": 0xe0 | o, "0X": 0xf0 | o}
        if n not in ("sta", "jmp", "jsr", "stx"):
            t[n]["IMM8"] = 0xa0 | o
    for n, o in MEM.items():
        t[n] = {"BYTEADR": 0x30 | o, "IMP": 0x40 | o, "BYTEADRX": 0x60 | o, "0X": 0x70 | o}
        t[n + "a"] = {"IMP": 0x40 | o}
        t[n + "x"] = {"IMP": 0x50 | o}
    for i, n in enumerate("bra brn bhi bls bcc bcs bne beq bhcc bhcs bpl bmi bmc bms bil bih".split()):
        t[n] = {"REL": 0x20 | i}
    t["bhs"], t["blo"], t["bsr"] = {"REL": 0x24}, {"REL": 0x25}, {"REL": 0xad}
    t["brset"], t["brclr"] = {"BITBRAMOD": 0x00}, {"BITBRAMOD": 0x01}
    t["bset"], t["bclr"] = {"BITMOD": 0x10}, {"BITMOD": 0x11}
    t.update(imp(rti=0x80, rts=0x81, swi=0x83, tax=0x97, clc=0x98, sec=0x99, cli=0x9a, sei=0x9b, rsp=0x9c, nop=0x9d, txa=0x9f,
                 inx=0x5c, dex=0x5a))
    return t


def cpu68908():
    t = cpu68705()
    del t["inx"], t["dex"]
    for n in list(t):
        if n in MEM:
            del t[n]["IMP"]
            t[n]["BYTEADR_SP"] = 0x9e60 | MEM[n]
        elif "WORDADRX" in t[n] and n not in ("jmp", "jsr"):
            t[n]["BYTEADR_SP"] = 0x9e00 | t[n]["BYTEADRX"]
            t[n]["WORDADR_SP"] = 0x9e00 | t[n]["WORDADRX"]
    t["ais"], t["aix"] = {"IMM8": 0xa7}, {"IMM8": 0xaf}
    t["bge"], t["blt"], t["bgt"], t["ble"] = {"REL": 0x90}, {"REL": 0x91}, {"REL": 0x92}, {"REL": 0x93}
    t["cbeq"] = {"BYTEADR": 0x31, "INDBYTEX": 0x61, "0X": 0x71, "BYTEADR_SP": 0x9e61}
    t["cbeqa"], t["cbeqx"] = {"REL": 0x41}, {"REL": 0x51}
    t["dbnz"] = {"BYTEADR": 0x3b, "BYTEADRX": 0x6b, "0X": 0x7b, "BYTEADR_SP": 0x9e6b}
    t["dbnza"], t["dbnzx"] = {"REL": 0x4b}, {"REL": 0x5b}
    t["sthx"], t["ldhx"], t["cphx"] = {"BYTEADR": 0x35}, {"IMM16": 0x45, "BYTEADR": 0x55}, {"IMM16": 0x65, "BYTEADR": 0x75}
    t["mov"], t["movp"], t["xmov"] = {"IMM8": 0x6e, "BYTEADR": 0x4e}, {"BYTEADRX": 0x5e}, {"BYTEADR": 0x7e}
    t.update(imp(mul=0x42, div=0x52, nsa=0x62, daa=0x72, tap=0x84, tpa=0x85, pula=0x86, psha=0x87, pulx=0x88, pshx=0x89, pulh=0x8a,
                 pshh=0x8b, clrh=0x8c, stop=0x8e, wait=0x8f, thxs=0x94, tshx=0x95))
    return t


# ------------------------------------------------------------------ F8 (instructions without own operand syntax; the others in f8.py)
def cpuf8():
    return imp(adc=0x8e, am=0x88, amd=0x89, nm=0x8a, om=0x8b, xm=0x8c, cm=0x8d, clr=0x70, com=0x18, lnk=0x19, di=0x1a, ei=0x1b,
               pop=0x1c, inc=0x1f, lm=0x16, st=0x17, pk=0x0c, nop=0x2b, xdc=0x2c)


# operand size class flags: mnemonics with mask byte and / or extra branch
MASK = {"6811": {"bset", "bclr", "brset", "brclr"}, "68908": {"cbeqa", "cbeqx", "mov"}}
BRANCH = {"6811": {"brset", "brclr"}, "68705": {"brset", "brclr"}, "68908": {"brset", "brclr", "cbeq", "dbnz"}}
BITNUM = {"68705": {"bset", "bclr", "brset", "brclr"}, "68908": {"bset", "bclr", "brset", "brclr"}}

CPUS = {"6502": cpu6502(), "65c02": cpu65c02(), "6803": cpu6803(), "hd6303": cpu6303(), "68hc11": cpu6811(), "68705": cpu68705(),
        "68908": cpu68908(), "f8": cpuf8()}
