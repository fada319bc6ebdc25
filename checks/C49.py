"""C49: macros of the Atari headers: duration of SLEEP, effect of SET_POINTER, VERTICAL_SYNC and CLEAN_START."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mach import *

# cycles per instruction and operand form (6502 manual; z zero page, a absolute, # immediate, - none)
CYC = {"-": dict.fromkeys("nop lxa tax tay txa tya txs tsx sei cli cld sed clc sec clv inx iny dex dey lsr asl rol ror".split(), 2),
       "#": dict.fromkeys("lda ldx ldy lxa and ora eor adc sbc cmp cpx cpy nop".split(), 2),
       "z": dict.fromkeys("lda ldx ldy sta stx sty bit nop and ora eor adc sbc cmp cpx cpy".split(), 3),
       "a": dict.fromkeys("lda ldx ldy sta stx sty bit nop and ora eor adc sbc cmp cpx cpy".split(), 4)}
CYC["-"].update({"pha": 3, "php": 3, "pla": 4, "plp": 4, "brk": 7, "rts": 6})
CYC["z"].update(dict.fromkeys("inc dec lsr asl rol ror".split(), 5))
CYC["a"].update(dict.fromkeys("inc dec lsr asl rol ror".split(), 6), jmp=3, jsr=6)


class Unknown(Exception):
    pass


def value(text, env):
    """Value of an expression in which < and > in front of an operand take its low and high byte."""
    t = re.sub(r"\s+", "", text)
    toks = re.findall(r"0x[0-9a-fA-F]+|\$[0-9a-fA-F]+|%[01]+|\d+|\.?[A-Za-z_][\w.]*|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/&|^~!()\[\]<>=%]", t)
    if "".join(toks) != t or not toks:
        raise AnalysisBroken("expression '%s' of a macro" % text)
    pos = [0]
    LEV = [["||"], ["&&"], ["|"], ["^"], ["&"], ["=", "==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
    F = {"||": lambda a, b: int(bool(a or b)), "&&": lambda a, b: int(bool(a and b)), "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "&": lambda a, b: a & b, "=": lambda a, b: int(a == b),
         "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b), "<": lambda a, b: int(a < b), ">": lambda a, b: int(a > b), "<=": lambda a, b: int(a <= b), ">=": lambda a, b: int(a >= b),
         "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: int(a / b), "%": lambda a, b: a % b}

    def prim():
        k = toks[pos[0]] if pos[0] < len(toks) else None
        pos[0] += 1
        if k in ("<", ">", "-", "~", "!"):
            v = prim()
            return {"<": v & 255, ">": v >> 8 & 255, "-": -v, "~": ~v, "!": int(not v)}[k]
        if k in ("(", "["):
            v = lev(0)
            pos[0] += 1
            return v
        if k is None:
            raise AnalysisBroken("expression '%s' of a macro" % text)
        if k[0] == "$":
            return int(k[1:], 16)
        if k[0] == "%":
            return int(k[1:], 2)
        if k[:2].lower() == "0x":
            return int(k, 16)
        if k[0].isdigit():
            return int(k, 8 if k[0] == "0" and len(k) > 1 else 10)
        if k not in env:
            raise Unknown(k)
        return env[k]

    def lev(i):
        if i == len(LEV):
            return prim()
        v = lev(i + 1)
        while pos[0] < len(toks) and toks[pos[0]] in LEV[i]:
            o = toks[pos[0]]
            pos[0] += 1
            v = F[o](v, lev(i + 1))
        return v
    return lev(0)


def expand(M, name, args, env):
    """Instructions of a call of the macro: [(statement, name, operand form, value)], and whether ERR was reached."""
    head, body = M.macros[name]
    env = dict(env)
    out, err = [], [False]

    def sub(t):
        return re.sub(r"\{(\d+)\}", lambda m: str(args[int(m.group(1)) - 1]) if 0 < int(m.group(1)) <= len(args) else "?", t)

    def block(i, act):
        """From statement i to the end or the closing ELSE, ENDIF or REPEND; returns its position."""
        while i < len(body):
            s = body[i]
            n, arg = s.name, sub(s.arg)
            if n in ("else", "endif", "eif", "repend"):
                return i
            if n in ("if", "ifconst", "ifnconst", "ifdef", "ifndef"):
                c = False
                if act:
                    try:
                        v = value(arg, env)
                        c = bool(v) if n == "if" else n in ("ifconst", "ifdef")
                    except Unknown:
                        if n == "if":
                            raise AnalysisBroken("condition '%s' of a macro" % arg)
                        c = n in ("ifnconst", "ifndef")
                i = block(i + 1, act and c)
                if i < len(body) and body[i].name == "else":
                    i = block(i + 1, act and not c)
                i += 1
                continue
            if n == "repeat":
                k = value(arg, env) if act else 0
                if not -1 < k < 1000 and act and not err[0]:
                    raise AnalysisBroken("REPEAT %s of a macro" % k)
                j = block(i + 1, False)
                for _ in range(max(0, k) if k < 1000 else 0):
                    block(i + 1, act)
                i = j + 1
                continue
            i += 1
            if not act:
                continue
            if n in ("set", "=", "equ"):
                env[s.label] = value(arg, env)
                continue
            if s.label:
                out.append((s, "label", s.label, None))
            if not s.op or n == "echo":
                continue
            if n == "err":
                err[0] = True
                continue
            a = arg.strip()
            if not a:
                out.append((s, n, "-", None))
            elif a[0] == "#":
                out.append((s, n, "#", value(a[1:], env) & 255))
            elif n in ("bne", "beq", "bpl", "bmi", "bcc", "bcs"):
                out.append((s, n, "r", a))
            else:
                v = value(a, env)
                out.append((s, n, "z" if 0 <= v < 256 else "a", v))
        return i
    block(0, True)
    return out, err[0]


def run(ck):
    for d, hdr in (("atari2600", "vcs.h"), ("atari7800", "7800.h")):
        H = Machine(["%s/%s" % (d, hdr)])
        M = Machine(["%s/macro.h" % d])
        need = ("sleep", "set_pointer") + (("vertical_sync", "clean_start") if d == "atari2600" else ())
        for n in need:
            if not ck.ob("available", "%s %s" % (d, n), n in M.macros, "macro missing", "machines/%s/macro.h" % d):
                return
        for base in (0, 0x40):
            H = Machine(["%s/%s" % (d, hdr)], {"TIA_BASE_ADDRESS": base})
            env0 = {k: v for k, (v, s) in H.sym.items() if v is not None}
            for legal in (False, True):
                env = dict(env0)
                if legal:
                    env["NO_ILLEGAL_OPCODES"] = 1
                for n in range(0, 80):
                    inst = "%s SLEEP %d%s base %#x" % (d, n, " legal" if legal else "", base)
                    where = M.macros["sleep"][0].where
                    code, err = expand(M, "sleep", [n], env)
                    if n < 2:
                        ck.ob("too short", inst, err, "no error for a duration below 2", where)
                        continue
                    ck.ob("duration", inst, not err, "reports an error", where)
                    cyc = 0
                    for s, op, form, v in code:
                        if op == "label":
                            continue
                        if form not in CYC or op not in CYC[form]:
                            raise AnalysisBroken("duration of %s %s not known" % (op, form))
                        cyc += CYC[form][op]
                        if legal:
                            ck.ob("legal", inst, not (op == "nop" and form != "-" or op == "lxa"), "undocumented instruction %s" % op, s.where)
                        ck.ob("no effect", inst, op in ("nop",) or legal and op in ("bit", "cmp", "cpx", "cpy"), "%s changes registers or memory" % op, s.where)
                    ck.ob("duration", inst, cyc == n, "takes %d cycles" % cyc, where)
        env0 = {k: v for k, (v, s) in H.sym.items() if v is not None}

        def flow(code, st):
            """Effect of the instructions from the registers in st: constants are propagated, None is any value."""
            labels = {v: i for i, (s, op, v, _) in enumerate(code) if op == "label"}
            pc, steps = 0, 0
            writes = []
            while pc < len(code):
                s, op, form, v = code[pc]
                pc += 1
                steps += 1
                if steps > 5000:
                    return None, None
                src = v if form == "#" else None
                setz = None
                if op == "label" or op in ("nop", "sei", "cld", "cli", "clc", "sec"):
                    continue
                if op in ("lda", "ldx", "ldy"):
                    st[op[2]] = src
                    setz = op[2]
                elif op in ("lax", "lxa"):
                    st["a"] = st["x"] = src if src == 0 else None
                    setz = "a"
                elif op in ("sta", "stx", "sty"):
                    writes.append((v, st[op[2]], s))
                elif op in ("tax", "tay", "txa", "tya", "tsx", "txs"):
                    st[op[2]] = st[op[1]]
                    setz = None if op == "txs" else op[2]
                elif op in ("dex", "dey", "inx", "iny"):
                    r = op[2]
                    st[r] = None if st[r] is None else (st[r] + (1 if op[0] == "i" else -1)) & 255
                    setz = r
                elif op == "lsr" and form == "-":
                    st["a"] = None if st["a"] is None else st["a"] >> 1
                    setz = "a"
                elif op == "asl" and form == "-":
                    st["a"] = None if st["a"] is None else st["a"] << 1 & 255
                    setz = "a"
                elif op == "pha":
                    writes.append((None if st["s"] is None else 0x100 + st["s"], st["a"], s))
                    st["s"] = None if st["s"] is None else (st["s"] - 1) & 255
                elif op in ("bne", "beq"):
                    if st["z"] is None or v not in labels:
                        return None, None
                    if st["z"] == (op == "beq"):
                        pc = labels[v]
                else:
                    raise AnalysisBroken("effect of %s not known" % op)
                if setz:
                    st["z"] = None if st[setz] is None else st[setz] == 0
            return st, writes
        start = lambda: dict(a=None, x=None, y=None, s=None, z=None)
        for p in (0x80, 0xfe, 0x90):
            for a in (0, 0xff, 0x100, 0xf0ab, 0x1234, 0xffff):
                inst = "%s SET_POINTER %#x,%#x" % (d, p, a)
                where = M.macros["set_pointer"][0].where
                code, err = expand(M, "set_pointer", [p, a], env0)
                st, wr = flow(code, start())
                ck.ob("pointer", inst, not err and wr is not None and sorted((x, y) for x, y, s in wr) == [(p, a & 255), (p + 1, a >> 8)], "stores %s" % ([(x, y) for x, y, s in wr] if wr is not None else "unknown values"), where)
        if d == "atari2600":
            where = M.macros["vertical_sync"][0].where
            VS, WS = env0.get("VSYNC"), env0.get("WSYNC")
            if VS is None or WS is None:
                raise AnalysisBroken("VSYNC or WSYNC not known")
            code, err = expand(M, "vertical_sync", [], env0)
            st, wr = flow(code, start())
            if ck.ob("sync", "VERTICAL_SYNC", not err and st is not None, "does not end", where):
                line, on, off = 0, None, None
                for x, y, s in wr:
                    if x == WS:
                        line += 1
                    elif x == VS:
                        if y is None:
                            on = off = None
                            break
                        if y & 2 and on is None:
                            on = line
                        if not y & 2 and on is not None and off is None:
                            off = line
                        if y & 2 and off is not None:
                            off = line + 100
                    else:
                        ck.ob("sync", "VERTICAL_SYNC", False, "writes to another register", s.where)
                ck.ob("sync", "VERTICAL_SYNC", on is not None and off is not None and on >= 1 and off - on == 3, "the signal is on from line %s to %s" % (on, off), where)
                ck.ob("sync", "VERTICAL_SYNC result", st["a"] == 0, "A is %s at the end" % st["a"], where)
            for legal in (False, True):
                where = M.macros["clean_start"][0].where
                inst = "CLEAN_START%s" % (" legal" if legal else "")
                code, err = expand(M, "clean_start", [], dict(env0, **({"NO_ILLEGAL_OPCODES": 1} if legal else {})))
                names = [op for s, op, form, v in code]
                st, wr = flow(code, start())
                if ck.ob("start", inst, not err and st is not None, "does not end", where):
                    ck.ob("start", inst + " memory", sorted({x & 255 if x is not None else -1 for x, y, s in wr if y == 0}) == list(range(256)) and all(y == 0 for x, y, s in wr), "not every byte is cleared", where)
                    ck.ob("start", inst + " registers", (st["a"], st["x"], st["y"], st["s"]) == (0, 0, 0, 255), "registers are %s" % st, where)
                ck.ob("start", inst + " modes", "cld" in names and "sei" in names, "decimal mode or interrupts are left on", where)
                if legal:
                    ck.ob("legal", inst, "lxa" not in names, "undocumented instruction", where)
    for r, n in (("duration", 300), ("too short", 8), ("legal", 100), ("no effect", 1000), ("pointer", 36), ("sync", 3), ("start", 6)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C49", run)
