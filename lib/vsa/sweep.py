"""Memory discipline of the line handling code.

Lines are prepared, split and handed to the directive handlers with nothing replaced but the operating system: symbol
tables, evaluation, labels, code output and messages are the program's own.  Symbols used in the lines have arbitrary
values.  Every load, store, library copy, release, division and indirect call met on any path is checked against the
extent and state of the object it touches."""
import re
from .dasm import *
from .mnem import mne_table
from .interp import bytes_at, cstring, format_bytes, LIB, Obj, Stop

LIBW = ("strcpy", "strncpy", "strcat", "memcpy", "memmove", "memset", "sprintf", "snprintf", "fgets", "fread")
NEEDS = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strcpy": (0, 1), "strcat": (0, 1), "strncpy": (0, 1), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1),
         "strdup": (0,), "atoi": (0,), "atol": (0,), "strtol": (0,), "strtoul": (0,), "sprintf": (0, 1), "snprintf": (0, 2), "sscanf": (0, 1), "printf": (0,), "puts": (0,), "fprintf": (0, 1), "fputs": (0, 1), "fputc": (1,), "putc": (1,),
         "fgetc": (0,), "getc": (0,), "fgets": (0, 2), "fread": (0, 3), "fwrite": (0, 3), "fclose": (0,), "fseek": (0,), "ftell": (0,), "rewind": (0,), "fopen": (0, 1), "remove": (0,), "unlink": (0,), "qsort": (0,)}


def maxlen(I, s, fmt, args):
    """Upper bound for the length of formatted text, or None."""
    f = cstring(I, s, fmt)
    if f is None:
        return None
    n, i, k = 0, 0, 0
    while i < len(f):
        if f[i:i + 1] != b"%":
            n += 1
            i += 1
            continue
        m = re.match(rb"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z)?([a-zA-Z%])", f[i:])
        if not m:
            return None
        i += m.end()
        c = m.group(5)
        if c == b"%":
            n += 1
            continue
        wid, prec = m.group(2), m.group(3)
        if wid == b"*" or prec == b"*":
            x = I.subst(s, args[k])
            k += 1
            if not isc(x):
                return None
            if wid == b"*":
                wid = sv(x)
            else:
                prec = sv(x)
        if k >= len(args):
            return None
        a = I.subst(s, args[k])
        k += 1
        w = int(wid) if wid else 0
        if c == b"s":
            if isc(a):
                L = 6
            else:
                b = bytes_at(I, s, a)
                if b is None:
                    return None
                L = len(b)
            if prec:
                L = min(L, int(prec))
        elif c == b"c":
            L = 1
        elif c in (b"d", b"u", b"i"):
            L = 20 if m.group(4) in (b"l", b"ll", b"z") else 11
            if isc(a):
                L = len(str(sv(a) if c != b"u" else cv(a)))
        elif c in (b"x", b"X", b"o", b"p"):
            L = (16 if m.group(4) in (b"l", b"ll", b"z") else 8) if c != b"o" else 22
            if isc(a):
                L = len("%x" % cv(a)) if c != b"o" else len("%o" % cv(a))
        else:
            return None
        n += max(w, L)
    return n


class Monitor:
    """Records what goes wrong in a world: problems is a list of (kind, where, text)."""

    def __init__(self, w, reads=True, calls=True):
        self.w = w
        self.reads = reads
        self.problems = []
        self.enough = ()
        self.count = {"store": 0, "load": 0, "copy": 0, "free": 0, "release": 0, "div": 0, "call": 0, "pointer": 0, "field": 0}
        self.quiet = 0
        self.sites = set()
        w.on_load = self.load
        w.on_store = self.store
        w.on_div = self.div
        w.on_call = self.extern
        w.on_null = self.null
        w.models["free"] = self.m_free
        for n in LIBW:
            if n in w.models:
                w.models[n] = self.wrap(n, w.models[n])
        for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"):
            w.models[n] = self.wrap("memcpy", LIB["memcpy"])
        w.models["llvm.memset.p0.i64"] = self.wrap("memset", lambda I, s, a, ins: LIB["memset"](I, s, [a[0], T.zext(a[1], 32) if a[1].w < 32 else a[1], a[2]], ins))
        if calls:
            w.models["*indirect"] = self.indirect
        w.models["realloc"] = self.m_realloc

    def bad(self, kind, ins, text):
        self.problems.append((kind, self.w.where(ins) if ins is not None else "?", text))
        if len(self.problems) >= 20 and sum(p[0] in self.enough for p in self.problems) >= 20:
            raise AnalysisBroken("enough problems")

    def name(self, oid):
        return oid.split(":", 1)[1] if ":" in oid else oid

    def extent(self, s, oid, off, n, ins, verb):
        """n bytes at off of the object."""
        o = self.w.getobj(s, oid)
        if o.size is None:
            return
        r = self.w.range(s, off) if not isc(off) else ((sv(off), sv(off)),)
        if isc(off):
            lo = hi = sv(off)
        else:
            sg = [(x - (1 << 64) if x >> 63 else x, y - (1 << 64) if y >> 63 else y) for x, y in r]
            lo, hi = min(x for x, y in sg), max(y for x, y in sg)
        if lo < 0 or hi + n > o.size:
            self.bad("outside", ins, "%s %d bytes at %s of %s, which has %d" % (verb, n, lo if lo == hi else "%d..%d" % (lo, hi), self.name(oid), o.size))

    def released(self, s, oid, ins):
        if oid in s.note.get("freed", ()):
            self.bad("released", ins, "%s is used after it was released" % self.name(oid))
        elif oid in s.note.get("onlist", ()) and not any(x in self.w.stack for x in ("FreeSymbolList", "allocsymbol")):
            self.bad("released", ins, "a symbol is used after its list was released")

    def extern(self, s, name, args, ins):
        """Library functions use what they are given."""
        if name in self.w.m.funcs or name in ("free", "realloc") or name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"):
            return
        for k in NEEDS.get(name, ()):
            if k < len(args):
                a = self.w.subst(s, args[k])
                self.count["pointer"] += 1
                if isc(a) and cv(a) < 4096:
                    self.bad("null", ins, "%s is given a null pointer" % name)
        for a in args:
            if a.w == 64 and not isc(a):
                oid, off = self.w.resolve(s, a)
                if oid is not None:
                    self.released(s, oid, ins)

    def null(self, s, verb, ins):
        if ins is not None and not self.quiet:
            self.bad("null", ins, verb + " through a null pointer")

    def load(self, s, oid, off, n, ins):
        if ins is None or self.quiet:
            return
        top = s.note.get("fields")
        if top is not None and oid == top[0] and self.reads:
            self.count["field"] += 1
            if not isc(off) or sv(off) > top[1]:
                self.bad("past", ins, "reads byte %s of the line's fields, which end at %d" % (off, top[1]))
        self.count["load"] += 1
        if self.reads:
            self.extent(s, oid, off, n, ins, "reads")
        self.released(s, oid, ins)

    def store(self, s, oid, off, val, ins):
        if ins is None or self.quiet:
            return
        self.count["store"] += 1
        self.sites.add((ins.fn, ins.n))
        self.extent(s, oid, off, max(1, val.w // 8), ins, "writes")
        self.released(s, oid, ins)

    def div(self, s, op, x, y, ins):
        self.count["div"] += 1
        if self.w.truth(s, T.eq(y, C(0, y.w))) is not False:
            self.bad("division", ins, "the divisor can be zero")
        elif op[0] == "s" and self.w.truth(s, T.eq(y, C(-1, y.w))) is not False and self.w.truth(s, T.eq(x, C(1 << (x.w - 1), x.w))) is not False:
            self.bad("division", ins, "the most negative value can be divided by -1")

    def indirect(self, I, s, a, ins):
        self.count["call"] += 1
        self.bad("call", ins, "jump through %s" % (a[0],))
        return "stop"

    def m_free(self, I, s, a, ins):
        oid, off = I.resolve(s, a[0])
        if oid is None:
            return
        self.count["free"] += 1
        if isc(off) and sv(off) != 0 or not oid.startswith("H:"):
            self.bad("release", ins, "%s+%s was not allocated" % (self.name(oid), off))
        fr = s.note.get("freed", ())
        if oid in fr:
            self.bad("release", ins, "%s is released twice" % self.name(oid))
        s.note["freed"] = fr + (oid,)

    def m_realloc(self, I, s, a, ins):
        oid, off = I.resolve(s, a[0])
        r = LIB["malloc"](I, s, [a[1]], ins)
        if oid is not None:
            o, n = I.getobj(s, oid), I.getobj(s, r.a[0]).size
            self.m_free(I, s, a, ins)
            s.mem[r.a[0]] = Obj(o.default, n, o.img, o.rel, dict(o.cells), o.log)
        return r

    def m_freelist(self, I, s, a, ins):
        """Follow the list before the program's own function releases it."""
        p = I.subst(s, a[0])
        L = s.note.get("onlist", ())
        for k in range(200):
            if isc(p):
                break
            oid, off = I.resolve(s, p)
            self.count["release"] += 1
            if oid in L or not oid.startswith("H:"):
                self.bad("release", ins, "a symbol is released twice" if oid in L else "%s is not on the heap" % oid)
                break
            L = L + (oid,)
            p = I.fget(s, p, "_SYMBOL", "next")
        out = []
        for st, rv in self.orig(I, s, "FreeSymbolList", a, ins):
            st.note["onlist"] = L
            out.append((st, rv))
        return out

    def m_allocsym(self, I, s, a, ins):
        out = []
        for st, rv in self.orig(I, s, "allocsymbol", a, ins):
            oid, off = I.resolve(st, rv)
            st.note["onlist"] = tuple(x for x in st.note.get("onlist", ()) if x != oid)
            out.append((st, rv))
        return out

    def orig(self, I, s, name, a, ins):
        try:
            return I.call(s, name, a, ins)
        except Stop:
            return []

    def wrap(self, name, old):
        def f(I, s, a, ins):
            self.count["copy"] += 1
            if ins is not None:
                self.sites.add((ins.fn, ins.n))
            self.copy(I, s, name, a, ins)
            return old(I, s, a, ins)
        return f

    def copy(self, I, s, name, a, ins):
        oid, off = I.resolve(s, a[0])
        n = None
        src = None
        if name in ("memcpy", "memmove", "memset"):
            n = I.subst(s, a[2])
            src = a[1] if name != "memset" else None
        elif name in ("strcpy", "strcat", "strncpy"):
            b = bytes_at(I, s, a[1])
            if b is not None:
                n = C(len(b) + 1, 64)
            if name == "strncpy":
                n = I.subst(s, a[2])
            elif name == "strcat":
                x = bytes_at(I, s, a[0])
                if x is None:
                    n = None
                else:
                    off = T.add(off, C(len(x), 64))
            so, sf = I.resolve(s, a[1])
            if so is not None:
                self.released(s, so, ins)
        elif name == "sprintf":
            b = maxlen(I, s, a[1], a[2:])
            if b is not None:
                n = C(b + 1, 64)
        elif name == "snprintf":
            b = maxlen(I, s, a[2], a[3:])
            n = I.subst(s, a[1])
            if b is not None and isc(n) and b + 1 < cv(n):
                n = C(b + 1, 64)
        elif name == "fgets":
            n = T.sext(I.subst(s, a[1]), 64)
        elif name == "fread":
            x, y = I.subst(s, a[1]), I.subst(s, a[2])
            n = C(cv(x) * cv(y), 64) if isc(x) and isc(y) else y if isc(x) and cv(x) == 1 else None
        if oid is None:
            self.bad("outside", ins, "%s to a null pointer" % name)
            return
        self.released(s, oid, ins)
        o = I.getobj(s, oid)
        if o.size is None:
            return
        if n is None:
            self.bad("undecided", ins, "length written by %s to %s is not decided" % (name, self.name(oid)))
            return
        if not isc(n):
            r = I.range(s, n)
            n = C(max(y for x, y in r), 64)
        if cv(n):
            self.extent(s, oid, off, cv(n), ins, name + " writes")
            if src is not None and self.reads:
                so, sf = I.resolve(s, src)
                if so is not None:
                    self.released(s, so, ins)
                    self.extent(s, so, sf, cv(n), ins, name + " reads")


class Sweep:
    def __init__(self, ck, table="Mne6502", reads=True, models=None, processor=6502, real=(), tight=False):
        self.tight = tight
        self.ck = ck
        m = ck.m
        md = dict(BASE_MODELS)
        for n in ("zmalloc", "ckmalloc", "permalloc"):
            md.pop(n)
        md["permalloc"] = BASE_MODELS["permalloc"]
        md["zmalloc"] = BASE_MODELS["zmalloc"]
        md["ckmalloc"] = BASE_MODELS["ckmalloc"]
        md["fopen"] = self.m_fopen
        md["fgets"] = self.m_fgets
        md["ftell"] = lambda I, s, a, ins: C(s.note.get("filepos", 100), 64)
        md["fread"] = self.m_fread
        md["asmerr"] = self.m_asmerr
        md.update(models or {})
        self.w = w = ck.world(md, fixed=set(m.globals), unroll=20000, recursion=60, maxdepth=400, max_steps=20_000_000)
        self.mon = Monitor(w, reads)
        w.models["FreeSymbolList"] = self.mon.m_freelist
        w.models["allocsymbol"] = self.mon.m_allocsym
        w.models["genfill"] = self.m_genfill
        if "passbuffer_update" not in (real or ()):
            w.models["passbuffer_update"] = self.m_message
        self.IF, self.BASE = K("MF_IF", "IFF_BASE")
        self.MAXLINE = self.linebuf()
        s = State()
        w.gset(s, "pass", 1)
        for t in ("Ops", table):
            if t and t in m.globals:
                self.mon.quiet += 1
                r = w.run(s, "addhashtable", [w.gaddr(t)])
                self.mon.quiet -= 1
                if len(r) != 1:
                    raise AnalysisBroken("mnemonic table")
                s = r[0][0]
        if processor:
            w.gset(s, "Processor", processor)
            w.gset(s, "bProcessor" if "bProcessor" in m.globals else "Processor", processor)
        seg = w.mkobj(s, "seg0", self.size("_SEGMENT"), "zero")
        w.fset(s, seg, "_SEGMENT", "name", w.mkstr(s, "seg0name", "INITIAL CODE SEGMENT"))
        w.gset(s, "Csegment", seg)
        w.gset(s, "Seglist", seg)
        fr = w.mkobj(s, "file0", self.size("_INCFILE"), "zero")
        w.fset(s, fr, "_INCFILE", "name", w.mkstr(s, "file0name", "src.asm"))
        w.fset(s, fr, "_INCFILE", "fi", w.mkobj(s, "stream0", 8, "zero"))
        w.gset(s, "pIncfile", fr)
        w.gset(s, "Inclevel", 1)
        i = w.mkobj(s, "ifbase", self.size("_IFSTACK"), "zero")
        w.fset(s, i, "_IFSTACK", "flags", self.BASE)
        w.fset(s, i, "_IFSTACK", "xtrue", 1)
        w.fset(s, i, "_IFSTACK", "acctrue", 1)
        w.fset(s, i, "_IFSTACK", "file", 0)
        w.gset(s, "Ifstack", i)
        w.gset(s, "FI_temp", w.mkobj(s, "out", 8, "zero"))
        w.gset(s, "F_format", K("FORMAT_RAW"))
        w.gset(s, "Fisclear", 1)
        w.gset(s, "maxFileSize", 1 << 40)
        b = w.mkobj(s, "stops", 64, "zero")
        w.gset(s, "bStopAtEnd", b)
        for g in ("Av",):
            w.gset(s, g, w.mkstr(s, "emptystr", ""), 0, 8)
        self.base = s

    def size(self, struct):
        f = self.ck.m.struct_fields(struct)
        if not f:
            raise AnalysisBroken("structure %s not found" % struct)
        n = max(o + k for o, k in f.values())
        return (n + 7) // 8 * 8

    def linebuf(self):
        """Size of the main function's line buffer."""
        f = self.ck.m.funcs.get("MainShadow")
        if f is None:
            raise AnalysisBroken("main loop not found")
        return max([i.ty.size for b in f.blocks.values() for i in b.insts if i.op == "alloca" and i.ty.k == "arr"] or [1025])

    def m_fopen(self, I, s, a, ins):
        return I.mkptr("fopened") if s.note.get("fopen") else C(0, 64)

    def m_fread(self, I, s, a, ins):
        L = s.note.get("fread", ())
        s.note["fread"] = L[1:]
        return C(L[0] if L else 0, 64)

    def m_fgets(self, I, s, a, ins):
        L = s.note.get("lines", ())
        if not L:
            return C(0, 64)
        s.note["lines"] = L[1:]
        b = (L[0] + "\n").encode("latin-1")
        n = cv(I.subst(s, a[1]))
        rest = b[n - 1:]
        b = b[:n - 1]
        if rest:
            s.note["lines"] = (rest[:-1].decode("latin-1"),) + s.note["lines"]
        oid, off = I.resolve(s, a[0])
        o = I.getobj(s, oid).mod()
        for k, c in enumerate(b + b"\0"):
            I.put(o, sv(off) + k, C(c, 8))
        s.mem[oid] = o
        return a[0]

    def m_genfill(self, I, s, a, ins):
        """Long or undetermined fills repeat the same step and are left out."""
        if all(isc(x) for x in a[1:3]) and 0 <= sv(a[1]) <= 3000:
            return self.mon.orig(I, s, "genfill", a, ins)
        s.ev("fill", a[1])

    def m_message(self, I, s, a, ins):
        oid, off = I.resolve(s, a[1])
        if oid is not None:
            self.mon.released(s, oid, ins)

    def m_asmerr(self, I, s, a, ins):
        p = I.subst(s, a[2])
        if not isc(p):
            oid, off = I.resolve(s, p)
            if oid is not None:
                self.mon.released(s, oid, ins)
        return m_asmerr(I, s, a, ins)

    def symbol(self, s, name, value=None, flags=0, string=None):
        """Enter a symbol with an arbitrary or given value."""
        w = self.w
        t = w.mkstr(s, "nm_" + name, name)
        self.mon.quiet += 1
        r = w.run(s, "CreateSymbol", [t, C(len(name), 32), C(0, 8)])
        self.mon.quiet -= 1
        if len(r) != 1:
            raise AnalysisBroken("CreateSymbol")
        s, p = r[0]
        w.fset(s, p, "_SYMBOL", "value", sym("v_" + name, 64) if value is None else C(value, 64) if isinstance(value, int) else value)
        w.fset(s, p, "_SYMBOL", "flags", flags)
        if string is not None:
            k = s.cnt.get("strings", 0)
            s.cnt["strings"] = k + 1
            w.fset(s, p, "_SYMBOL", "string", w.mkstr(s, "sv%d_%s" % (k, name[:10]), string))
        return s

    def prelude(self):
        """n1: any number, c5: 42, u1: unresolved, s1: a string, e1: EQM of an expression, se: EQM of a string."""
        U, ST, MC = K("SYM_UNKNOWN", "SYM_STRING", "SYM_MACRO")
        s = self.base.copy()
        s = self.symbol(s, "n1")
        s = self.symbol(s, "c5", 42)
        s = self.symbol(s, "u1", 0, U)
        s = self.symbol(s, "s1", 0, ST, "abc")
        s = self.symbol(s, "e1", 0, ST | MC, "n1+1")
        s = self.symbol(s, "se", 0, ST | MC, '"xy"')
        self.base = [x for x, k in self.lines(s, [" org $1000"])][0]
        self.mon.problems.clear()
        return self.base

    def problems(self, kinds, texts, listing=False, setup=None, **notes):
        """Problems of the given kinds met in handling the lines, and the number of outcomes."""
        s = self.base.copy()
        for k, v in notes.items():
            s.note[k] = v
        if setup:
            setup(s)
        self.mon.problems.clear()
        self.mon.enough = kinds
        try:
            n = len(self.lines(s, texts, listing))
        except AnalysisBroken:
            # what was met before stands
            n = 1
            if not any(p[0] in kinds for p in self.mon.problems):
                raise
        finally:
            self.mon.enough = ()
        return [p for p in self.mon.problems if p[0] in kinds], n

    def lines(self, s, texts, listing=False):
        """Handle lines one after the other; returns final states with kind."""
        w = self.w
        n0 = len(w.exits)
        cur = [s]
        for t in texts:
            nxt = []
            for st in cur:
                nxt += self.line(st, t, listing)
            cur = nxt
            if len(cur) > 64:
                cur = cur[:64]
        return [(st, "return") for st in cur] + [(st, k) for k, st, i in w.exits[n0:]]

    def line(self, s, text, listing):
        w = self.w
        s = s.copy()
        if "buf" not in s.note:
            s.note["buf"] = True
        b = text.encode("latin-1")[:self.K1 if hasattr(self, "K1") else 1023]
        buf = w.mkobj(s, "linebuf", self.MAXLINE, "zero")
        s.mem["H:linebuf"] = Obj("zero", self.MAXLINE, b + bytes(self.MAXLINE - len(b)), {})
        s.note.pop("fields", None)
        out = []
        for st, c in w.run(s, "cleanup", [buf, C(0, 8)]):
            for st2, mne in w.run(st, "parse", [buf]):
                if self.tight:
                    self.mark(st2)
                out += self.handle(st2, mne, c, listing)
        return out

    def mark(self, s):
        """Remember where the text of the line's last field ends."""
        p = self.w.gget(s, "Av", 16, 8)
        b = bytes_at(self.w, s, p)
        oid, off = self.w.resolve(s, p)
        if b is not None and isc(off):
            s.note["fields"] = (oid, sv(off) + len(b))

    def handle(self, s, mne, comment, listing):
        w = self.w
        i = w.gget(s, "Ifstack")
        if isc(i):
            self.mon.problems.append(("null", "the main loop", "the condition of a line is read through a null pointer"))
            return []
        true = all(isc(w.fget(s, i, "_IFSTACK", f)) and cv(w.fget(s, i, "_IFSTACK", f)) for f in ("xtrue", "acctrue"))
        av = [w.gget(s, "Av", 8 * k, 8) for k in range(3)]
        w1 = w.load(s, av[1], 1)
        if isc(w1) and cv(w1):
            if isc(mne):
                r = [s]
            else:
                fl = w.fget(s, mne, "_MNE", "flags")
                r = [s]
                if true or isc(fl) and cv(fl) & self.IF:
                    v = w.fget(s, mne, "_MNE", "vect")
                    if v.op != "obj":
                        self.mon.problems.append(("call", "mnemonic table", "entry without a handler"))
                        return []
                    r = [x for x, rv in w.run(s, v.a[0][2:], [av[2], mne])]
        else:
            r = [s]
            if true:
                r = [x for x, rv in w.run(s, "programlabel", [])]
        if listing:
            r2 = []
            for st in r:
                r2 += [x for x, rv in w.run(st, "outlistfile", [comment])]
            r = r2
        return r
