"""Models and helpers shared by the checks of the dasm program."""
from .check import *
from .terms import *
from . import terms as T, ir

_consts = {}


def K(*names):
    """Integer constants of asm.h by name."""
    miss = [n for n in names if n not in _consts]
    if miss:
        _consts.update(ir.constants(miss))
    return [_consts[n] for n in names] if len(names) > 1 else _consts[names[0]]


def m_asmerr(I, s, a, ins):
    """asmerr(err, bAbort, text): record it; aborting calls do not return."""
    ab = I.truth(s, T.bnot(T.eq(a[1], C(0, a[1].w))))
    if ab is None:
        s2 = s.copy()
        c = T.bnot(T.eq(a[1], C(0, a[1].w)))
        out = []
        if I.assume(s2, c, True):
            s2.ev("err", a[0], True)
            I.exits.append(("abort", s2, ins))
        if I.assume(s, c, False):
            s.ev("err", a[0], False)
            out.append((s, a[0]))
        return out
    s.ev("err", a[0], ab)
    if ab:
        I.exits.append(("abort", s, ins))
        return "stop"
    return a[0]


def m_panic(I, s, a, ins):
    s.ev("panic")
    I.exits.append(("panic", s, ins))
    return "stop"


def m_zalloc(I, s, a, ins):
    """permalloc/zmalloc: a fresh zeroed block."""
    site = "H:%s" % I.site(ins)
    k = s.cnt.get(site, 0)
    s.cnt[site] = k + 1
    oid = site + ("'%d" % k if k else "")
    s.mem[oid] = Obj("zero", cv(a[0]) if isc(a[0]) else None)
    return obj(oid)


def m_alloc(I, s, a, ins):
    r = m_zalloc(I, s, a, ins)
    s.mem[r.a[0]] = Obj("undef", cv(a[0]) if isc(a[0]) else None)
    return r


BASE_MODELS = {"asmerr": m_asmerr, "panic": m_panic, "permalloc": m_zalloc, "zmalloc": m_zalloc, "ckmalloc": m_alloc}


def errs(st):
    return [e for e in st.trace if e[0] == "err"]


def flat(trace):
    """Trace with loop summaries flattened to a set of possible events."""
    out = []
    for e in trace:
        if e[0] == "loop":
            for it in e[2]:
                out += flat(it)
        else:
            out.append(e)
    return out


def has_err(st):
    return any(e[0] in ("err", "panic", "exit") for e in flat(st.trace))


def summands(t):
    """t = constant + sum of (coefficient, term), concatenations split into their pieces."""
    k, ts = T.lin_parts(t)
    out = []
    for x, c in ts:
        if x.op == "cat":
            lo = 0
            for p in T.pieces(x):
                n = T.plen(p)
                if p[0] == "c":
                    k += c * (p[1] << lo)
                else:
                    y = T.mkcat(([("c", 0, lo)] if lo else []) + [p] + ([("c", 0, x.w - lo - n)] if x.w > lo + n else []))
                    out.append((c, y))
                lo += n
        else:
            out.append((c, x))
    return k, out


def same(I, s, a, b, cap=70000):
    """Are two terms equal in state s?  Normal form first; then the difference is split into parts
    without common atoms, each of which must be constant over the (small) ranges of its atoms."""
    import itertools
    a, b = I.subst(s, a), I.subst(s, b)
    if a is b:
        return True
    if a.w != b.w:
        return False
    a, b = (T.rebuild(x, lambda y: None) for x in (a, b))      # slices of sums are narrowed
    if a is b:
        return True
    t = I.truth(s, T.eq(a, b))
    if t is not None:
        return t
    k, parts = summands(T.sub(a, b))
    groups = []
    for c, x in parts:
        at = set(x.atoms)
        ts = [(c, x)]
        rest = []
        for ga, gt in groups:
            if ga & at:
                at |= ga
                ts += gt
            else:
                rest.append((ga, gt))
        groups = rest + [(at, ts)]
    tot = k
    for at, ts in groups:
        at = sorted(at, key=lambda x: x.id)
        n = 1
        rs = []
        for x in at:
            if x.op == "obj":
                return False
            r = I.range(s, x)
            n *= T.rsize(r)
            if n > cap:
                return False
            rs.append([v for lo, hi in r for v in range(lo, hi + 1)])
        val = None
        for vals in itertools.product(*rs):
            m = {x: C(v, x.w) for x, v in zip(at, vals)}
            v = 0
            for c, x in ts:
                y = T.rebuild(x, m.get)
                if not isc(y):
                    return False
                v += c * cv(y)
            v &= (1 << a.w) - 1
            if val is None:
                val = v
            elif v != val:
                return False
        if val is None:
            return True
        tot += val
    return tot & ((1 << a.w) - 1) == 0


def calls_into(m, fname):
    """Functions reachable from fname by direct calls."""
    seen = set()
    work = [fname]
    while work:
        f = work.pop()
        if f in seen or f not in m.funcs:
            continue
        seen.add(f)
        for b in m.funcs[f].blocks.values():
            for ins in b.insts:
                if ins.op == "call" and ins.a[0][0] == "g":
                    work.append(ins.a[0][1])
    return seen


MODES = ("IMP IMM8 IMM16 BYTEADR BYTEADRX BYTEADRY WORDADR WORDADRX WORDADRY REL BYTEREL INDBYTEX INDBYTEY INDWORD INDWORDX "
         "INDBYTE 0X 0Y BITMOD BITBRAMOD BYTEADR_SP WORDADR_SP SYMBOL EXPLIST LONG BSS OTHER_ENDIAN").split()


class Mne:
    """One entry of a mnemonic or directive table."""

    def __init__(self, table, idx, name, vect, flags, okmask, raw):
        self.table, self.idx, self.name, self.vect = table, idx, name, vect
        self.flags, self.okmask, self.raw = flags, okmask, raw
        bits = [i for i in range(64) if okmask >> i & 1]
        self.modes = {b: (raw[j] if j < len(raw) else 0) for j, b in enumerate(bits)}

    def __repr__(self):
        return "%s[%d] %s" % (self.table, self.idx, self.name)


def cstring(I, s, p):
    out = b""
    while True:
        c = I.load(s, T.add(p, C(len(out), 64)), 1)
        if not isc(c):
            raise AnalysisBroken("string at %s is not constant" % p)
        if cv(c) == 0:
            return out.decode("latin-1")
        out += bytes([cv(c)])


def mne_table(m, gname):
    """Entries of a static MNEMONIC array, read from its initialiser."""
    if gname not in m.globals:
        raise AnalysisBroken("table %s not found" % gname)
    I = Interp(m, {})
    s = State()
    f = m.struct_fields("_MNE")
    g = m.globals[gname]
    esz = m.types["%struct._MNE"].size
    base = obj("g:" + gname)
    out = []
    i = 0

    def get(i, fld, n=None, add=0):
        o, sz = f[fld]
        return I.load(s, T.add(base, C(i * esz + o + add, 64)), n or sz)
    no = f["opcode"][1] // 4
    while i * esz < g.ty.size:
        v = get(i, "vect")
        if isc(v) and cv(v) == 0:
            break
        nm = cstring(I, s, get(i, "name"))
        fl, ok = get(i, "flags"), get(i, "okmask")
        raw = [get(i, "opcode", 4, 4 * k) for k in range(no)]
        out.append(Mne(gname, i, nm, v.a[0][2:] if v.op == "obj" else str(v), cv(fl), cv(ok), [cv(r) for r in raw]))
        i += 1
    else:
        raise AnalysisBroken("table %s has no terminating entry" % gname)
    return out


def errdefs(m):
    """The error table: [(number, fatal, text)]."""
    if hasattr(m, "_errdefs"):
        return m._errdefs
    g = m.globals.get("sErrorDef")
    if g is None:
        raise AnalysisBroken("error table not found")
    I = Interp(m, {})
    s = State()
    f = m.struct_fields("ERRORSTRUCT")
    esz = m.types["%struct.ERRORSTRUCT"].size
    b = obj("g:sErrorDef")
    out = []
    for i in range(g.ty.size // esz):
        def get(n):
            o, sz = f[n]
            return I.load(s, T.add(b, C(i * esz + o, 64)), sz)
        out.append((sv(get("nErrorType")), cv(get("bFatal")) != 0, cstring(I, s, get("sDescription"))))
    m._errdefs = out
    return out


def fatal_err(m, e):
    """Does this error event make the assembly fail by itself?"""
    if e[0] in ("panic", "exit"):
        return True
    if e[2]:
        return True
    d = errdefs(m)
    return isc(e[1]) and 0 <= sv(e[1]) < len(d) and d[sv(e[1])][1]
