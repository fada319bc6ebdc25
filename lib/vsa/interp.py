"""Abstract interpreter over the IR: trace-partitioned states, interval-set and
normal-form-term domain, field-sensitive memory, fixpoints at loops.

A state describes a set of concrete states: symbols stand for arbitrary values
limited by the range facts kept with the state.  Joins, loop fixpoints and
widening make the exploration finite; no solver is involved.
"""
import heapq
from . import terms as T
from .terms import (C, sym, obj, isc, cv, sv, mklin, trunc, zext, sext, extract, mkcat, pieces, slice_pieces,
                    add, sub, eq, bnot, rfull, rand, ror, rnot, rshift, rneg, rsigned, rsize, signed, TRUE, FALSE)
from .ir import AnalysisBroken, operands


class Obj:
    __slots__ = ("default", "img", "rel", "size", "cells", "log", "_key")

    def __init__(self, default, size=None, img=None, rel=None, cells=None, log=()):
        self.default = default     # 'zero' | 'undef' | ('lazy', tag)
        self.img, self.rel, self.size = img, rel, size
        self.cells = cells if cells is not None else {}
        self.log = log
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.default, frozenset(self.cells.items()), self.log)
        return self._key

    def mod(self):
        return Obj(self.default, self.size, self.img, self.rel, dict(self.cells), self.log)


class State:
    __slots__ = ("mem", "rng", "known", "sub", "trace", "cnt", "strs", "note")

    def __init__(self):
        self.mem = {}
        self.rng = {}
        self.known = {}
        self.sub = {}
        self.trace = ()
        self.cnt = {}
        self.strs = {}
        self.note = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.rng = dict(self.rng)
        s.known = dict(self.known)
        s.sub = dict(self.sub)
        s.trace = self.trace
        s.cnt = dict(self.cnt)
        s.strs = dict(self.strs)
        s.note = dict(self.note)
        return s

    def ev(self, *e):
        self.trace = self.trace + (tuple(e),)


PTRSYM = set()
NONNULL = set()


class Stop(Exception):
    pass


class Budget(AnalysisBroken):
    pass


VPRINTF = {"vprintf": 1, "vfprintf": 2, "vsprintf": 2, "vsnprintf": 3}


class Interp:
    def __init__(self, mod, models=None, **kw):
        self.m = mod
        self.models = dict(LIB)
        if models:
            self.models.update(models)
        self.base = {}
        self.lazyreg = {}
        self.verids = {}
        self.unif = {}
        self.exits = []          # (kind, state, inst)
        self.loop_log = []       # (fn, header, entry env/state, [back states])
        self.stack = []
        self.on_store = None
        self.on_load = None
        self.on_call = None
        self.on_div = None
        self.on_null = None
        self.max_states = kw.get("max_states", 400)
        self.max_steps = kw.get("max_steps", 3_000_000)
        self.unroll = kw.get("unroll", 5000)
        self.extra = []
        self.undecided_unroll = kw.get("undecided_unroll", {})   # fn -> max iterations
        self.steps = 0
        self.limit_steps = 1 << 62
        self.fns = set()
        self.blocks = set()
        self.maxdepth = kw.get("maxdepth", 40)
        self.recursion = kw.get("recursion", 1)
        self.uninit = []
        self.calls = set()
        self.forced = 0
        self.gptr = {}
        self.stop_at = None      # (function, header): collect entry states there
        self.collected = []

    # ------------------------------------------------------------ memory
    def image(self, g):
        """Flatten a global initialiser to (bytes, relocations)."""
        size = g.ty.size
        b = bytearray(size)
        rel = {}

        def put(ty, v, off):
            k = v[0]
            if k == "c":
                n = ty.size
                b[off:off + n] = (v[2]).to_bytes(max(n, (v[1] + 7) // 8), "little")[:n]
            elif k in ("undef", "zero"):
                pass
            elif k == "bytes":
                b[off:off + len(v[1])] = v[1]
            elif k == "agg":
                t = v[1]
                if t.k == "arr":
                    o = off
                    for et, ev in v[2]:
                        put(et, ev, o)
                        o += et.size
                else:
                    for i, (et, ev) in enumerate(v[2]):
                        put(et, ev, off + t.offs[i])
            elif k in ("g", "ce"):
                rel[off] = self.const_operand(v)
            else:
                raise AnalysisBroken("initialiser " + str(v)[:60])
        if g.init is not None:
            put(g.ty, g.init, 0)
        return bytes(b), rel

    def getobj(self, s, oid):
        o = s.mem.get(oid)
        if o is not None:
            return o
        return self.baseobj(oid)

    def baseobj(self, oid):
        o = self.base.get(oid)
        if o is not None:
            return o
        if oid.startswith("g:"):
            g = self.m.globals.get(oid[2:])
            if g is None:
                if oid == "g:ctypetab":
                    o = Obj("zero", 768, ctype_image(), {})
                elif oid == "g:ctypeptr":
                    o = Obj("zero", 8, bytes(8), {0: add(obj("g:ctypetab"), C(256, 64))})
                elif oid[2:] in self.m.funcs or oid[2:] in self.m.decls:
                    o = Obj("undef", 0)
                else:
                    raise AnalysisBroken("unknown global " + oid)
            elif g.ext:
                o = Obj(("lazy", ""), g.ty.size)
            else:
                img, rel = self.image(g)
                o = Obj("zero", g.ty.size, img, rel)
        else:
            o = Obj(("lazy", ""))
        self.base[oid] = o
        return o

    def lazy(self, oid, tag, off, n, isptr):
        """Symbol for n bytes at off of a lazily defined object."""
        reg = self.lazyreg.setdefault((oid, tag), {})
        c = reg.get(off)
        if c is not None and c.w == 8 * n:
            if isptr:
                PTRSYM.add(c)
            return c
        over = [(o, t) for o, t in reg.items() if o < off + n and off < o + t.w // 8]
        if not over:
            t = sym("%s[%d]%s" % (oid, off, ("#" + tag) if tag else ""), 8 * n)
            reg[off] = t
            if isptr:
                PTRSYM.add(t)
            return t
        out = []
        i = off
        while i < off + n:
            for o, t in over:
                if o <= i < o + t.w // 8:
                    e = min(off + n, o + t.w // 8)
                    out += slice_pieces(t, 8 * (i - o), 8 * (e - i))
                    i = e
                    break
            else:
                out += pieces(self.lazy(oid, tag, i, 1, False))
                i += 1
        return mkcat(out)

    def load_default(self, s, oid, o, off, n, isptr):
        if o.img is not None and 0 <= off and off + n <= len(o.img):
            r = o.rel.get(off)
            if r is not None and n == 8:
                return r
            for ro in o.rel:
                if ro < off + n and off < ro + 8:
                    return extract(o.rel[ro], 8 * (off - ro), 8 * n) if ro <= off and off + n <= ro + 8 else sym("mix", 8 * n)
            return C(int.from_bytes(o.img[off:off + n], "little"), 8 * n)
        if o.default == "zero":
            return C(0, 8 * n)
        if o.default == "undef":
            t = sym("undef:%s[%d]" % (oid, off), 8 * n)
            if isptr:
                PTRSYM.add(t)
            return t
        return self.lazy(oid, o.default[1], off, n, isptr)

    def load_const(self, s, oid, o, off, n, isptr):
        c = o.cells.get(off)
        if c is not None and c.w == 8 * n:
            return c
        if not o.cells:
            return self.load_default(s, oid, o, off, n, isptr)
        if len(o.cells) > 40:
            over = [(k, o.cells[k]) for k in range(off - 31, off + n) if k in o.cells and off < k + o.cells[k].w // 8]
        else:
            over = [(k, t) for k, t in o.cells.items() if k < off + n and off < k + t.w // 8]
        if not over:
            return self.load_default(s, oid, o, off, n, isptr)
        out = []
        i = off
        over.sort(key=lambda x: x[0])
        while i < off + n:
            nxt = off + n
            for k, t in over:
                if k <= i < k + t.w // 8:
                    e = min(off + n, k + t.w // 8)
                    out += slice_pieces(t, 8 * (i - k), 8 * (e - i))
                    i = e
                    break
                if k > i:
                    nxt = min(nxt, k)
            else:
                out += pieces(self.load_default(s, oid, o, i, nxt - i, False))
                i = nxt
        return mkcat(out)

    def ver(self, o):
        k = (id(o.img), o.key())
        v = self.verids.get(k)
        if v is None:
            v = len(self.verids)
            self.verids[k] = v
        return v

    def disjoint(self, s, a, na, b, nb):
        """Are [a,a+na) and [b,b+nb) certainly disjoint (offset terms)?"""
        d = sub(a, b)
        if isc(d):
            v = sv(d)
            return v >= nb or v <= -na
        lo, hi = T.rsbounds(self.range(s, d), 64)
        return lo is not None and (lo >= nb or hi <= -na)

    def load(self, s, addr, n, isptr=False, inst=None):
        oid, off = self.resolve(s, addr, inst)
        if oid is None:
            s.ev("nullload", inst and self.where(inst))
            if self.on_null:
                self.on_null(s, "reads", inst)
            raise Stop()
        if self.on_load:
            self.on_load(s, oid, off, n, inst)
        o = self.getobj(s, oid)
        r = None
        if isc(off):
            k = sv(off)
            for lo, lv, ln in reversed(o.log):
                if lo is off and ln == n:
                    r = lv
                    break
                if not self.disjoint(s, off, n, lo, ln):
                    r = T.app("ld:%s:%d" % (oid, self.ver(o)), 8 * n, off)
                    break
            if r is None:
                r = self.load_const(s, oid, o, k, n, isptr)
        else:
            for lo, lv, ln in reversed(o.log):
                if lo is off and ln == n:
                    r = lv
                    break
                if not self.disjoint(s, off, n, lo, ln):
                    r = T.app("ld:%s:%d" % (oid, self.ver(o)), 8 * n, off)
                    break
            if r is None and n <= 8 and oid.startswith("g:") and o.img is not None and not o.cells and not o.rel and len(o.img) <= 256 and not isptr:
                lo, hi = T.rsbounds(self.range(s, off), 64)
                if lo is not None and 0 <= lo and hi + n <= len(o.img):
                    r = T.app("tbl", 8 * n, bytes(o.img), off)
            if r is None and o.cells:
                # the same value in every element
                v = self.ver(o)
                u = self.unif.get(v)
                if u is None:
                    vs = set(o.cells.values())
                    u = False
                    if len(vs) == 1:
                        x = next(iter(vs))
                        k = x.w // 8
                        if k & (k - 1) == 0 and all(i % k == 0 for i in o.cells) and max(o.cells) == (len(o.cells) - 1) * k:
                            u = (x, k, len(o.cells) * k)
                    self.unif[v] = u
                if u and u[1] == n:
                    lo, hi = T.rsbounds(self.range(s, off), 64)
                    lz = extract(off, 0, n.bit_length() - 1) if n > 1 else C(0, 1)
                    if lo is not None and 0 <= lo and hi < u[2] and isc(lz) and cv(lz) == 0:
                        r = u[0]
            if r is None:
                r = T.app("ld:%s:%d" % (oid, self.ver(o)), 8 * n, off)
        if isptr and r.op in ("app", "sym"):
            PTRSYM.add(r)
        return r

    def store(self, s, addr, val, inst=None):
        oid, off = self.resolve(s, addr, inst)
        if oid is None:
            s.ev("nullstore", inst and self.where(inst))
            if self.on_null:
                self.on_null(s, "writes", inst)
            raise Stop()
        if self.on_store:
            self.on_store(s, oid, off, val, inst)
        n = max(1, val.w // 8)
        if val.w % 8:
            val = zext(val, 8 * n)
        o = self.getobj(s, oid).mod()
        if isc(off) and not any(not self.disjoint(s, off, n, lo, ln) for lo, _, ln in o.log):
            self.put(o, sv(off), val)
        else:
            lg = [e for e in o.log if not (e[0] is off and e[2] == n)] if all(
                e[0] is off or self.disjoint(s, off, n, e[0], e[2]) for e in o.log) else list(o.log)
            o.log = tuple(lg) + ((off, val, n),)
        s.mem[oid] = o

    def put(self, o, off, val):
        n = val.w // 8
        c = o.cells.get(off)
        if c is not None and c.w == val.w:
            o.cells[off] = val
            return
        near = range(off - 31, off + n) if len(o.cells) > 40 else list(o.cells)     # no cell is wider than 32 bytes
        for k in near:
            t = o.cells.get(k)
            if t is None or not (k < off + n and off < k + t.w // 8):
                continue
            del o.cells[k]
            l = t.w // 8
            if k < off:
                o.cells[k] = extract(t, 0, 8 * (off - k))
            if k + l > off + n:
                o.cells[off + n] = extract(t, 8 * (off + n - k), 8 * (k + l - off - n))
        o.cells[off] = val

    def resolve(self, s, addr, inst=None):
        """address term -> (object id, offset term)"""
        addr = self.subst(s, addr)
        if isc(addr):
            if cv(addr) < 4096:
                return None, None
            return "abs", addr
        k, ts = T.lin_parts(addr)
        cand = [x for x, c in ts if c == 1 and x.op == "obj"]
        if not cand:
            cand = [x for x, c in ts if c == 1 and x in PTRSYM]
        if not cand:
            cand = [x for x, c in ts if c == 1 and x.op in ("sym", "app") and x.w == 64]
        if len(cand) >= 1:
            b = cand[0]
            off = sub(addr, b)
            if b.op == "obj":
                return b.a[0], off
            if b not in NONNULL:
                # dereference implies non-null on this path
                r = self.range(s, b)
                if r == ((0, 0),):
                    return None, None
            return "L:" + T.show(b), off
        return "L:" + T.show(addr), C(0, 64)

    def havoc(self, s, oid, why):
        o = self.getobj(s, oid)
        n = s.cnt.get(("havoc", oid), 0) + 1
        s.cnt[("havoc", oid)] = n
        s.mem[oid] = Obj(("lazy", "%s%d" % (why, n)), o.size)

    # ---------------------------------------------------------- facts
    def subst(self, s, t):
        if t.op == "c":
            return t
        if not s.sub and not s.known:
            return t
        hit = False
        for a in t.atoms:
            if a in s.sub or a in s.known:
                hit = True
                break
        if not hit and t not in s.sub:
            # applications are not atoms' leaves themselves
            if not any(x.op == "app" for x in s.sub) or not _has_app(t):
                return t

        def f(x):
            r = s.sub.get(x)
            if r is not None:
                return r if isc(r) or r is x else self.subst(s, r)
            kn = s.known.get(x)
            if kn is not None and x.op != "cat":
                m, v = kn
                out = []
                i = 0
                while i < x.w:
                    bit = (m >> i) & 1
                    e = i
                    while e < x.w and (m >> e) & 1 == bit:
                        e += 1
                    out.append(("c", (v >> i) & ((1 << (e - i)) - 1), e - i) if bit else ("x", x, i, e - i))
                    i = e
                return mkcat(out)
            return None
        return T.rebuild(t, f)

    def range(self, s, t, depth=0):
        w = t.w
        op = t.op
        if op == "c":
            return ((t.a[0], t.a[0]),)
        r = s.rng.get(t)
        if r is None:
            r = rfull(w)
        if rsize(r) == 1 or depth > 12:
            return r
        x = self.srange(s, t, depth + 1)
        if x is not None:
            r = rand(r, x)
        return r

    def srange(self, s, t, d):
        op, w = t.op, t.w
        m = (1 << w) - 1
        if op == "sym":
            return None
        if op == "lin":
            k, ts = t.a
            # fact stored for the constant-free or negated form
            if k:
                base = mklin(w, 0, ts)
                if base in s.rng:
                    r0 = rshift(s.rng[base], k, w)
                else:
                    r0 = None
            else:
                r0 = None
            nb = mklin(w, 0, [(x, (-c) & m) for x, c in ts])
            if nb in s.rng:
                r1 = rshift(rneg(s.rng[nb], w), k, w)
                r0 = r1 if r0 is None else rand(r0, r1)
            if len(ts) == 1:
                x, c = ts[0]
                if c == 1:
                    r = rshift(self.range(s, x, d), k, w)
                    return r if r0 is None else rand(r, r0)
                if c == m:
                    r = rshift(rneg(self.range(s, x, d), w), k, w)
                    return r if r0 is None else rand(r, r0)
            # signed interval sum
            lo = hi = signed(k, w)
            for x, c in ts:
                c = signed(c, w)
                a, b = T.rsbounds(self.range(s, x, d), w)
                if a is None:
                    return ()
                lo += min(a * c, b * c)
                hi += max(a * c, b * c)
            if lo < -(1 << (w - 1)) or hi > (1 << (w - 1)) - 1:
                return r0
            r = rsigned(lo, hi, w)
            return r if r0 is None else rand(r, r0)
        if op == "cat":
            ps = t.a
            if len(ps) == 1 and ps[0][0] == "x":
                _, x, lo, n = ps[0]
                rx = self.range(s, x, d)
                out = []
                for a, b in rx:
                    a2, b2 = a >> lo, b >> lo
                    if b2 - a2 >= (1 << n) - 1:
                        return None
                    a3, b3 = a2 & m, b2 & m
                    if a3 <= b3:
                        out.append((a3, b3))
                    else:
                        out += [(0, b3), (a3, m)]
                return T.rnorm(out)
            nw = T.narrow(t)
            if nw:
                x = nw[1]
                rx = self.range(s, x, d)
                if nw[0] == "z":
                    return rx
                out = []
                h = 1 << (x.w - 1)
                for a, b in rx:
                    for p, q in ((a, min(b, h - 1)), (max(a, h), b)):
                        if p <= q:
                            out.append((signed(p, x.w) & m, signed(q, x.w) & m))
                return T.rnorm(out)
            lo = hi = 0
            o = 0
            for p in ps:
                n = T.plen(p)
                if p[0] == "c":
                    lo += p[1] << o
                    hi += p[1] << o
                elif p[0] == "x":
                    rx = self.range(s, mkcat([p]), d)
                    if not rx:
                        return ()
                    lo += rx[0][0] << o
                    hi += rx[-1][1] << o
                else:
                    hi += ((1 << n) - 1) << o
                o += n
            return ((lo, hi),)
        if op == "and" and w > 1:
            hi = m
            for x in t.a:
                r = self.range(s, x, d)
                if not r:
                    return ()
                hi = min(hi, r[-1][1])
            return ((0, hi),)
        if op == "or" and w > 1:
            lo = 0
            for x in t.a:
                r = self.range(s, x, d)
                if not r:
                    return ()
                lo = max(lo, r[0][0])
            return ((lo, m),)
        if op == "urem":
            r = self.range(s, t.a[1], d)
            if r and r[-1][1] > 0:
                ra = self.range(s, t.a[0], d)
                return ((0, min(r[-1][1] - 1, ra[-1][1] if ra else m)),)
            return None
        if op in ("udiv", "lshr"):
            ra = self.range(s, t.a[0], d)
            return ((0, ra[-1][1]),) if ra else ()
        if op in ("sdiv", "srem") and isc(t.a[1]) and sv(t.a[1]) > 0:
            lo, hi = T.rsbounds(self.range(s, t.a[0], d), w)
            if lo is None:
                return ()
            k = sv(t.a[1])
            if op == "sdiv":
                return rsigned(-(-lo // k) if lo < 0 else lo // k, -(-hi // k) if hi < 0 else hi // k, w)
            return rsigned(max(lo, 1 - k) if lo < 0 else 0, min(hi, k - 1) if hi > 0 else 0, w)
        if op == "ite":
            c = self.truth(s, t.a[0], d)
            if c is True:
                return self.range(s, t.a[1], d)
            if c is False:
                return self.range(s, t.a[2], d)
            return ror(self.range(s, t.a[1], d), self.range(s, t.a[2], d))
        if w == 1:
            b = self.truth(s, t, d, True)
            if b is None:
                return None
            return ((1, 1),) if b else ((0, 0),)
        return None

    def truth(self, s, b, d=0, norng=False):
        """True/False/None for a 1-bit term."""
        if isc(b):
            return bool(cv(b))
        if not norng:
            r = s.rng.get(b)
            if r is not None and len(r) == 1 and r[0][0] == r[0][1]:
                return bool(r[0][0])
        op = b.op
        if op == "not":
            x = self.truth(s, b.a[0], d)
            return None if x is None else not x
        if op in ("and", "or"):
            xs = [self.truth(s, x, d) for x in b.a]
            if op == "and":
                if False in xs:
                    return False
                return True if None not in xs else None
            if True in xs:
                return True
            return False if None not in xs else None
        if op == "xor":
            xs = [self.truth(s, x, d) for x in b.a]
            if None in xs:
                return None
            return bool(sum(xs) & 1)
        if op == "eq":
            L, k = b.a
            p = self.ptr_eq(s, L, k)
            if p is not None:
                return p
            r = self.range(s, L, d)
            if not any(lo <= k <= hi for lo, hi in r):
                return False
            if rsize(r) == 1:
                return True
            fit = self.fits(L, k)
            if fit:
                rb = self.range(s, fit[0], d)
                if not rand(rb, fit[1]):
                    return False
                if rand(rb, fit[1]) == rb:
                    return True
            return None
        if op in ("slt", "ult"):
            x, y = b.a
            ra, rb = self.range(s, x, d), self.range(s, y, d)
            if not ra or not rb:
                return None
            df = sub(x, y)
            if isc(df):
                # x = y + k without wrapping
                k = sv(df)
                if any(z.op == "obj" and c == 1 for z, c in T.lin_parts(x)[1]):
                    return k < 0        # two places in one object
                if op == "ult":
                    lo, hi, L, H = rb[0][0], rb[-1][1], 0, (1 << x.w) - 1
                else:
                    lo, hi = T.rsbounds(rb, x.w)
                    L, H = -(1 << (x.w - 1)), (1 << (x.w - 1)) - 1
                if lo is not None and L <= lo + k and hi + k <= H:
                    return k < 0
            if op == "ult":
                if ra[-1][1] < rb[0][0]:
                    return True
                if ra[0][0] >= rb[-1][1]:
                    return False
            else:
                alo, ahi = T.rsbounds(ra, x.w)
                blo, bhi = T.rsbounds(rb, x.w)
                if ahi < blo:
                    return True
                if alo >= bhi:
                    return False
            return None
        if op == "cat" and b.w == 1:
            r = self.range(s, b, d + 1)
            if rsize(r) == 1:
                return bool(r[0][0])
        return None

    def fits(self, L, k):
        """L == k states that a term equals its own truncated and extended value: (term, the values for which it does)."""
        if L.op != "lin":
            return None
        w = L.w
        m = (1 << w) - 1
        for a, c in L.a[1]:
            if c not in (1, m) or a.op != "cat":
                continue
            nw = T.narrow(a)
            if not nw:
                continue
            rest = T.sub(L, C(k, w))
            b = T.sub(a, rest) if c == 1 else T.add(a, rest)
            n = nw[1].w
            if T.trunc(b, n) is nw[1]:
                return b, ((0, (1 << n) - 1),) if nw[0] == "z" else rsigned(-(1 << (n - 1)), (1 << (n - 1)) - 1, w)
        return None

    def ptr_eq(self, s, L, k):
        """Decide equality involving object addresses."""
        kk, ts = T.lin_parts(L)
        objs = [(x, c) for x, c in ts if x.op == "obj"]
        if not objs:
            if len(ts) == 1 and ts[0][0] in NONNULL and k == 0 and kk == 0:
                return False
            return None
        if len(objs) == 1:
            rest = [(x, c) for x, c in ts if x.op != "obj"]
            ptrs = [x for x, c in rest if x in PTRSYM]
            if not ptrs:
                # address (+ index) against a small integer constant: never equal
                v = signed(k - kk, 64)
                if objs[0][1] in (1, (1 << 64) - 1) and abs(v) < (4096 if rest else 1 << 24):
                    return False
                return None
            o = objs[0][0].a[0]
            if o.startswith("A:") or o.startswith("H:") or (o.startswith("g:") and (o[2:].startswith(".str") or o[2:] in self.m.funcs)):
                if not any(_names(x, o) for x in ptrs):
                    return False
            return None
        if len(objs) == 2 and len(ts) == 2:
            return False
        return None

    def assume(self, s, b, val=True):
        """Refine s with 1-bit term b == val.  Returns False when contradictory."""
        b = self.subst(s, b)
        if isc(b):
            return bool(cv(b)) == val
        if b.op == "not":
            return self.assume(s, b.a[0], not val)
        t = self.truth(s, b)
        if t is not None:
            return t == val
        s.rng[b] = ((1, 1),) if val else ((0, 0),)
        op = b.op
        if (op == "and" and val) or (op == "or" and not val):
            for x in b.a:
                if not self.assume(s, x, val):
                    return False
            return True
        if op in ("and", "or"):
            und = [x for x in b.a if self.truth(s, x) is None]
            if len(und) == 1:
                return self.assume(s, und[0], val)
            return True
        if op == "eq":
            L, k = b.a
            fit = self.fits(L, k)
            if fit:
                return self.limit(s, fit[0], fit[1] if val else rnot(fit[1], L.w))
            if val:
                return self.limit(s, L, ((k, k),))
            return self.limit(s, L, rnot(((k, k),), L.w))
        if op in ("ult", "slt"):
            x, y = b.a
            w = x.w
            m = (1 << w) - 1
            rx, ry = self.range(s, x), self.range(s, y)
            if not rx or not ry:
                return False
            if op == "ult":
                if val:
                    if ry[-1][1] == 0:
                        return False
                    a, c = ((0, ry[-1][1] - 1),), (((rx[0][0] + 1, m),) if rx[0][0] < m else ())
                else:
                    a, c = ((ry[0][0], m),), ((0, rx[-1][1]),)
            else:
                xl, xh = T.rsbounds(rx, w)
                yl, yh = T.rsbounds(ry, w)
                S0, S1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if val:
                    a, c = rsigned(S0, yh - 1, w), rsigned(xl + 1, S1, w)
                else:
                    a, c = rsigned(yl, S1, w), rsigned(S0, xh, w)
            ok = self.limit(s, x, a)
            if ok and not isc(y):
                ok = self.limit(s, y, c)
                rev = T._mk(op, 1, (y, x))
                if val:
                    s.rng[rev] = ((0, 0),)
                    e = eq(x, y)
                    if ok and not isc(e):
                        ok = self.assume(s, e, False)
                elif ok and s.rng.get(rev) == ((0, 0),):
                    ok = self.assume(s, eq(x, y), True)
            return ok
        return self.limit(s, b, ((1, 1),) if val else ((0, 0),))

    def limit(self, s, t, R):
        """range(t) := range(t) & R, propagated to sub-terms."""
        if t.op == "c":
            return any(lo <= cv(t) <= hi for lo, hi in R)
        cur = self.range(s, t)
        new = rand(cur, R)
        if not new:
            return False
        if new == cur and t in s.rng:
            return True
        if new != cur:
            s.rng[t] = new
        w = t.w
        op = t.op
        m = (1 << w) - 1
        if w == 1 and rsize(new) == 1 and op not in ("sym", "app", "cat"):
            return self.assume(s, t, bool(new[0][0]))
        if op == "lin":
            k, ts = t.a
            if len(ts) == 1 and ts[0][1] in (1, m):
                r = rshift(new, -k, w)
                if ts[0][1] == m:
                    r = rneg(r, w)
                return self.limit(s, ts[0][0], r)
            if k:
                if not self.limit(s, mklin(w, 0, ts), rshift(new, -k, w)):
                    return False
            if len(ts) == 2 and rsize(new) == 1 and k == 0 and ts[0][1] == 1 and ts[1][1] == m:
                x, y = ts[0][0], ts[1][0]
                v = new[0][0]
                # x == y + v
                if x.op in ("sym", "app") and x not in y.atoms and not (x.op == "app" and _has(y, x)):
                    s.sub[x] = mklin(w, v, [(y, 1)])
                    if x in PTRSYM and y.op in ("sym", "app"):
                        PTRSYM.add(y)
                elif y.op in ("sym", "app") and not (y.op == "app" and _has(x, y)) and y not in x.atoms:
                    s.sub[y] = mklin(w, -v, [(x, 1)])
                rx = self.range(s, x)
                if not self.limit(s, y, rshift(rx, -v, w)):
                    return False
                return self.limit(s, x, rshift(self.range(s, y), v, w))
            return True
        if op == "cat":
            nw = T.narrow(t)
            if nw:
                x = nw[1]
                mm = (1 << x.w) - 1
                if nw[0] == "z":
                    return self.limit(s, x, rand(new, ((0, mm),)))
                out = []
                h = 1 << (x.w - 1)
                for lo, hi in rand(new, T.rnorm([(0, h - 1), ((1 << w) - h, m)])):
                    if lo >= h:
                        out.append((lo & mm, hi & mm))
                    else:
                        out.append((lo, min(hi, h - 1)))
                return self.limit(s, x, T.rnorm(out))
            if len(t.a) == 1 and t.a[0][0] == "x":
                _, x, lo, n = t.a[0]
                if x.w <= 8:
                    r = [(v, v) for v in range(1 << x.w) if _in(new, (v >> lo) & ((1 << n) - 1))]
                    if not self.limit(s, x, T.rnorm(r)):
                        return False
                elif lo == 0:
                    # if x is known to fit in n bits the fact carries over
                    rx = self.range(s, x)
                    if rx and rx[-1][1] < (1 << n):
                        if not self.limit(s, x, new):
                            return False
                elif lo + n == x.w:
                    r = T.rnorm([(a << lo, ((b + 1) << lo) - 1) for a, b in new])
                    if not self.limit(s, x, r):
                        return False
                if rsize(new) == 1:
                    self.learn(s, x, ((1 << n) - 1) << lo, new[0][0] << lo)
            return True
        if op in ("sym", "app"):
            if rsize(new) == 1:
                s.sub[t] = C(new[0][0], w)
            elif w <= 8:
                vals = [v for lo, hi in new for v in range(lo, hi + 1)]
                a = m
                o = 0
                for v in vals:
                    a &= v
                    o |= v
                km = (a | (~o & m)) & m
                if km:
                    self.learn(s, t, km, a)
        return True

    def learn(self, s, x, mask, val):
        if x.op not in ("sym", "app"):
            return
        m, v = s.known.get(x, (0, 0))
        s.known[x] = (m | mask, (v & ~mask) | (val & mask))

    def fresh(self, s, site, w, isptr=False):
        n = s.cnt.get(site, 0)
        s.cnt[site] = n + 1
        t = sym("%s%s" % (site, "'%d" % n if n else ""), w)
        if isptr:
            PTRSYM.add(t)
        return t

    # ---------------------------------------------------------- operands
    def const_operand(self, v):
        k = v[0]
        if k == "c":
            return C(v[2], v[1])
        if k == "g":
            return obj("g:" + v[1])
        if k == "ce":
            if v[1] == "gep":
                return self.gep(v[2], [(t, self.const_operand(x)) for t, x in v[3]])
            if v[1] in ("ptrtoint", "inttoptr", "bitcast"):
                x = self.const_operand(v[3])
                n = v[4].n if v[4].k == "int" else 64
                return trunc(x, n) if n < x.w else zext(x, n)
            if v[1] == "bin":
                return T.BIN[v[2]](self.const_operand(v[4]), self.const_operand(v[5]))
        if k == "zero":
            return C(0, v[1].n if v[1].k == "int" else 64)
        raise AnalysisBroken("constant operand " + str(v)[:80])

    def gep(self, base, ops):
        p = ops[0][1]
        off = [(p, 1)]
        t = base
        k = 0
        for i, (ty, ix) in enumerate(ops[1:]):
            if i == 0:
                off.append((sext(ix, 64), t.size))
                continue
            if t.k == "arr":
                off.append((sext(ix, 64), t.e.size))
                t = t.e
            elif t.k == "struct":
                j = cv(ix)
                k += t.offs[j]
                t = t.e[j]
            else:
                raise AnalysisBroken("gep type")
        return mklin(64, k, off)

    def val(self, s, env, v):
        k = v[0]
        if k == "l":
            t = env.get(v[1])
            if t is None:
                raise AnalysisBroken("undefined local " + v[1])
            return t
        if k == "c":
            return C(v[2], v[1])
        if k == "undef":
            return sym("undef", v[1].n if v[1].k == "int" else 64)
        return self.const_operand(v)

    def where(self, inst):
        f, l = self.m.loc(inst.dbg)
        return "%s:%d (%s)" % (f, l, inst.fn)

    # ---------------------------------------------------------- execution
    def call(self, s, fname, args, inst=None):
        """Run function fname from s.  Returns list of (state, ret)."""
        f = self.m.funcs[fname]
        if len(self.stack) >= self.maxdepth:
            raise Budget("call depth at " + fname)
        self.stack.append(fname)
        self.extra.append(tuple(args[len(f.params):]))
        self.fns.add(fname)
        try:
            env = {}
            for i, p in enumerate(f.params):
                env[p] = args[i] if i < len(args) else sym("undefarg", 64)
            rets, exits, backs = self.region(f, None, [(f.entry, None, env, s)])
        finally:
            self.stack.pop()
            self.extra.pop()
        d = len(self.stack)
        pre = "A:%s." % self.frame(fname)
        out = []
        for st, rv in rets:
            # drop locals of the frame
            for k in [k for k in st.mem if k.startswith(pre)]:
                if rv is not None and rv.op != "c" and any(a.op == "obj" and a.a[0] == k for a in rv.atoms):
                    continue
                del st.mem[k]
            out.append((st, rv))
        return self.merge_rets(out)

    # -- one-iteration transfer function of a loop ------------------------
    def to_header(self, s, fname, args, header):
        """Run fname from s up to the loop header; returns [(env, state)]."""
        self.stop_at = (fname, header)
        self.collected = []
        try:
            self.call(s, fname, args)
        finally:
            self.stop_at = None
        r = self.collected
        self.collected = []
        return [(e, st) for e, st, _ in r]

    def iterate(self, fname, header, env, s):
        """One iteration of the loop; returns (rets, exits, backs) with backs = [(env, state)] at the header."""
        f = self.m.funcs[fname]
        L = f.loops[header]
        self.stack.append(fname)
        try:
            r, ex, bk = self.region(f, L, [(header, None, dict(env), s)])
            bk = self.merge_in([(self.enter(f, header, p, e, st), st) for p, e, st in bk])
        finally:
            self.stack.pop()
        return r, ex, bk

    def resume(self, fname, exits):
        """Continue the function after loop exits."""
        f = self.m.funcs[fname]
        self.stack.append(fname)
        try:
            r, ex, bk = self.region(f, None, exits)
        finally:
            self.stack.pop()
        return r

    def frame(self, fname=None):
        return "/".join(self.stack + ([fname] if fname else []))

    def merge_rets(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for st, rv in outs:
            k = (rv, self.memkey(st), st.trace, _notekey(st))
            g = groups.get(k)
            if g is None:
                groups[k] = (st, rv)
            else:
                self.joinfacts(g[0], st)
        return list(groups.values())

    def memkey(self, st):
        items = []
        for k, o in st.mem.items():
            b = self.base.get(k)
            if b is not None and b.key() == o.key():
                continue
            items.append((k, o.key()))
        return frozenset(items)

    def joinfacts(self, a, b):
        """Join path facts of b into a (same memory, env and trace)."""
        n = {}
        for k, r in a.rng.items():
            r2 = b.rng.get(k)
            if r2 is None:
                r2 = self.range(b, k)
            u = ror(r, r2)
            if u != rfull(k.w):
                n[k] = u
        for k, r2 in b.rng.items():
            if k not in a.rng:
                r = self.range(a, k)
                u = ror(r, r2)
                if u != rfull(k.w):
                    n[k] = u
        a.rng = n
        a.sub = {k: v for k, v in a.sub.items() if b.sub.get(k) is v}
        kn = {}
        for k, (m, v) in a.known.items():
            if k in b.known:
                m2, v2 = b.known[k]
                mm = m & m2 & ~(v ^ v2)
                if mm:
                    kn[k] = (mm, v & mm)
        a.known = kn
        a.strs = {k: v for k, v in a.strs.items() if b.strs.get(k) == v}
        for k, v in b.cnt.items():
            if a.cnt.get(k, 0) < v:
                a.cnt[k] = v

    def enter(self, f, bname, pred, env, s):
        """Environment on entry of block bname coming from pred."""
        b = f.blocks[bname]
        ne = {}
        for ph in b.phis:
            for pb, v in ph.a:
                if pb == pred:
                    ne[ph.res] = self.val(s, env, v)
                    break
            else:
                raise AnalysisBroken("phi without predecessor")
        for v in b.livein:
            if v not in ne and v in env:
                ne[v] = env[v]
        return ne

    def merge_in(self, items):
        """items: list of (env, state) at one block; merge equal ones."""
        if len(items) < 2:
            return items
        groups = {}
        for env, s in items:
            k = (frozenset(env.items()), self.memkey(s), s.trace, _notekey(s))
            g = groups.get(k)
            if g is None:
                groups[k] = (env, s)
            else:
                self.joinfacts(g[1], s)
        out = list(groups.values())
        if len(out) > self.max_states:
            out = self.force_join(out)
        return out

    def force_join(self, items):
        """Too many disjuncts: join those with equal traces, widening differences."""
        self.forced += 1
        groups = {}
        for env, s in items:
            groups.setdefault((s.trace, _notekey(s)), []).append((env, s))
        out = []
        for k, l in groups.items():
            if len(l) == 1:
                out.append(l[0])
                continue
            env, s = dict(l[0][0]), l[0][1]
            s = s.copy()
            for e2, s2 in l[1:]:
                for v in list(env):
                    if e2.get(v) is not env[v]:
                        env[v] = self.fresh(s, "join:" + v, env[v].w, env[v] in PTRSYM)
                for oid in set(s.mem) | set(s2.mem):
                    o1, o2 = self.getobj(s, oid), self.getobj(s2, oid)
                    if o1.key() != o2.key():
                        s.mem[oid] = self.join_obj(s, oid, o1, o2, "join")
                self.joinfacts(s, s2)
            out.append((env, s))
        if len(out) > self.max_states * 4:
            raise Budget("too many distinct traces")
        return out

    def join_obj(self, s, oid, o1, o2, tag):
        if o1.default != o2.default or o1.log != o2.log:
            self.havoc(s, oid, tag)
            return s.mem[oid]
        o = o1.mod()
        for off in set(o1.cells) | set(o2.cells):
            c = o1.cells.get(off) or o2.cells.get(off)
            n = c.w // 8
            a = self.load_const(s, oid, o1, off, n, False)
            b = self.load_const(s, oid, o2, off, n, False)
            if a is not b:
                self.put(o, off, self.fresh(s, "%s:%s[%d]" % (tag, oid, off), c.w, a in PTRSYM or b in PTRSYM))
        return o

    def region(self, f, loop, starts):
        """Run blocks of f inside `loop` (None = whole function) from starts
        [(block, pred, env, state)].  starts with pred None are already entered.
        Returns (returns, exits, backs)."""
        pend = {}
        heap = []
        rets, exits, backs = [], [], []

        def push(b, pred, env, s):
            if loop is not None and b == loop.header and pred is not None:
                backs.append((pred, env, s))
                return
            if loop is not None and b not in loop.blocks:
                exits.append((b, pred, env, s))
                return
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (f.blocks[b].rpo, b))
            pend[b].append((pred, env, s))
        for b, pred, env, s in starts:
            push(b, pred, env, s)
        while heap:
            _, b = heapq.heappop(heap)
            l = pend.pop(b)
            items = []
            for pred, env, s in l:
                items.append((env if pred is None else self.enter(f, b, pred, env, s), s))
            items = self.merge_in(items)
            L = f.loops.get(b)
            if self.stop_at == (f.name, b) and not (loop is not None and b == loop.header):
                self.collected += [(env, s, tuple(self.stack)) for env, s in items]
                continue
            if L is not None and L is not loop:
                for env, s in items:
                    r, e = self.loop(f, L, env, s)
                    rets += r
                    for x in e:
                        push(*x)
            else:
                for env, s in items:
                    for x in self.block(f, b, env, s, rets):
                        push(*x)
        return rets, exits, backs

    def block(self, f, bname, env, s, rets):
        """Execute one block; returns successor items."""
        b = f.blocks[bname]
        self.blocks.add((f.name, bname))
        out = []
        work = [(0, env, s)]
        while work:
            i, env, s = work.pop()
            done = False
            n = len(b.insts)
            try:
                while i < n:
                    ins = b.insts[i]
                    i += 1
                    self.steps += 1
                    if self.steps > self.limit_steps:
                        raise Budget("step budget exceeded in " + f.name)
                    op = ins.op
                    if op == "phi":
                        continue
                    if op == "call":
                        res = self.docall(f, ins, env, s)
                        if not res:
                            done = True
                            break
                        for st, rv in res[1:]:
                            e2 = dict(env)
                            if ins.res:
                                e2[ins.res] = rv
                            work.append((i, e2, st))
                        if len(res) > 1:
                            env = dict(env)
                        s, rv = res[0]
                        if ins.res:
                            env[ins.res] = rv
                        continue
                    if op == "select":
                        c = self.subst(s, self.val(s, env, ins.a[0]))
                        t = self.truth(s, c)
                        if t is None:
                            s2 = s.copy()
                            if self.assume(s2, c, False):
                                e2 = dict(env)
                                e2[ins.res] = self.val(s2, env, ins.a[2])
                                work.append((i, e2, s2))
                            if not self.assume(s, c, True):
                                done = True
                                break
                            t = True
                            env = dict(env)
                        env[ins.res] = self.val(s, env, ins.a[1] if t else ins.a[2])
                        continue
                    if op == "br":
                        if ins.a[0] is None:
                            out.append((ins.a[1], bname, env, s))
                        else:
                            c = self.subst(s, self.val(s, env, ins.a[0]))
                            t = self.truth(s, c)
                            if t is not None:
                                out.append((ins.a[1] if t else ins.a[2], bname, env, s))
                            else:
                                s2 = s.copy()
                                if self.assume(s, c, True):
                                    out.append((ins.a[1], bname, env, s))
                                if self.assume(s2, c, False):
                                    out.append((ins.a[2], bname, env, s2))
                        done = True
                        break
                    if op == "switch":
                        v = self.subst(s, self.val(s, env, ins.a[0]))
                        left = s
                        for k, tgt in ins.a[2]:
                            c = eq(v, C(k, v.w))
                            t = self.truth(left, c)
                            if t is True:
                                out.append((tgt, bname, env, left))
                                left = None
                                break
                            if t is False:
                                continue
                            s2 = left.copy()
                            if self.assume(s2, c, True):
                                out.append((tgt, bname, env, s2))
                            if not self.assume(left, c, False):
                                left = None
                                break
                        if left is not None:
                            out.append((ins.a[1], bname, env, left))
                        done = True
                        break
                    if op == "ret":
                        rv = self.subst(s, self.val(s, env, ins.a[0])) if ins.a[0] is not None else None
                        rets.append((s, rv))
                        done = True
                        break
                    if op == "unreachable":
                        done = True
                        break
                    if op == "store":
                        v = self.val(s, env, ins.a[0])
                        self.store(s, self.val(s, env, ins.a[1]), self.subst(s, v), ins)
                        continue
                    env[ins.res] = self.simple(s, env, ins)
            except Stop:
                continue
        # the env dict may be shared between successors; they are copied on entry
        return out

    def simple(self, s, env, ins):
        op = ins.op
        a = ins.a
        if op in T.BIN:
            x, y = self.subst(s, self.val(s, env, a[0])), self.subst(s, self.val(s, env, a[1]))
            if op in ("sdiv", "udiv", "srem", "urem") and self.on_div:
                self.on_div(s, op, x, y, ins)
            if op in ("sdiv", "srem") and isc(y) and sv(y) > 0 and not isc(x):
                lo = T.rsbounds(self.range(s, x), x.w)[0]
                if lo is not None and lo >= 0:
                    op = "udiv" if op == "sdiv" else "urem"
            return T.BIN[op](x, y)
        if op == "icmp":
            x, y = self.subst(s, self.val(s, env, a[2])), self.subst(s, self.val(s, env, a[3]))
            c = T.icmp(a[0], x, y)
            if not isc(c):
                t = self.truth(s, c)
                if t is not None:
                    return C(1 if t else 0, 1)
            return c
        if op == "trunc":
            return trunc(self.subst(s, self.val(s, env, a[1])), ins.ty.n)
        if op == "zext":
            return zext(self.subst(s, self.val(s, env, a[1])), ins.ty.n)
        if op == "sext":
            return sext(self.subst(s, self.val(s, env, a[1])), ins.ty.n)
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            x = self.val(s, env, a[1])
            n = ins.ty.n if ins.ty.k == "int" else 64
            return trunc(x, n) if n < x.w else zext(x, n)
        if op == "freeze":
            return self.val(s, env, a[0])
        if op == "load":
            n = ins.ty.size
            r = self.load(s, self.val(s, env, a[0]), n, ins.ty.k == "ptr", ins)
            r = self.subst(s, r)
            if ins.ty.k == "int" and ins.ty.n < r.w:
                r = trunc(r, ins.ty.n)
            return r
        if op == "getelementptr":
            return self.gep(a[0], [(t, self.subst(s, self.val(s, env, v))) for t, v in a[1]])
        if op == "alloca":
            n = 1
            if a[0] is not None:
                n = cv(self.val(s, env, a[0]))
            oid = "A:%s.%s" % (self.frame(), ins.res)
            s.mem[oid] = Obj("undef", ins.ty.size * n)
            return obj(oid)
        raise AnalysisBroken("instruction " + op)

    def docall(self, f, ins, env, s):
        callee, args = ins.a
        av = [self.subst(s, self.val(s, env, v)) for _, v in args]
        self.calls.add((ins.fn, ins.n))
        if callee[0] == "g":
            return self.invoke(s, callee[1], av, ins)
        p = self.subst(s, self.val(s, env, callee))
        if p.op == "obj" and p.a[0].startswith("g:"):
            return self.invoke(s, p.a[0][2:], av, ins)
        return self.indirect(s, p, av, ins)

    def indirect(self, s, p, av, ins):
        h = self.models.get("*indirect")
        if h:
            return self.result(h(self, s, [p] + av, ins), s, ins)
        s.ev("callptr", p, tuple(av))
        return self.opaque(s, "indirect", ins)

    def result(self, r, s, ins):
        """Normalise a model's result to a list of (state, ret)."""
        if r == "stop":
            return []
        if isinstance(r, list):
            return r
        if r is None and ins is not None and ins.ty.k != "void":
            r = self.fresh(s, "%s@%s" % (self.site(ins), "ret"), ins.ty.n if ins.ty.k == "int" else 64, ins.ty.k == "ptr")
        return [(s, r)]

    def site(self, ins):
        return "%s.%d" % ("/".join(self.stack[-3:]), ins.n)

    def opaque(self, s, name, ins):
        if ins.ty.k == "void":
            return [(s, None)]
        return [(s, self.fresh(s, "%s@%s" % (name, self.site(ins)), ins.ty.n if ins.ty.k == "int" else 64, ins.ty.k == "ptr"))]

    def invoke(self, s, name, av, ins):
        if self.on_call:
            self.on_call(s, name, av, ins)
        h = self.models.get(name)
        if h is not None:
            return self.result(h(self, s, av, ins), s, ins)
        if name in self.m.funcs:
            if self.stack.count(name) >= self.recursion:
                h = self.models.get("*recursive")
                if h:
                    return self.result(h(self, s, av, ins), s, ins)
                s.ev("recursive", name)
                return self.opaque(s, name, ins)
            try:
                return self.call(s, name, av, ins)
            except Stop:
                return []
        if name.startswith("llvm.va_") or name in VPRINTF:
            return self.variadic(s, name, av, ins)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.result(LIB["memcpy"](self, s, av, ins), s, ins)
        if name.startswith("llvm.memset"):
            return self.result(LIB["memset"](self, s, [av[0], zext(av[1], 32), av[2]], ins), s, ins)
        return self.opaque(s, name, ins)

    def variadic(self, s, name, av, ins):
        """Argument lists of functions with a variable number of arguments, and the printing functions that take one."""
        if name in VPRINTF:
            k = VPRINTF[name]
            oid, off = self.resolve(s, av[k])
            a = s.note.get("va:%s" % oid)
            if a is None:
                raise AnalysisBroken("argument list of %s" % name)
            return self.invoke(s, name[1:], list(av[:k]) + list(a), ins)
        oid, off = self.resolve(s, av[0])
        if name.startswith("llvm.va_start"):
            s.note["va:%s" % oid] = self.extra[-1]
        elif name.startswith("llvm.va_copy"):
            o2, off = self.resolve(s, av[1])
            s.note["va:%s" % oid] = s.note.get("va:%s" % o2, ())
        elif name.startswith("llvm.va_end"):
            s.note.pop("va:%s" % oid, None)
        return [(s, None)]

    # ------------------------------------------------------------- loops
    def loop(self, f, L, env, s):
        """Returns (rets, exits)."""
        rets, exits = [], []
        lim = self.undecided_unroll.get(f.name, self.undecided_unroll.get("*", 0))
        if isinstance(lim, dict):
            lim = lim.get(L.header, lim.get("*", 0))
        cur = [(env, s)]
        it = 0
        s0 = s.copy()
        env0 = dict(env)
        ok = True
        nexits0 = len(self.exits)
        while cur:
            it += 1
            if it > self.unroll or (lim and it > lim):
                ok = False
                break
            nxt = []
            for e, st in cur:
                r, ex, bk = self.region(f, L, [(L.header, None, dict(e), st)])
                if bk and (ex or r) and not lim:
                    ok = False
                    break
                rets += r
                exits += ex
                nxt += bk
            if not ok:
                break
            items = [(self.enter(f, L.header, p, e, st), st) for p, e, st in nxt]
            cur = self.merge_in(items)
        if ok:
            return rets, exits
        del self.exits[nexits0:]
        if lim == -1:
            raise Budget("loop not bounded in " + f.name)
        return self.loop_fix(f, L, env0, s0)

    def loop_fix(self, f, L, env, s):
        hid = "%s%s" % (self.frame(), L.header)
        n = s.cnt.get(hid, 0)
        s.cnt[hid] = n + 1
        tag = "%s#%d" % (hid.split("/")[-1], n) if n else hid.split("/")[-1]
        T0 = s.trace
        H = s.copy()
        H.trace = ()
        He = dict(env)
        wid = {}          # location -> (symbol, initial value)
        mono = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Budget("loop fixpoint does not converge in " + f.name)
            mark = len(self.exits)
            lmark = len(self.loop_log)
            r, ex, bk = self.region(f, L, [(L.header, None, dict(He), H.copy())])
            changed = False
            backs = [(self.enter(f, L.header, p, e, st), st) for p, e, st in bk]
            for e, st in backs:
                for v in list(He):
                    if e.get(v) is not He[v] and ("e", v) not in wid:
                        nv, base = self.widen(H, tag + "~" + v, He[v], e.get(v))
                        wid[("e", v)] = (nv, He[v])
                        He[v] = base
                        changed = True
                for oid in set(st.mem) | set(H.mem):
                    o1, o2 = self.getobj(H, oid), self.getobj(st, oid)
                    if o1 is o2 or o1.key() == o2.key():
                        continue
                    if oid not in H.mem and oid.startswith("H:"):
                        continue      # allocated in the body
                    if o1.default != o2.default or (o1.log != o2.log):
                        if ("o", oid) not in wid:
                            wid[("o", oid)] = (None, None)
                            H.cnt[("havoc", oid)] = H.cnt.get(("havoc", oid), 0) + 1
                            H.mem[oid] = Obj(("lazy", "%s.%d" % (tag, H.cnt[("havoc", oid)])), o1.size)
                            changed = True
                        continue
                    if ("o", oid) in wid:
                        continue
                    o = None
                    for off in sorted(set(o1.cells) | set(o2.cells)):
                        c = o2.cells.get(off)
                        if c is None:
                            c = o1.cells[off]
                        nb = c.w // 8
                        a = self.load_const(H, oid, o1, off, nb, False)
                        b = self.load_const(st, oid, o2, off, nb, False)
                        if a is b:
                            continue
                        if ("m", oid, off) in wid and wid[("m", oid, off)][0] is a:
                            continue
                        nv, base = self.widen(H, "%s~%s[%d]" % (tag, oid, off), a, b)
                        wid[("m", oid, off)] = (nv, a)
                        if o is None:
                            o = o1.mod()
                        self.put(o, off, base)
                        changed = True
                    if o is not None:
                        H.mem[oid] = o
                if changed:
                    break
            if changed:
                del self.exits[mark:]
                del self.loop_log[lmark:]
                mono = {}
                continue
            # monotone steps
            newm = False
            for key, (nv, v0) in wid.items():
                if nv is None or key in mono:
                    continue
                steps = set()
                for e, st in backs:
                    if key[0] == "e":
                        b = e.get(key[1])
                        h = He[key[1]]
                    else:
                        h = self.load_const(H, key[1], self.getobj(H, key[1]), key[2], max(1, nv.w // 8) if False else self.cellw(H, key), False)
                        b = self.load_const(st, key[1], self.getobj(st, key[1]), key[2], self.cellw(H, key), False)
                    d = sub(b, h) if b is not None and b.w == h.w else None
                    if d is None or not isc(d):
                        # difference bounded by facts?
                        if d is not None:
                            lo, hi = T.rsbounds(self.range(st, d), d.w)
                            if lo is not None and lo >= 0:
                                steps.add(1)
                                continue
                            if hi is not None and hi <= 0:
                                steps.add(-1)
                                continue
                        steps = None
                        break
                    v = sv(d)
                    if v:
                        steps.add(1 if v > 0 else -1)
                if steps and len(steps) == 1:
                    mono[key] = True
                    up = 1 in steps
                    w = nv.w
                    S0, S1 = -(1 << (w - 1)), (1 << (w - 1)) - 1
                    init = v0 if v0.w == w and v0 not in PTRSYM and not any(a.op == "obj" for a in v0.atoms) else None
                    if nv not in PTRSYM and init is None:
                        init = self.offset_of(v0)
                    if init is not None:
                        if isc(init):
                            R = rsigned(sv(init), S1, w) if up else rsigned(S0, sv(init), w)
                            self.limit(H, nv, R)
                        else:
                            lo, hi = T.rsbounds(self.range(H, init), w)
                            self.limit(H, sub(nv, init), rsigned(0, S1, w) if up else rsigned(S0, 0, w))
                            if lo is not None:
                                self.limit(H, nv, rsigned(lo, S1, w) if up else rsigned(S0, hi, w))
                        newm = True
            if newm:
                del self.exits[mark:]
                del self.loop_log[lmark:]
                continue
            break
        iters = frozenset(st.trace for e, st in backs)
        self.loop_log.append((f.name, L.header, (He, H), backs, wid))
        pre = T0
        if iters - {()}:
            pre = T0 + (("loop", tag, iters),)
        rr, ee = [], []
        for st, rv in r:
            st.trace = pre + st.trace
            rr.append((st, rv))
        for b, p, e, st in ex:
            st.trace = pre + st.trace
            ee.append((b, p, e, st))
        for i in range(mark, len(self.exits)):
            k, st, ins = self.exits[i]
            st.trace = pre + st.trace
        return rr, ee

    def cellw(self, H, key):
        c = self.getobj(H, key[1]).cells.get(key[2])
        return c.w // 8 if c is not None else 1

    def offset_of(self, v):
        k, ts = T.lin_parts(v)
        rest = [(x, c) for x, c in ts if x.op != "obj" and x not in PTRSYM]
        return mklin(v.w, k, rest)

    def widen(self, H, name, a, b):
        """Fresh symbol for a loop-carried location; pointers keep their object."""
        if b is not None and a.w == 64:
            oa = self.ptrbase(a)
            ob = self.ptrbase(b)
            if oa is not None and oa is ob:
                s_ = sym(name + ".off", 64)
                return s_, add(oa, s_)
        isptr = a in PTRSYM or (b is not None and b in PTRSYM) or self.ptrbase(a) is not None or (
            b is not None and self.ptrbase(b) is not None)
        s_ = sym(name, a.w)
        if isptr and a.w == 64:
            PTRSYM.add(s_)
        return s_, s_

    def ptrbase(self, v):
        if v.w != 64 or isc(v):
            return None
        k, ts = T.lin_parts(v)
        for x, c in ts:
            if c == 1 and x.op == "obj":
                return x
        for x, c in ts:
            if c == 1 and x in PTRSYM:
                return x
        return None


def _notekey(st):
    """Partition key besides environment, memory and trace: notes and known string contents."""
    return (frozenset(st.note.items()) if st.note else None, frozenset(st.strs.items()) if st.strs else None)


def _in(r, v):
    return any(lo <= v <= hi for lo, hi in r)


def _names(x, o):
    return False


_happ = {}


def _has_app(t):
    r = _happ.get(t)
    if r is None:
        if t.op == "app":
            r = True
        elif t.op in ("c", "sym", "obj"):
            r = False
        elif t.op == "lin":
            r = any(_has_app(x) for x, _ in t.a[1])
        elif t.op == "cat":
            r = any(p[0] != "c" and _has_app(p[1]) for p in t.a)
        else:
            r = any(isinstance(x, T.T) and _has_app(x) for x in t.a)
        _happ[t] = r
    return r


def _has(t, x):
    if t is x:
        return True
    if t.op in ("c", "sym", "obj"):
        return False
    if t.op == "lin":
        return any(_has(y, x) for y, _ in t.a[1])
    if t.op == "cat":
        return any(p[0] != "c" and _has(p[1], x) for p in t.a)
    return any(isinstance(y, T.T) and _has(y, x) for y in t.a)


# ------------------------------------------------------------ library models

def ctype_image():
    b = bytearray(768)
    for c in range(256):
        v = 0
        if c < 128:
            ch = chr(c)
            if "A" <= ch <= "Z":
                v |= 0x100
            if "a" <= ch <= "z":
                v |= 0x200
            if ch.isalpha():
                v |= 0x400
            if "0" <= ch <= "9":
                v |= 0x800
            if ch in "0123456789abcdefABCDEF":
                v |= 0x1000
            if ch in " \t\n\v\f\r":
                v |= 0x2000
            if 32 <= c < 127:
                v |= 0x4000
            if 32 < c < 127:
                v |= 0x8000
            if ch in " \t":
                v |= 1
            if c < 32 or c == 127:
                v |= 2
            if 32 < c < 127 and not ch.isalnum():
                v |= 4
            if ch.isalnum():
                v |= 8
        b[256 + 2 * c:256 + 2 * c + 2] = v.to_bytes(2, "little")
    return bytes(b)


def cstring(I, s, p, limit=70000):
    """Constant NUL-terminated string at p, or None."""
    try:
        oid, off = I.resolve(s, p)
    except AnalysisBroken:
        return None
    if oid is None or not isc(off):
        return None
    o = I.getobj(s, oid)
    k = sv(off)
    if o.img is not None and not o.cells and not o.log and not o.rel:
        e = o.img.find(b"\0", k)
        return o.img[k:e] if e >= 0 else None
    out = bytearray()
    for i in range(limit):
        if o.log and not all(I.disjoint(s, C(k + i, 64), 1, l[0], l[2]) for l in o.log):
            return None
        t = I.load_const(s, oid, o, k + i, 1, False)
        t = I.subst(s, t)
        if not isc(t):
            return None
        if cv(t) == 0:
            return bytes(out)
        out.append(cv(t))
    return None


def strid(I, s, p):
    """Identity of the string content at p."""
    c = cstring(I, s, p)
    if c is not None:
        return c
    oid, off = I.resolve(s, p)
    if oid is None:
        return None
    o = I.getobj(s, oid)
    k = (oid, off, I.ver(o) if (o.cells or o.log) else str(o.default))
    return s.strs.get(k, k)


def m_strcmp(ci, nlimited=False):
    def f(I, s, a, ins):
        x, y = strid(I, s, a[0]), strid(I, s, a[1])
        if nlimited:
            if isinstance(x, bytes) and isinstance(y, bytes) and isc(a[2]):
                x, y = x[:cv(a[2])], y[:cv(a[2])]
            else:
                return T.app("strncmp", 32, str(x), str(y), a[2])
        if isinstance(x, bytes) and isinstance(y, bytes):
            if ci:
                x, y = x.lower(), y.lower()
            return C(0 if x == y else (-1 if x < y else 1), 32)
        if x == y:
            return C(0, 32)
        if isinstance(x, bytes):
            x, y = y, x
        yy = y.lower() if ci and isinstance(y, bytes) else y
        t = T.app("strcmp%d" % ci, 32, _sk(x), _sk(yy))
        STRAPP[t] = (x, yy, ci)
        if isinstance(y, bytes):
            known = s.strs.get(("eq", x))
            if known is not None:
                kv, kci = known
                if ci and kci:
                    return C(0 if kv == yy else 1, 32)
                if not ci and not kci:
                    return C(0 if kv == y else 1, 32)
                if ci:
                    return C(0 if kv.lower() == yy else 1, 32)
                if kv.lower() != y.lower():
                    return C(1, 32)
            # fork so that the equality is recorded
            tr = I.truth(s, eq(t, C(0, 32)))
            if tr is not None:
                return C(0, 32) if tr else t
            s2 = s.copy()
            out = []
            if I.assume(s2, eq(t, C(0, 32)), True):
                s2.strs[("eq", x)] = (yy if ci else y, ci)
                out.append((s2, C(0, 32)))
            if I.assume(s, eq(t, C(0, 32)), False):
                out.append((s, t))
            return out
        return t
    return f


STRAPP = {}


def _sk(x):
    return x if isinstance(x, (bytes, str)) else str(x)


def m_strlen(I, s, a, ins):
    x = strid(I, s, a[0])
    if isinstance(x, bytes):
        return C(len(x), 64)
    k = s.strs.get(("eq", x))
    if k:
        return C(len(k[0]), 64)
    b = bytes_at(I, s, a[0])
    if b is not None:
        return C(len(b), 64)
    t = T.app("strlen", 64, _sk(x))
    I.limit(s, t, ((0, 1 << 30),))
    return t


def m_memcpy(I, s, a, ins):
    n = a[2]
    if isc(n) and cv(n) <= 4096:
        so, sf = I.resolve(s, a[1])
        do, df = I.resolve(s, a[0])
        if so and do and isc(sf) and isc(df):
            so_ = I.getobj(s, so)
            if not so_.log and not I.getobj(s, do).log:
                o = I.getobj(s, do).mod()
                k = cv(n)
                a0, b0 = sv(sf), sv(df)
                if so_.cells or so_.img is not None or so_.default == "zero":
                    i = 0
                    while i < k:
                        c = so_.cells.get(a0 + i)
                        st = 8 if (a0 + i) % 8 == 0 and i + 8 <= k else 1
                        if c is not None and i + c.w // 8 <= k:
                            st = c.w // 8
                        I.put(o, b0 + i, I.load_const(s, so, so_, a0 + i, st, False))
                        i += st
                    s.mem[do] = o
                    return a[0]
    do, df = I.resolve(s, a[0])
    if do:
        I.havoc(s, do, "cpy")
    return a[0]


def m_memset(I, s, a, ins):
    do, df = I.resolve(s, a[0])
    if do is None:
        return a[0]
    o = I.getobj(s, do)
    n, v = a[2], a[1]
    if isc(df) and sv(df) == 0 and isc(v) and cv(v) == 0 and (
            (isc(n) and o.size is not None and cv(n) >= o.size) or (o.size is None and isc(n))):
        s.mem[do] = Obj("zero", o.size if o.size is not None else cv(n))
    elif isc(df) and isc(n) and cv(n) <= 2048:
        o = o.mod()
        for i in range(cv(n)):
            I.put(o, sv(df) + i, extract(v, 0, 8))
        s.mem[do] = o
    else:
        I.havoc(s, do, "set")
    return a[0]


def m_strcpy(I, s, a, ins):
    c = cstring(I, s, a[1])
    do, df = I.resolve(s, a[0])
    if do is None:
        return a[0]
    src = strid(I, s, a[1])
    if c is not None and isc(df):
        o = I.getobj(s, do).mod()
        for i, ch in enumerate(c + b"\0"):
            I.put(o, sv(df) + i, C(ch, 8))
        s.mem[do] = o
        return a[0]
    b = bytes_at(I, s, a[1])
    if b is not None and write_bytes(I, s, a[0], b + [C(0, 8)]):
        return a[0]
    I.havoc(s, do, "str")
    if isc(df):
        o = I.getobj(s, do)
        k = (do, df, str(o.default))
        s.strs[k] = src
    return a[0]


def bytes_at(I, s, p, limit=70000):
    """Byte terms of the NUL-terminated string at p (terminator decided), or None."""
    try:
        oid, off = I.resolve(s, p)
    except AnalysisBroken:
        return None
    if oid is None or not isc(off):
        return None
    o = I.getobj(s, oid)
    k = sv(off)
    if o.img is not None and not o.cells and not o.log and not o.rel:
        e = o.img.find(b"\0", k)
        return [C(b, 8) for b in o.img[k:e]] if e >= 0 else None
    if isinstance(o.default, tuple) and not o.cells and not o.log:
        return None
    out = []
    for i in range(limit):
        if o.log and not all(I.disjoint(s, C(k + i, 64), 1, l[0], l[2]) for l in o.log):
            return None
        t = I.subst(s, I.load_const(s, oid, o, k + i, 1, False))
        if isc(t):
            if cv(t) == 0:
                return out
        elif any(lo == 0 for lo, hi in I.range(s, t)):
            return None
        out.append(t)
    return None


def write_bytes(I, s, p, bs):
    """Store byte terms at p; False if the place is not determined."""
    do, df = I.resolve(s, p)
    if do is None or not isc(df):
        return False
    o = I.getobj(s, do)
    if o.log:
        return False
    o = o.mod()
    for i, b in enumerate(bs):
        I.put(o, sv(df) + i, b)
    s.mem[do] = o
    return True


def format_bytes(I, s, fp, args):
    """Result of a printf-style format as byte terms, or None if not determined.
    A number of fixed printed width that is not constant gives opaque digits."""
    f = cstring(I, s, fp)
    if f is None:
        return None
    f = f.decode("latin-1")
    out = []
    i = 0
    args = list(args)
    while i < len(f):
        ch = f[i]
        if ch != "%":
            out.append(C(ord(ch), 8))
            i += 1
            continue
        i += 1
        fl = ""
        while i < len(f) and f[i] in "-+ #0":
            fl += f[i]
            i += 1
        wid = prec = None
        num = ""
        if i < len(f) and f[i] == "*":
            v = I.subst(s, args.pop(0))
            if not isc(v):
                return None
            num = sv(v)
            i += 1
        else:
            while i < len(f) and f[i].isdigit():
                num += f[i]
                i += 1
        if num != "":
            wid = int(num)
        if i < len(f) and f[i] == ".":
            i += 1
            num = ""
            if i < len(f) and f[i] == "*":
                v = I.subst(s, args.pop(0))
                if not isc(v):
                    return None
                prec = sv(v)
                i += 1
            else:
                while i < len(f) and f[i].isdigit():
                    num += f[i]
                    i += 1
                prec = int(num or 0)
        mod = ""
        while i < len(f) and f[i] in "hlzjt":
            mod += f[i]
            i += 1
        if i >= len(f):
            return None
        cv_ = f[i]
        i += 1
        if cv_ == "%":
            out.append(C(37, 8))
            continue
        if not args:
            return None
        v = I.subst(s, args.pop(0))
        if cv_ == "s":
            if isc(v) and cv(v):
                return None
            b = [C(c, 8) for c in b"(null)"] if isc(v) else bytes_at(I, s, v)
            if b is None:
                if prec is None:
                    return None
                b = []
                for k in range(prec):
                    t = I.subst(s, I.load(s, add(v, C(k, 64)), 1))
                    if isc(t) and cv(t) == 0:
                        break
                    if not isc(t) and any(lo == 0 for lo, hi in I.range(s, t)):
                        return None
                    b.append(t)
            elif prec is not None:
                b = b[:prec]
        elif cv_ == "c":
            b = [extract(v, 0, 8)]
        elif cv_ in "dioxXu":
            w = 64 if mod and mod[0] in "lzjt" else 32
            v = extract(v, 0, w) if v.w > w else v
            if isc(v):
                n = sv(v) if cv_ in "di" else cv(v)
                g = "d" if cv_ in "diu" else cv_
                spec = "%" + fl + (str(wid) if wid is not None else "") + ("." + str(prec) if prec is not None else "") + g
                b = [C(ord(x), 8) for x in spec % n]
                wid = None
            else:
                if wid is None and prec is None:
                    return None
                base = {"d": 10, "i": 10, "u": 10, "o": 8, "x": 16, "X": 16}[cv_]
                m = wid or prec
                R = I.range(s, v)
                if "0" not in fl or R[-1][1] >= base ** m:
                    return None
                b = [T.app("digit", 8, cv_, m - 1 - k, v) for k in range(m)]
                for x in b:
                    I.limit(s, x, ((48, 57), (97, 102)) if cv_ == "x" else ((48, 57), (65, 70)) if cv_ == "X" else ((48, 57),))
                wid = None
        elif cv_ == "p":
            return None
        else:
            return None
        if wid is not None and len(b) < wid:
            pad = [C(32, 8)] * (wid - len(b))
            b = b + pad if "-" in fl else pad + b
        out += b
    return out


def m_sprintf(I, s, a, ins):
    b = format_bytes(I, s, a[1], a[2:])
    if b is not None and write_bytes(I, s, a[0], b + [C(0, 8)]):
        return C(len(b), 32)
    m_havocdst(I, s, a, ins)
    return None


def m_snprintf(I, s, a, ins):
    b = format_bytes(I, s, a[2], a[3:])
    n = I.subst(s, a[1])
    if b is not None and isc(n):
        k = cv(n)
        if k == 0 or write_bytes(I, s, a[0], b[:k - 1] + [C(0, 8)]):
            return C(len(b), 32)
    m_havocdst(I, s, a, ins)
    return None


def m_strcat(I, s, a, ins):
    x, y = bytes_at(I, s, a[0]), bytes_at(I, s, a[1])
    if x is not None and y is not None and write_bytes(I, s, add(a[0], C(len(x), 64)), y + [C(0, 8)]):
        return a[0]
    m_havocdst(I, s, a, ins)
    return a[0]


def m_strncpy(I, s, a, ins):
    y = bytes_at(I, s, a[1])
    n = I.subst(s, a[2])
    if y is not None and isc(n) and cv(n) <= 4096:
        k = cv(n)
        if write_bytes(I, s, a[0], (y + [C(0, 8)] * max(0, k - len(y)))[:k]):
            return a[0]
    m_havocdst(I, s, a, ins)
    return a[0]


def m_memcmp(I, s, a, ins):
    n = I.subst(s, a[2])
    if not isc(n) or cv(n) > 4096:
        return None
    und = False
    for i in range(cv(n)):
        x = I.subst(s, I.load(s, add(a[0], C(i, 64)), 1))
        y = I.subst(s, I.load(s, add(a[1], C(i, 64)), 1))
        t = I.truth(s, eq(x, y))
        if t is False:
            if und:
                return T.app("memcmp", 32, a[0], a[1], n)
            if isc(x) and isc(y):
                return C(-1 if cv(x) < cv(y) else 1, 32)
            r = T.app("memcmp", 32, x, y)
            I.limit(s, r, rnot(((0, 0),), 32))
            return r
        if t is None:
            und = True
    if und:
        return None
    return C(0, 32)


def scan(I, s, p, stop, limit=4096, partitions=64):
    """Walk over text: [(state, index, byte)] where stop (a list of bytes) is met or, byte None, where the text ends; None if undecided."""
    cur, out, n = [s], [], 0

    def part(st, c):
        """(states where c holds, states where it does not)"""
        t = I.truth(st, c)
        if t is not None:
            return ([st], []) if t else ([], [st])
        s2 = st.copy()
        return ([s2] if I.assume(s2, c, True) else []), ([st] if I.assume(st, c, False) else [])
    while cur:
        if n >= limit:
            return None
        nxt = []
        for st in cur:
            try:
                oid, off = I.resolve(st, p)
            except AnalysisBroken:
                return None
            if oid is None:
                return None
            o = I.getobj(st, oid)
            if o.size is not None and isc(off) and sv(off) + n >= o.size:
                return None
            x = I.subst(st, I.load(st, add(p, C(n, 64)), 1))
            y, z = part(st, eq(x, C(0, 8)))
            out += [(q, n, None) for q in y]
            for c in stop:
                m = []
                for q in z:
                    yes, no = part(q, eq(x, c))
                    out += [(r, n, c) for r in yes]
                    m += no
                z = m
            nxt += z
        cur = nxt
        n += 1
        if len(out) + len(cur) > partitions:
            return None
    return out


def m_strchr(I, s, a, ins):
    c = I.subst(s, a[1])
    c = I.subst(s, T.extract(c, 0, 8))
    b = bytes_at(I, s, a[0])
    if isc(c) and cv(c) == 0:
        return add(a[0], C(len(b), 64)) if b is not None else None
    r = scan(I, s.copy(), a[0], [c])
    if r is None:
        return None
    out = []
    for st, i, x in r:
        if x is None and not isc(c):
            # the terminator is found as well
            z = st.copy()
            if I.assume(z, eq(c, C(0, 8)), True):
                out.append((z, add(a[0], C(i, 64))))
            if not I.assume(st, eq(c, C(0, 8)), False):
                continue
        out.append((st, add(a[0], C(i, 64)) if x is not None else C(0, 64)))
    return out


def m_span(kind):
    """strcspn, strpbrk: position of the first byte of a set; strspn: of the first byte not in it."""
    def f(I, s, a, ins):
        cs = cstring(I, s, a[1])
        if cs is None:
            return None
        if kind == "strspn":
            b = cstring(I, s, a[0])
            return C(len(b) - len(b.lstrip(cs)), 64) if b is not None and cs else None
        r = scan(I, s.copy(), a[0], [C(c, 8) for c in sorted(set(cs))])
        if r is None:
            return None
        if kind == "strcspn":
            return [(st, C(i, 64)) for st, i, x in r]
        return [(st, add(a[0], C(i, 64)) if x is not None else C(0, 64)) for st, i, x in r]
    return f


def m_strrchr(I, s, a, ins):
    b, c = bytes_at(I, s, a[0]), I.subst(s, T.extract(I.subst(s, a[1]), 0, 8))
    if b is None or not isc(c):
        return None
    if cv(c) == 0:
        return add(a[0], C(len(b), 64))
    for i in range(len(b) - 1, -1, -1):
        t = I.truth(s, eq(b[i], c))
        if t is None:
            return None
        if t:
            return add(a[0], C(i, 64))
    return C(0, 64)


def m_memchr(I, s, a, ins):
    c, n = I.subst(s, T.extract(I.subst(s, a[1]), 0, 8)), I.subst(s, a[2])
    if not isc(n) or cv(n) > 256:
        return None
    if cv(n) == 0:
        return C(0, 64)
    cur, out = [s.copy()], []
    for i in range(cv(n)):
        nxt = []
        for st in cur:
            x = I.subst(st, I.load(st, add(a[0], C(i, 64)), 1))
            z = st.copy()
            if I.assume(z, eq(x, c), True):
                out.append((z, add(a[0], C(i, 64))))
            if I.assume(st, eq(x, c), False):
                nxt.append(st)
        cur = nxt
        if len(out) > 64:
            return None
    return out + [(st, C(0, 64)) for st in cur]


def m_strdup(I, s, a, ins):
    b = bytes_at(I, s, a[0])
    if b is None:
        return None
    p = m_malloc(I, s, [C(len(b) + 1, 64)], ins)
    o = I.getobj(s, p.a[0]).mod()
    for i, x in enumerate(list(b) + [C(0, 8)]):
        I.put(o, i, x)
    s.mem[p.a[0]] = o
    return p


def m_calloc(I, s, a, ins):
    n = T.mul(I.subst(s, a[0]), I.subst(s, a[1]))
    p = m_malloc(I, s, [n], ins)
    s.mem[p.a[0]] = Obj("zero", cv(n) if isc(n) else None)
    return p


def m_strstr(I, s, a, ins):
    x, y = bytes_at(I, s, a[0]), bytes_at(I, s, a[1])
    if x is None or y is None:
        return None
    for i in range(len(x) - len(y) + 1):
        ts = [I.truth(s, eq(p, q)) for p, q in zip(x[i:], y)]
        if all(t is True for t in ts):
            return add(a[0], C(i, 64))
        if not any(t is False for t in ts):
            return None
    return C(0, 64)


def m_atoi(w):
    def f(I, s, a, ins):
        b = cstring(I, s, a[0])
        if b is None:
            k = strid(I, s, a[0])
            return T.app("atoi", w, _sk(k)) if k is not None else None
        t = b.decode("latin-1").lstrip(" \t\n\v\f\r")
        n = 0
        sg = 1
        if t[:1] in ("-", "+"):
            sg = -1 if t[0] == "-" else 1
            t = t[1:]
        while t[:1].isdigit():
            n = n * 10 + int(t[0])
            t = t[1:]
        return C(sg * n, w)
    return f


def m_strtol(I, s, a, ins):
    b, base = cstring(I, s, a[0]), I.subst(s, a[2])
    if b is None or not isc(base):
        return None
    n = cv(base)
    t = b.decode("latin-1")
    i = len(t) - len(t.lstrip(" \t\n\v\f\r"))
    sg = 1
    if t[i:i + 1] in ("-", "+") and t[i:i + 1]:
        sg = -1 if t[i] == "-" else 1
        i += 1
    if n in (0, 16) and t[i:i + 2].lower() == "0x" and t[i + 2:i + 3].lower() in tuple("0123456789abcdef"):
        n = 16
        i += 2
    elif n == 0:
        n = 8 if t[i:i + 1] == "0" else 10
    v, k = 0, i
    while k < len(t) and t[k].lower() in "0123456789abcdefghijklmnopqrstuvwxyz"[:n]:
        v = v * n + int(t[k], 36)
        k += 1
    if isc(a[1]) is False:
        I.store(s, a[1], add(a[0], C(k if k > i else 0, 64)))
    return C(max(-1 << 63, min((1 << 63) - 1, sg * v)), 64)


def m_tolower(up):
    def f(I, s, a, ins):
        v = I.subst(s, a[0])
        if isc(v):
            c = chr(cv(v)) if cv(v) < 128 else None
            return C(ord(c.upper() if up else c.lower()), v.w) if c else v
        return T.app("toupper" if up else "tolower", v.w, v)
    return f


def m_havocdst(I, s, a, ins):
    do, df = I.resolve(s, a[0])
    if do is not None:
        I.havoc(s, do, "fmt")
    return None


def m_malloc(I, s, a, ins):
    n = s.cnt.get("heap", 0)
    site = "H:%s" % I.site(ins)
    k = s.cnt.get(site, 0)
    s.cnt[site] = k + 1
    oid = site + ("'%d" % k if k else "")
    s.mem[oid] = Obj("undef", cv(a[0]) if isc(a[0]) else None)
    return obj(oid)


def m_realloc(I, s, a, ins):
    p = m_malloc(I, s, [a[1]], ins)
    oid, off = I.resolve(s, a[0])
    if oid is not None and oid in s.mem:
        o = s.mem[oid].mod()
        o.size = cv(a[1]) if isc(a[1]) else None
        s.mem[p.a[0]] = o
    return p


def m_exit(I, s, a, ins):
    s.ev("exit", a[0])
    I.exits.append(("exit", s, ins))
    return "stop"


def m_fgets(I, s, a, ins):
    do, df = I.resolve(s, a[0])
    s2 = s.copy()
    if do is not None:
        I.havoc(s, do, "in")
    return [(s, a[0]), (s2, C(0, 64))]


def m_ctype(I, s, a, ins):
    return obj("g:ctypeptr")


def m_nop(I, s, a, ins):
    return None


LIB = {
    "strcmp": m_strcmp(0), "strcasecmp": m_strcmp(1), "strncmp": m_strcmp(0, True),
    "strlen": m_strlen, "memcpy": m_memcpy, "memset": m_memset, "strcpy": m_strcpy,
    "strncpy": m_strncpy, "strcat": m_strcat, "sprintf": m_sprintf, "snprintf": m_snprintf,
    "memcmp": m_memcmp, "bcmp": m_memcmp, "strchr": m_strchr, "strstr": m_strstr, "memmove": m_memcpy,
    "atoi": m_atoi(32), "atol": m_atoi(64), "strtol": m_strtol, "__isoc23_strtol": m_strtol, "tolower": m_tolower(0), "toupper": m_tolower(1),
    "malloc": m_malloc, "realloc": m_realloc, "exit": m_exit, "fgets": m_fgets,
    "__ctype_b_loc": m_ctype, "free": m_nop, "printf": m_nop, "fprintf": m_nop, "puts": m_nop,
    "putc": m_nop, "fputs": m_nop, "putchar": m_nop, "fputc": m_nop,
    "strcspn": m_span("strcspn"), "strpbrk": m_span("strpbrk"), "strspn": m_span("strspn"), "strrchr": m_strrchr, "index": m_strchr, "rindex": m_strrchr,
    "memchr": m_memchr, "strncasecmp": m_strcmp(1, True), "strdup": m_strdup, "calloc": m_calloc, "strtoul": m_strtol, "__isoc23_strtoul": m_strtol,
}
