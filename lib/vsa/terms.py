"""Hash-consed bit-vector terms in a normal form, and unsigned interval sets.

The normal form identifies values that are computed differently in the source
(shift/or against multiply/add, masks against casts, reordered sums), so that
rules compare what is computed rather than how it is written.
"""

_tab = {}


class T:
    __slots__ = ("op", "w", "a", "id", "atoms", "_h")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.id = len(_tab)
        t.atoms = _atoms(t)
        _tab[k] = t
    return t


_NONE = frozenset()


def _atoms(t):
    """Leaf symbols the term depends on."""
    op = t.op
    if op == "c":
        return _NONE
    if op in ("sym", "obj"):
        return frozenset((t,))
    s = set()
    if op == "lin":
        for x, _ in t.a[1]:
            s |= x.atoms
    elif op == "cat":
        for p in t.a:
            if p[0] != "c":
                s |= p[1].atoms
    elif op == "eq":
        s |= t.a[0].atoms
    else:
        for x in t.a:
            if isinstance(x, T):
                s |= x.atoms
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        s |= y.atoms
    return frozenset(s)


def C(v, w):
    return _mk("c", w, (v & ((1 << w) - 1),))


TRUE = C(1, 1)
FALSE = C(0, 1)


def sym(name, w):
    return _mk("sym", w, (name,))


def obj(name):
    return _mk("obj", 64, (name,))


def app(f, w, *args):
    if f == "tbl" and args[1].op == "c":          # constant table at a constant index
        return C(int.from_bytes(args[0][args[1].a[0]:args[1].a[0] + w // 8], "little"), w)
    if f == "digit" and args[2].op == "c":        # k-th digit of a printed number
        n = args[2].a[0] // {"x": 16, "X": 16, "o": 8}.get(args[0], 10) ** args[1] % {"x": 16, "X": 16, "o": 8}.get(args[0], 10)
        return C(ord("0123456789ABCDEF"[n] if args[0] == "X" else "0123456789abcdef"[n]), w)
    return _mk("app", w, (f,) + tuple(args))


def isc(t):
    return t.op == "c"


def cv(t):
    return t.a[0]


def sv(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


# ------------------------------------------------------------------ lin

def lin_parts(t):
    if t.op == "c":
        return t.a[0], ()
    if t.op == "lin":
        return t.a
    return 0, ((t, 1),)


def mklin(w, k, terms):
    m = (1 << w) - 1
    k &= m
    d = {}
    for x, c in terms:
        c &= m
        if not c:
            continue
        if x.op == "c":
            k = (k + c * x.a[0]) & m
        elif x.op == "lin":
            k = (k + c * x.a[0]) & m
            for y, e in x.a[1]:
                d[y] = (d.get(y, 0) + c * e) & m
        else:
            d[x] = (d.get(x, 0) + c) & m
    ts = [(x, c) for x, c in d.items() if c]
    if not ts:
        return C(k, w)
    if len(ts) == 1 and k == 0:
        x, c = ts[0]
        if c == 1:
            return x
        if c & (c - 1) == 0:
            n = c.bit_length() - 1
            ps = pieces(x)
            # lossless shift: top n bits known zero
            if _topzero(ps) >= n:
                return mkcat([("c", 0, n)] + _cut(ps, 0, w - n))
    ts.sort(key=lambda p: p[0].id)
    if k == 0 and len(ts) >= 2 and w > 1:
        r = _disjoint(w, ts)
        if r is not None:
            return r
    return _mk("lin", w, (k, tuple(ts)))


def _topzero(ps):
    p = ps[-1]
    if p[0] == "c":
        v, n = p[1], p[2]
        z = n - v.bit_length()
        if v == 0 and len(ps) == 1:
            return n
        return z
    return 0


def _disjoint(w, ts):
    """Sum of terms whose non-zero bits do not overlap -> concatenation."""
    occ = None
    for x, c in ts:
        if c & (c - 1):
            return None
        n = c.bit_length() - 1
        ps = pieces(x)
        if n:
            ps = [("c", 0, n)] + _cut(ps, 0, w - n)
        nz = 0
        o = 0
        for p in ps:
            if not (p[0] == "c" and p[1] == 0):
                nz |= ((1 << p[2 if p[0] == "c" else 3]) - 1) << o
            o += plen(p)
        if occ is None:
            occ = nz
            acc = ps
        else:
            if occ & nz:
                return None
            occ |= nz
            acc = _overlay(acc, ps, w)
    return mkcat(acc)


def plen(p):
    return p[2] if p[0] == "c" else p[3]


def _overlay(a, b, w):
    """Combine two piece lists where at every bit one of them is constant 0."""
    out = []
    for x, y in _align(a, b):
        if x[0] == "c" and x[1] == 0:
            out.append(y)
        else:
            out.append(x)
    return out


def _align(a, b):
    """Cut two piece lists at common boundaries."""
    a = list(a)
    b = list(b)
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        la, lb = plen(a[i]), plen(b[j])
        n = min(la, lb)
        out.append((_sub(a[i], 0, n), _sub(b[j], 0, n)))
        if la > n:
            a[i] = _sub(a[i], n, la - n)
        else:
            i += 1
        if lb > n:
            b[j] = _sub(b[j], n, lb - n)
        else:
            j += 1
    return out


def _sub(p, lo, n):
    if p[0] == "c":
        return ("c", (p[1] >> lo) & ((1 << n) - 1), n)
    if p[0] == "x":
        return ("x", p[1], p[2] + lo, n)
    return ("s", p[1], p[2], n)


def pieces(t):
    if t.op == "c":
        return [("c", t.a[0], t.w)]
    if t.op == "cat":
        return list(t.a)
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
        x, c = t.a[1][0]
        if c & (c - 1) == 0:
            n = c.bit_length() - 1
            return [("c", 0, n)] + slice_pieces(x, 0, t.w - n)
    return [("x", t, 0, t.w)]


def _cut(ps, lo, n):
    out = []
    o = 0
    for p in ps:
        l = plen(p)
        a = max(lo, o)
        b = min(lo + n, o + l)
        if a < b:
            out.append(_sub(p, a - o, b - a))
        o += l
    return out


def slice_pieces(t, lo, n):
    """Bits [lo, lo+n) of t as a piece list."""
    if n <= 0:
        return []
    if lo == 0 and n == t.w:
        return pieces(t)
    op = t.op
    if op == "c":
        return [("c", (t.a[0] >> lo) & ((1 << n) - 1), n)]
    if op == "cat":
        return _norm(_cut(t.a, lo, n))
    if op == "lin":
        if lo + n < t.w:
            t2 = trunc(t, lo + n)
            return slice_pieces(t2, lo, n) if t2.op != "lin" else (
                _cut(pieces(t2), lo, n) if pieces(t2)[0][0] != "x" or len(pieces(t2)) > 1 else [("x", t2, lo, n)])
        ps = pieces(t)
        if len(ps) > 1:
            return _norm(_cut(ps, lo, n))
        return [("x", t, lo, n)]
    if op in ("and", "or", "xor"):
        r = None
        for x in t.a:
            s = mkcat(slice_pieces(x, lo, n))
            r = s if r is None else bitop(op, r, s)
        return pieces(r)
    if op == "ite":
        return pieces(ite(t.a[0], mkcat(slice_pieces(t.a[1], lo, n)), mkcat(slice_pieces(t.a[2], lo, n))))
    if op == "mul" and lo == 0:
        return pieces(mul(trunc(t.a[0], n), trunc(t.a[1], n)))
    return [("x", t, lo, n)]


def _norm(ps):
    out = []
    for p in ps:
        if out:
            q = out[-1]
            if p[0] == "c" and q[0] == "c":
                out[-1] = ("c", q[1] | (p[1] << q[2]), q[2] + p[2])
                continue
            if p[0] == "x" and q[0] == "x" and p[1] is q[1] and q[2] + q[3] == p[2]:
                out[-1] = ("x", q[1], q[2], q[3] + p[3])
                continue
            if p[0] == "s" and q[0] == "s" and p[1] is q[1] and q[2] == p[2]:
                out[-1] = ("s", q[1], q[2], q[3] + p[3])
                continue
        out.append(p)
    # sign piece of length covering true top bit: x(A,lo,n) where last bit equals s? keep
    return out


def mkcat(ps):
    ps = _norm(ps)
    w = sum(plen(p) for p in ps)
    if len(ps) == 1:
        p = ps[0]
        if p[0] == "c":
            return C(p[1], p[2])
        if p[0] == "x" and p[2] == 0 and p[3] == p[1].w:
            return p[1]
        if p[0] == "s" and p[3] == 1:
            ps = [("x", p[1], p[2], 1)]
            if p[1].w == 1:
                return p[1]
    # resolve x pieces whose term is not atomic
    flat = []
    ch = False
    for p in ps:
        if p[0] == "x" and p[1].op in ("c", "cat"):
            flat += slice_pieces(p[1], p[2], p[3])
            ch = True
        elif p[0] == "s" and p[1].op in ("c", "cat"):
            b = slice_pieces(p[1], p[2], 1)[0]
            ch = True
            if b[0] == "c":
                flat.append(("c", (1 << p[3]) - 1 if b[1] else 0, p[3]))
            else:
                flat.append(("s", b[1], b[2], p[3]))
        else:
            flat.append(p)
    if ch:
        return mkcat(flat)
    if len(ps) == 2 and ps[0][0] == "c" and ps[0][1] == 0 and ps[1][0] == "x" and ps[1][2] == 0 and ps[1][1].w >= w:
        x = trunc(ps[1][1], w)
        return _mk("lin", w, (0, ((x, 1 << ps[0][2]),)))
    return _mk("cat", w, tuple(ps))


def trunc(t, n):
    if n >= t.w:
        return t
    if t.op == "lin":
        return mklin(n, t.a[0], [(trunc(x, n), c) for x, c in t.a[1]])
    return mkcat(slice_pieces(t, 0, n))


def extract(t, lo, n):
    return mkcat(slice_pieces(t, lo, n))


def zext(t, n):
    if n == t.w:
        return t
    if t.op == "ite" and isc(t.a[1]) and isc(t.a[2]):
        return ite(t.a[0], zext(t.a[1], n), zext(t.a[2], n))
    return mkcat(pieces(t) + [("c", 0, n - t.w)])


def _native(x):
    """Atom that is not a truncation of something wider."""
    if x.op == "cat":
        p = x.a[0]
        return not (p[0] == "x" and p[1].w > p[3] and len(x.a) == 1)
    return True


def sext(t, n):
    if n == t.w:
        return t
    if t.op == "c":
        return C(sv(t), n)
    if t.op == "lin" and t.w == 32 and all(_native(x) for x, _ in t.a[1]):
        # signed int arithmetic: overflow is undefined, so the mathematical sum extends
        return mklin(n, signed(t.a[0], t.w), [(sext(x, n), signed(c, t.w)) for x, c in t.a[1]])
    ps = pieces(t)
    p = ps[-1]
    if p[0] == "c":
        b = (p[1] >> (p[2] - 1)) & 1
        return mkcat(ps + [("c", ((1 << (n - t.w)) - 1) if b else 0, n - t.w)])
    if p[0] == "x":
        return mkcat(ps + [("s", p[1], p[2] + p[3] - 1, n - t.w)])
    return mkcat(ps + [("s", p[1], p[2], n - t.w)])


def add(a, b):
    return mklin(a.w, 0, [(a, 1), (b, 1)])


def sub(a, b):
    return mklin(a.w, 0, [(a, 1), (b, -1)])


def neg(a):
    return mklin(a.w, 0, [(a, -1)])


def mul(a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        return mklin(a.w, 0, [(a, cv(b))])
    if b.id < a.id:
        a, b = b, a
    return _mk("mul", a.w, (a, b))


def shl(a, b):
    if isc(b):
        k = cv(b)
        if k >= a.w:
            return _mk("shl", a.w, (a, b))
        return mklin(a.w, 0, [(a, 1 << k)])
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    if isc(b):
        k = cv(b)
        if k < a.w:
            return mkcat(slice_pieces(a, k, a.w - k) + ([("c", 0, k)] if k else []))
    return _mk("lshr", a.w, (a, b))


def ashr(a, b):
    if isc(b):
        k = cv(b)
        if k == 0:
            return a
        if k < a.w:
            return sext(mkcat(slice_pieces(a, k, a.w - k)), a.w)
    return _mk("ashr", a.w, (a, b))


def udiv(a, b):
    if isc(b):
        k = cv(b)
        if k == 1:
            return a
        if k and k & (k - 1) == 0:
            return lshr(a, C(k.bit_length() - 1, a.w))
        if isc(a) and k:
            return C(cv(a) // k, a.w)
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    if isc(b):
        k = cv(b)
        if k and k & (k - 1) == 0:
            n = k.bit_length() - 1
            return zext(trunc(a, n), a.w) if n else C(0, a.w)
        if isc(a) and k:
            return C(cv(a) % k, a.w)
    return _mk("urem", a.w, (a, b))


def sdiv(a, b):
    if isc(b) and sv(b) == 1:
        return a
    if isc(b) and sv(b) == -1:
        return sub(C(0, a.w), a)
    if isc(a) and isc(b) and cv(b):
        x, y = sv(a), sv(b)
        q = abs(x) // abs(y)
        return C(-q if (x < 0) != (y < 0) else q, a.w)
    return _mk("sdiv", a.w, (a, b))


def srem(a, b):
    if isc(b) and sv(b) in (1, -1):
        return C(0, a.w)
    if isc(a) and isc(b) and cv(b):
        x, y = sv(a), sv(b)
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r, a.w)
    return _mk("srem", a.w, (a, b))


def bitop(op, a, b):
    if a is b:
        return C(0, a.w) if op == "xor" else a
    w = a.w
    full = (1 << w) - 1
    if isc(a) and not isc(b):
        a, b = b, a
    if isc(b):
        k = cv(b)
        if isc(a):
            x = cv(a)
            return C(x & k if op == "and" else x | k if op == "or" else x ^ k, w)
        if op == "xor" and k == full:
            if w == 1:
                return bnot(a)
            return mklin(w, -1, [(a, -1)])
        if op == "xor" and w == 1 and k == 0:
            return a
    pa, pb = pieces(a), pieces(b)
    out = []
    cplx = False
    for x, y in _align(pa, pb):
        if x[0] == "c" and y[0] != "c":
            x, y = y, x
        n = plen(x)
        if y[0] == "c":
            ones = (1 << n) - 1
            if x[0] == "c":
                v = x[1] & y[1] if op == "and" else x[1] | y[1] if op == "or" else x[1] ^ y[1]
                out.append(("c", v, n))
                continue
            # split y constant into runs of 0 and 1
            o = 0
            while o < n:
                bit = (y[1] >> o) & 1
                e = o
                while e < n and (y[1] >> e) & 1 == bit:
                    e += 1
                piece = _sub(x, o, e - o)
                if op == "and":
                    out.append(piece if bit else ("c", 0, e - o))
                elif op == "or":
                    out.append(("c", (1 << (e - o)) - 1, e - o) if bit else piece)
                else:
                    if bit:
                        cplx = True
                        break
                    out.append(piece)
                o = e
            if cplx:
                break
        elif x == y:
            out.append(("c", 0, n) if op == "xor" else x)
        else:
            cplx = True
            break
    if not cplx:
        return mkcat(out)
    if w == 1:
        args = []
        for t in (a, b):
            args += list(t.a) if t.op == op else [t]
        args = sorted(set(args), key=lambda t: t.id) if op != "xor" else sorted(args, key=lambda t: t.id)
        if op != "xor" and any(bnot(t) in args for t in args):
            return FALSE if op == "and" else TRUE
        return _mk(op, 1, tuple(args))
    # aligned pieces: simple bits stay as pieces, overlapping runs become bit operations
    al = _align(pa, pb)
    if len(al) > 1 and op != "xor":
        out = []
        for x, y in al:
            r = bitop(op, mkcat([x]), mkcat([y])) if plen(x) < w else None
            if r is None:
                break
            out += pieces(r)
        else:
            return mkcat(out)
    args = []
    for t in (a, b):
        args += list(t.a) if t.op == op else [t]
    k = None
    rest = []
    for t in args:
        if isc(t):
            k = cv(t) if k is None else (k & cv(t) if op == "and" else k | cv(t) if op == "or" else k ^ cv(t))
        else:
            rest.append(t)
    if op != "xor":
        rest = list(set(rest))
    rest.sort(key=lambda t: t.id)
    if op == "xor":
        d = []
        for t in rest:
            if d and d[-1] is t:
                d.pop()
            else:
                d.append(t)
        rest = d
    if k is not None and not (op == "and" and k == full) and not (op != "and" and k == 0):
        rest.append(C(k, w))
    if not rest:
        return C(full if op == "and" else 0, w)
    if len(rest) == 1:
        return rest[0]
    return _mk(op, w, tuple(rest))


def bnot(b):
    if isc(b):
        return C(1 - cv(b), 1)
    if b.op == "not":
        return b.a[0]
    return _mk("not", 1, (b,))


def ite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if a.w == 1 and isc(a) and isc(b):
        return c if cv(a) else bnot(c)
    if c.op == "not":
        return ite(c.a[0], b, a)
    if isc(a) and isc(b) and cv(b) == 0 and cv(a) == 1:
        return zext(c, a.w)
    return _mk("ite", a.w, (c, a, b))


# ----------------------------------------------------------- comparisons

def eq(a, b):
    if a is b:
        return TRUE
    w = a.w
    if w == 1:
        if isc(a):
            a, b = b, a
        if isc(b):
            return a if cv(b) else bnot(a)
        return _mk("eq", 1, (bitop("xor", a, b), 0))
    d = sub(a, b)
    return _eqz(d)


def _eqz(d):
    w = d.w
    m = (1 << w) - 1
    if isc(d):
        return TRUE if cv(d) == 0 else FALSE
    k, ts = lin_parts(d)
    if len(ts) == 1:
        x, c = ts[0]
        if c == 1:
            return _eqk(x, (-k) & m)
        if c == m:
            return _eqk(x, k)
        if c & (c - 1) == 0:
            return _eqk(mklin(w, 0, ts), (-k) & m)
    if signed(ts[0][1], w) < 0:
        ts = tuple((x, (-c) & m) for x, c in ts)
        k = (-k) & m
    # two zero/sign extended terms of the same narrow width: compare narrow
    if len(ts) == 2 and k == 0 and ts[0][1] == 1 and ts[1][1] == m:
        x, y = ts[0][0], ts[1][0]
        nx, ny = narrow(x), narrow(y)
        if nx and ny and nx[0] == ny[0] and nx[1].w == ny[1].w and nx[1].w < w:
            return eq(nx[1], ny[1])
    L = mklin(w, 0, ts)
    return _mk("eq", 1, (L, (-k) & m))


def narrow(t):
    """('z'|'s', x) when t is a zero/sign extension of x."""
    ps = pieces(t)
    if len(ps) >= 2 and ps[-1][0] == "c" and ps[-1][1] == 0:
        return ("z", mkcat(ps[:-1]))
    if len(ps) >= 2 and ps[-1][0] == "s":
        q = ps[-2]
        if q[0] == "x" and q[1] is ps[-1][1] and q[2] + q[3] - 1 == ps[-1][2]:
            return ("s", mkcat(ps[:-1]))
    return None


def _eqk(t, k):
    """t == constant k, t not constant and not lin-with-constant."""
    w = t.w
    if isc(t):
        return TRUE if cv(t) == k else FALSE
    if w == 1:
        return t if k else bnot(t)
    if t.op == "ite" and isc(t.a[1]) and isc(t.a[2]):
        e1, e2 = cv(t.a[1]) == k, cv(t.a[2]) == k
        if e1 and e2:
            return TRUE
        if not e1 and not e2:
            return FALSE
        return t.a[0] if e1 else bnot(t.a[0])
    if t.op == "or" and k == 0:
        r = TRUE
        for x in t.a:
            r = bitop("and", r, _eqk(x, 0))
        return r
    if t.op == "cat" or (t.op == "lin" and len(pieces(t)) > 1):
        nw = narrow(t)
        if nw:
            x = nw[1]
            kk = k & ((1 << x.w) - 1)
            if nw[0] == "z":
                if k != kk:
                    return FALSE
            elif C(signed(kk, x.w), w) is not C(k, w):
                return FALSE
            return eq(x, C(kk, x.w))
        r = TRUE
        o = 0
        for p in pieces(t):
            n = plen(p)
            v = (k >> o) & ((1 << n) - 1)
            o += n
            if p[0] == "c":
                if p[1] != v:
                    return FALSE
                continue
            if p[0] == "s":
                if v not in (0, (1 << n) - 1):
                    return FALSE
                e = eq(mkcat([("x", p[1], p[2], 1)]), C(v & 1, 1))
            else:
                x = mkcat([p])
                if x is t:
                    return _mk("eq", 1, (t, k))
                e = eq(x, C(v, n))
            r = bitop("and", r, e)
        return r
    return _mk("eq", 1, (t, k))


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if cv(a) < cv(b) else FALSE
    if isc(b):
        if cv(b) == 0:
            return FALSE
        if cv(b) == 1:
            return eq(a, C(0, a.w))
        return _mk("ult", 1, (a, b))
    if isc(a):
        # a < b  <=>  not (b < a+1)
        if cv(a) == (1 << a.w) - 1:
            return FALSE
        return bnot(ult(b, C(cv(a) + 1, a.w)))
    return _mk("ult", 1, (a, b))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if isc(a) and isc(b):
        return TRUE if sv(a) < sv(b) else FALSE
    smin, smax = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if isc(b):
        if sv(b) == smin:
            return FALSE
        nw = narrow(a)
        if nw:
            x = nw[1]
            if nw[0] == "z":
                if sv(b) <= 0:
                    return FALSE
                if sv(b) >= (1 << x.w):
                    return TRUE
                return ult(x, C(sv(b), x.w))
            if sv(b) > (1 << (x.w - 1)) - 1:
                return TRUE
            if sv(b) <= -(1 << (x.w - 1)):
                return FALSE
            return slt(x, C(sv(b), x.w))
        return _mk("slt", 1, (a, b))
    if isc(a):
        if sv(a) == smax:
            return FALSE
        return bnot(slt(b, C(sv(a) + 1, w)))
    return _mk("slt", 1, (a, b))


def icmp(pred, a, b):
    if pred == "eq":
        return eq(a, b)
    if pred == "ne":
        return bnot(eq(a, b))
    if pred == "slt":
        return slt(a, b)
    if pred == "sgt":
        return slt(b, a)
    if pred == "sle":
        return bnot(slt(b, a))
    if pred == "sge":
        return bnot(slt(a, b))
    if pred == "ult":
        return ult(a, b)
    if pred == "ugt":
        return ult(b, a)
    if pred == "ule":
        return bnot(ult(b, a))
    if pred == "uge":
        return bnot(ult(a, b))
    raise ValueError(pred)


BIN = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "sdiv": sdiv, "urem": urem, "srem": srem,
       "shl": shl, "lshr": lshr, "ashr": ashr,
       "and": lambda a, b: bitop("and", a, b), "or": lambda a, b: bitop("or", a, b),
       "xor": lambda a, b: bitop("xor", a, b)}


def rebuild(t, f):
    """Rebuild t with leaves/atomic slices mapped by f(term)->term or None."""
    r = f(t)
    if r is not None:
        return r
    op = t.op
    if op in ("c", "sym", "obj"):
        return t
    if op == "lin":
        return mklin(t.w, t.a[0], [(rebuild(x, f), c) for x, c in t.a[1]])
    if op == "cat":
        out = []
        for p in t.a:
            if p[0] == "c":
                out.append(p)
            elif p[0] == "x":
                out += slice_pieces(rebuild(p[1], f), p[2], p[3])
            else:
                b = rebuild(p[1], f)
                q = slice_pieces(b, p[2], 1)[0]
                if q[0] == "c":
                    out.append(("c", (1 << p[3]) - 1 if q[1] else 0, p[3]))
                elif q[0] == "x":
                    out.append(("s", q[1], q[2], p[3]))
                else:
                    out.append(("s", q[1], q[2], p[3]))
        return mkcat(out)
    if op == "eq":
        return eq(rebuild(t.a[0], f), C(t.a[1], t.a[0].w))
    if op == "not":
        return bnot(rebuild(t.a[0], f))
    if op in ("and", "or", "xor"):
        r = rebuild(t.a[0], f)
        for x in t.a[1:]:
            r = bitop(op, r, rebuild(x, f))
        return r
    if op == "ite":
        return ite(rebuild(t.a[0], f), rebuild(t.a[1], f), rebuild(t.a[2], f))
    if op == "slt":
        return slt(rebuild(t.a[0], f), rebuild(t.a[1], f))
    if op == "ult":
        return ult(rebuild(t.a[0], f), rebuild(t.a[1], f))
    if op in BIN:
        return BIN[op](rebuild(t.a[0], f), rebuild(t.a[1], f))
    if op == "app":
        return app(t.a[0], t.w, *[rebuild(x, f) if isinstance(x, T) else x for x in t.a[1:]])
    raise ValueError(op)


def show(t):
    op = t.op
    if op == "c":
        v = sv(t) if t.w >= 32 else cv(t)
        return str(v) if abs(v) < 1000 else hex(v)
    if op == "sym":
        return t.a[0]
    if op == "obj":
        return "&" + t.a[0]
    if op == "lin":
        k = signed(t.a[0], t.w)
        s = []
        for x, c in t.a[1]:
            c = signed(c, t.w)
            s.append(("%s" % show(x)) if c == 1 else "%d*%s" % (c, show(x)))
        r = " + ".join(s)
        return "(%s%s)" % (r, " + %d" % k if k else "")
    if op == "cat":
        r = []
        for p in reversed(t.a):
            if p[0] == "c":
                r.append("%d'%x" % (p[2], p[1]))
            elif p[0] == "x":
                r.append("%s[%d+:%d]" % (show(p[1]), p[2], p[3]))
            else:
                r.append("%s[%d]^%d" % (show(p[1]), p[2], p[3]))
        return "{" + ",".join(r) + "}"
    if op == "eq":
        return "(%s == %s)" % (show(t.a[0]), show(C(t.a[1], t.a[0].w)))
    if op == "not":
        return "!" + show(t.a[0])
    if op == "app":
        return "%s(%s)" % (t.a[0], ",".join(show(x) if isinstance(x, T) else str(x) for x in t.a[1:]))
    return "%s(%s)" % (op, ",".join(show(x) for x in t.a))


# --------------------------------------------------------------- range sets
# a range set is a tuple of disjoint sorted (lo, hi) unsigned inclusive pairs

def rfull(w):
    return ((0, (1 << w) - 1),)


def rnorm(l):
    l = sorted(l)
    out = []
    for a, b in l:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    while len(out) > 80:
        g = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
        out[g:g + 2] = [(out[g][0], out[g + 1][1])]
    return tuple(out)


def rand(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def ror(a, b):
    return rnorm(list(a) + list(b))


def rnot(a, w):
    out = []
    p = 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= (1 << w) - 1:
        out.append((p, (1 << w) - 1))
    return tuple(out)


def rshift(a, k, w):
    m = (1 << w) - 1
    k &= m
    out = []
    for lo, hi in a:
        if hi - lo >= m:
            return rfull(w)
        x, y = (lo + k) & m, (hi + k) & m
        if x <= y:
            out.append((x, y))
        else:
            out += [(0, y), (x, m)]
    return rnorm(out)


def rneg(a, w):
    m = (1 << w) - 1
    out = []
    for lo, hi in a:
        x, y = (-hi) & m, (-lo) & m
        if lo == 0 and hi > 0:
            out += [(0, 0), ((-hi) & m, m)]
        elif x <= y:
            out.append((x, y))
        else:
            return rfull(w)
    return rnorm(out)


def rsigned(lo, hi, w):
    """Range set of signed values lo..hi."""
    out = []
    if lo > hi:
        return ()
    if lo < 0:
        out.append((lo + (1 << w), min(hi, -1) + (1 << w)))
    if hi >= 0:
        out.append((max(lo, 0), hi))
    return rnorm(out)


def rsize(a):
    return sum(hi - lo + 1 for lo, hi in a)


def rsbounds(a, w):
    """(smin, smax) of a range set seen as signed."""
    h = 1 << (w - 1)
    lo = hi = None
    for x, y in a:
        for p, q in ((x, min(y, h - 1)), (max(x, h), y)):
            if p <= q:
                p, q = signed(p, w), signed(q, w)
                lo = p if lo is None or p < lo else lo
                hi = q if hi is None or q > hi else hi
    return lo, hi
