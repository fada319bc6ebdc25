"""Source lines: splitting into words and looking the operation up, on lines of bounded shape with symbolic characters."""
from .data import *


def text_at(I, st, p, limit=4096):
    """Characters up to the terminating zero as terms; None if undetermined."""
    out = []
    for i in range(limit):
        c = I.subst(st, I.load(st, T.add(p, C(i, 64)), 1))
        if isc(c) and cv(c) == 0:
            return out
        if not isc(c) and I.truth(st, T.eq(c, C(0, 8))) is not False:
            return None
        out.append(c)
    return None


def m_strcmp_sym(I, s, a, ins):
    """Character by character, following both outcomes of an undecided comparison."""
    x, y = text_at(I, s, a[0]), text_at(I, s, a[1])
    if x is None or y is None:
        raise AnalysisBroken("comparison of strings of unknown length")
    if len(x) != len(y):
        return C(1, 32)
    out = []
    for p, q in zip(x, y):
        c = T.eq(p, q)
        t = I.truth(s, c)
        if t is None:
            s2 = s.copy()
            if I.assume(s2, c, False):
                out.append((s2, C(1, 32)))
            if not I.assume(s, c, True):
                return out
        elif not t:
            return out + [(s, C(1, 32))]
    return out + [(s, C(0, 32))]


class Lines:
    def __init__(self, ck, models=None, real=()):
        self.ck = ck
        md = dict(BASE_MODELS)
        md["strcmp"] = m_strcmp_sym
        md.update(models or {})
        for r in real:
            md.pop(r, None)
        self.w = ck.world(md, unroll=20000, undecided_unroll={"*": 5000}, fixed=set(ck.m.globals), recursion=6)
        m = ck.m
        for f in ("parse", "addhashtable"):
            if f not in m.funcs:
                raise AnalysisBroken("%s not found" % f)
        if "MHash" not in m.globals:
            raise AnalysisBroken("word table not found")
        self.nb = m.globals["MHash"].ty.size // 8
        self.where = ck.fnline("parse")

    def state(self, names=()):
        """Every bucket of the word table holds the same chain of entries, so the result does not depend on the hash."""
        w = self.w
        s = State()
        head = C(0, 64)
        self.ptrs = []
        for k in reversed(range(len(names))):
            p = w.mkobj(s, "word%d" % k, None, "zero")
            w.fset(s, p, "_MNE", "next", head)
            w.fset(s, p, "_MNE", "name", w.mkstr(s, "wname%d" % k, names[k]))
            w.fset(s, p, "_MNE", "flags", 0)
            head = p
            self.ptrs.insert(0, p)
        self.buckets(s, head)
        w.gset(s, "bStrictMode", 0)
        return s

    def buckets(self, s, head):
        w = self.w
        o = w.getobj(s, "g:MHash").mod()
        o.cells = {8 * i: head for i in range(self.nb)}
        o._key = None
        s.mem["g:MHash"] = o

    def line(self, s, text, oname="line"):
        """text: str/bytes or list of byte terms and ints"""
        w = self.w
        p = w.mkobj(s, oname, None, "zero")
        o = w.getobj(s, p.a[0]).mod()
        b = text.encode("latin-1") if isinstance(text, str) else text
        for i, c in enumerate(b):
            w.put(o, i, C(c, 8) if isinstance(c, int) else c)
        s.mem[p.a[0]] = o
        return p

    def parse(self, s, text):
        n0 = len(self.w.exits)
        out = [(st, rv) for st, rv in self.w.run(s, "parse", [self.line(s, text)])]
        return out + [(st, None) for k, st, i in self.w.exits[n0:]]

    def word(self, st, k, limit=4096):
        """Characters of the k-th word as terms; None if it has no determined end."""
        w = self.w
        p = w.gget(st, "Av", 8 * k, 8)
        if isc(p):
            return None
        return self.chars(st, p, limit)

    def chars(self, st, p, limit=4096):
        return text_at(self.w, st, p, limit)


def txt(cs):
    """Readable form of a list of byte terms."""
    if cs is None:
        return "undetermined"
    return "".join(chr(cv(c)) if isc(c) and 32 <= cv(c) < 127 else "?" for c in cs)


def eqtext(w, st, got, want):
    if got is None:
        return False
    b = [C(c, 8) if isinstance(c, int) else c for c in (want.encode("latin-1") if isinstance(want, str) else want)]
    return len(got) == len(b) and all(same(w, st, a, c) for a, c in zip(got, b))


# characters with no meaning of their own anywhere in a line
PLAIN = ((0x21, 0x21), (0x24, 0x26), (0x28, 0x29), (0x2b, 0x2b), (0x2d, 0x2e), (0x30, 0x39), (0x3c, 0x3c), (0x3e, 0x5d), (0x5f, 0x7a), (0x7c, 0x7c), (0x7e, 0x7e), (0xa0, 0xff))
# characters that may stand between quotes ('/' and '*' are left out: comment marks are looked for first)
QUOTED = ((1, 9), (11, 12), (14, 0x21), (0x23, 0x29), (0x2b, 0x2e), (0x30, 0x7f), (0x81, 0xff))
# characters of a comment
BLOCK = ((1, 9), (11, 12), (14, 0x29), (0x2b, 0x2e), (0x30, 0x3a), (0x3c, 0xff))
COMMENT = ((1, 9), (11, 12), (14, 0x29), (0x2b, 0x2e), (0x30, 0xff))


class Any:
    """n arbitrary characters of a class."""

    def __init__(self, name, n, cls=PLAIN):
        self.cs = [sym("%s%d" % (name, i), 8) for i in range(n)]
        self.cls = cls


def chars_of(*parts):
    out = []
    for p in parts:
        if isinstance(p, Any):
            out += p.cs
        elif isinstance(p, str):
            out += [ord(c) for c in p]
        else:
            out += list(p)
    return out


class Source(Lines):
    """Lines as read from a file: comments and quotes are dealt with, then the words are split."""

    def __init__(self, ck, models=None, real=()):
        md = {"outlistfile": lambda I, s, a, ins: s.ev("list"), "programlabel": lambda I, s, a, ins: s.ev("label"), "fgets": self.m_fgets}
        md.update(models or {})
        Lines.__init__(self, ck, md, real)
        if "cleanup" not in ck.m.funcs:
            raise AnalysisBroken("cleanup not found")
        self.wc = ck.fnline("cleanup")

    def m_fgets(self, I, s, a, ins):
        src = s.note.get("src", ())
        s.ev("read")
        if not src:
            return C(0, 64)
        s.note["src"] = src[1:]
        for i, c in enumerate(list(src[0]) + [10, 0]):
            I.store(s, T.add(a[0], C(i, 64)), C(c, 8) if isinstance(c, int) else c)
        return a[0]

    def start(self, names=("op", "dc", "="), active=(1, 1), table=None):
        """Word table with these names (or the program's own table 'table') and an open conditional."""
        w = self.w
        if table:
            s = State()
            w.gset(s, "bStrictMode", 0)
            rs = w.run(s, "addhashtable", [obj("g:" + table)])
            if len(rs) != 1:
                raise AnalysisBroken("no single result of entering the words")
            s = rs[0][0]
        else:
            s = self.state(list(names))
        q = w.mkobj(s, "ifbase", None, "zero")
        w.fset(s, q, "_IFSTACK", "xtrue", active[0])
        w.fset(s, q, "_IFSTACK", "acctrue", active[1])
        w.gset(s, "Ifstack", q)
        f = w.mkobj(s, "file", None, "zero")
        w.fset(s, f, "_INCFILE", "fi", w.mkptr("infile"))
        w.fset(s, f, "_INCFILE", "name", w.mkstr(s, "filename", "file"))
        w.gset(s, "pIncfile", f)
        return s

    def assume(self, s, parts):
        for p in parts:
            if isinstance(p, Any):
                for c in p.cs:
                    self.w.limit(s, c, p.cls)

    def read(self, s, parts, keep=False, oname="line", end="\n"):
        """[(state, kind, words)] of a line made of strings and Any parts."""
        w = self.w
        s.trace = ()
        self.assume(s, parts)
        p = self.line(s, chars_of(*parts) + [ord(c) for c in end], oname)
        n0 = len(w.exits)
        out = []
        for st, _ in w.run(s, "cleanup", [p, C(1 if keep else 0, 8)]):
            for st2, rv in w.run(st, "parse", [p]):
                out.append((st2, "return", [self.word(st2, k) for k in range(3)]))
        return out + [(st, k, None) for k, st, i in w.exits[n0:]]
