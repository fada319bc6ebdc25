"""Abstract output stream: contents as a sequence of byte terms, with a position."""
from .dasm import *


class Content(tuple):
    """Tuple with a remembered hash (contents are part of the partition key)."""

    def __hash__(self):
        h = self.__dict__.get("h")
        if h is None:
            h = self.__dict__["h"] = tuple.__hash__(self)
        return h


class Files:
    """Models of the stdio calls the assembler writes its output with.  The stream is identified by its pointer."""

    def models(self):
        return {"putc": self.putc, "fputc": self.putc, "_IO_putc": self.putc, "fwrite": self.fwrite, "ftell": self.ftell, "fseek": self.fseek,
                "rewind": lambda I, s, a, ins: self.setpos(s, a[0], 0),
                "getc": self.getc, "fgetc": self.getc, "_IO_getc": self.getc, "fread": self.fread, "feof": self.feof,
                "fprintf": self.fprintf, "fputs": self.fputs}

    def key(self, p):
        return T.show(p)

    def data(self, s, p):
        return s.note.get("file:" + self.key(p), ())

    def pos(self, s, p):
        return s.note.get("pos:" + self.key(p), 0)

    def setpos(self, s, p, n):
        s.note["pos:" + self.key(p)] = n

    def write(self, s, p, bs):
        d = list(self.data(s, p))
        n = self.pos(s, p)
        while len(d) < n:
            d.append(C(0, 8))
        d[n:n + len(bs)] = bs
        s.note["file:" + self.key(p)] = Content(d)
        self.setpos(s, p, n + len(bs))

    def putc(self, I, s, a, ins):
        self.write(s, a[1], [T.extract(a[0], 0, 8)])
        return T.zext(T.extract(a[0], 0, 8), 32)

    def fwrite(self, I, s, a, ins):
        n = T.mul(a[1], a[2])
        n = I.subst(s, n)
        if not isc(n) or cv(n) > 4096:
            # any length is possible: nothing definite was written
            s.ev("write of any length")
            self.write(s, a[3], [sym("anylength%d" % len(self.data(s, a[3])), 8)])
            return a[2]
        self.write(s, a[3], [I.load(s, T.add(a[0], C(i, 64)), 1) for i in range(cv(n))])
        return a[2]

    def ftell(self, I, s, a, ins):
        return C(self.pos(s, a[0]), 64)

    def fseek(self, I, s, a, ins):
        off, wh = I.subst(s, a[1]), I.subst(s, a[2])
        if not isc(off) or not isc(wh):
            # any position is possible: take one outside what was written
            s.ev("seek anywhere")
            self.setpos(s, a[0], len(self.data(s, a[0])) + 5)
            return C(0, 32)
        base = {0: 0, 1: self.pos(s, a[0]), 2: len(self.data(s, a[0]))}[cv(wh)]
        self.setpos(s, a[0], base + sv(off))
        return C(0, 32)

    # -- reading and formatted writing
    def fill(self, s, p, bs):
        s.note["file:" + self.key(p)] = Content(bs)

    def getc(self, I, s, a, ins):
        d, n = self.data(s, a[0]), self.pos(s, a[0])
        if n >= len(d):
            s.note["eof:" + self.key(a[0])] = True
            return C(-1, 32)
        self.setpos(s, a[0], n + 1)
        return T.zext(d[n], 32)

    def fread(self, I, s, a, ins):
        sz, cnt = I.subst(s, a[1]), I.subst(s, a[2])
        if not isc(sz) or not isc(cnt):
            raise AnalysisBroken("read of undetermined length")
        d, n = self.data(s, a[3]), self.pos(s, a[3])
        want = cv(sz) * cv(cnt)
        got = d[n:n + want]
        for i, b in enumerate(got):
            I.store(s, T.add(a[0], C(i, 64)), b)
        if len(got) < want:
            s.note["eof:" + self.key(a[3])] = True
        self.setpos(s, a[3], n + len(got))
        return C(len(got) // cv(sz) if cv(sz) else 0, 64)

    def feof(self, I, s, a, ins):
        return C(1 if s.note.get("eof:" + self.key(a[0])) else 0, 32)

    def fprintf(self, I, s, a, ins):
        from .interp import format_bytes
        b = format_bytes(I, s, a[1], a[2:])
        if b is None:
            raise AnalysisBroken("formatted output of undetermined form")
        self.write(s, a[0], b)
        return C(len(b), 32)

    def fputs(self, I, s, a, ins):
        from .interp import bytes_at
        b = bytes_at(I, s, a[0])
        if b is None:
            raise AnalysisBroken("output of undetermined text")
        self.write(s, a[1], list(b))
        return C(1, 32)
