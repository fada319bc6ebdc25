"""C46: memory handed out by the allocation functions."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.dasm import *
from vsa.interp import m_malloc


def run(ck):
    m = ck.m
    # which allocation functions the program has: those that return a pointer and are asked for a number of bytes
    for f in ("permalloc", "zmalloc", "ckmalloc"):
        if f not in m.funcs:
            raise AnalysisBroken("%s not found" % f)
    fail = [None]

    def malloc(I, s, a, ins):
        k = s.note.get("nmalloc", 0)
        s.note["nmalloc"] = k + 1
        n = I.subst(s, a[0])
        if not isc(n):
            raise AnalysisBroken("request of undetermined size")
        s.ev("malloc", sv(n))
        if fail[0] is not None and k >= fail[0] or cv(n) >= 1 << 31:
            return C(0, 64)
        oid = "H:block%d" % k
        s.mem[oid] = Obj("undef", cv(n))
        return obj(oid)

    def calloc(I, s, a, ins):
        p = malloc(I, s, [T.mul(a[0], a[1])], ins)
        if not isc(p):
            s.mem[p.a[0]] = Obj("zero", s.mem[p.a[0]].size)
        return p
    w = ck.world({"malloc": malloc, "calloc": calloc, "printf": lambda I, s, a, ins: C(1, 32), "puts": lambda I, s, a, ins: C(1, 32), "fputs": lambda I, s, a, ins: C(1, 32),
                  "fprintf": lambda I, s, a, ins: C(1, 32), "unlink": lambda I, s, a, ins: C(0, 32), "remove": lambda I, s, a, ins: C(0, 32), "fclose": lambda I, s, a, ins: C(0, 32), "fflush": lambda I, s, a, ins: C(0, 32)},
                 fixed=set(m.globals), unroll=70000)
    CAP = 16384

    def calls(seq, nofail=None):
        """[(state, kind, [(function, size, pointer)])] of the requests in turn."""
        fail[0] = nofail
        s = State()
        for g, v in (("bRemoveOutBin", 0), ("F_outfile", 0), ("FI_listfile", 0), ("FI_temp", 0)):
            if g in m.globals:
                w.gset(s, g, v)
        work, done = [(s, [])], []
        for f, n in seq:
            nxt = []
            for st, got in work:
                n0 = len(w.exits)
                for s2, rv in w.run(st, f, [C(n, 32)]):
                    nxt.append((s2, got + [(f, n, w.subst(s2, rv))]))
                done += [(s2, k, got) for k, s2, i in w.exits[n0:]]
            work = nxt
        return [(st, "return", got) for st, got in work] + done

    def zero(st, p, n):
        oid, off = p
        o = st.mem[oid]
        return all(w.subst(st, w.load(st, obj(oid) if off + i == 0 else T.add(obj(oid), C(off + i, 64)), min(8, n - i) if (n - i) >= 8 else 1)) is C(0, 64 if n - i >= 8 else 8)
                   for i in (range(0, n - n % 8, 8) if n >= 8 else [])) and all(w.subst(st, w.load(st, T.add(obj(oid), C(off + i, 64)), 1)) is C(0, 8) for i in range(n - n % 8, n))

    def given(seq, what):
        rs = calls(seq)
        wh = ck.fnline(seq[0][0])
        ck.ob("answered", what, len(rs) > 0, "no result", wh)
        for st, kind, got in rs:
            if not ck.ob("answered", what, kind == "return", "request for %d bytes ends in %s" % (seq[min(len(got), len(seq) - 1)][1], kind), ck.fnline(seq[min(len(got), len(seq) - 1)][0])):
                continue
            used = {}
            for k, (f, n, p) in enumerate(got):
                wf = ck.fnline(f)
                oid, off = (None, None) if isc(p) else w.resolve(st, p)
                off = None if off is None else off if isinstance(off, int) else sv(off) if isc(off) else None
                inst = "%s: request %d (%s %d)" % (what, k + 1, f, n)
                if not ck.ob("block", inst, oid in st.mem and off is not None, "result is not a block", wf):
                    continue
                sz = st.mem[oid].size
                ck.ob("size", inst, sz is not None and off >= 0 and off + n <= sz, "%s bytes from offset %s of a block of %s" % (n, off, sz), wf)
                ck.ob("alignment", inst, off % 8 == 0, "offset %d" % off, wf)
                over = [j for j, a, b in used.get(oid, ()) if a < off + n and off < b]
                ck.ob("overlap", inst, not over, "overlaps request %s" % [j + 1 for j in over[:2]], wf)
                used.setdefault(oid, []).append((k, off, off + n))
                if f != "ckmalloc" and sz is not None and 0 <= off and off + n <= sz:
                    ck.ob("zeroed", inst, zero(st, (oid, off), n), "not zeroed", wf)

    P, Z, K_ = "permalloc", "zmalloc", "ckmalloc"
    for n in (1, 2, 7, 8, 9, 15, 16, 17, 64, 1000, CAP - 9, CAP - 8, CAP - 7, CAP - 1, CAP):
        ck.rule(given, [(P, n)], "one request")
        ck.rule(given, [(P, n), (P, n)], "two requests")
        ck.rule(given, [(P, 8), (P, n), (P, 1), (P, 24)], "mixed requests")
        ck.rule(given, [(P, CAP - 16), (P, n), (P, 8), (P, 8)], "requests near the end")
        ck.rule(given, [(P, CAP - n if n < CAP else 1), (P, n), (P, 1)], "requests that fill it")
    for n in (1, 5, 8, 64, 72, 1000, 4096):
        ck.rule(given, [(Z, n)], "one request")
        ck.rule(given, [(K_, n)], "one request")
        ck.rule(given, [(Z, n), (K_, n), (P, n), (Z, 1), (P, 9), (K_, 100000)], "all functions")
    ck.rule(given, [(P, 1)] * 70, "seventy single bytes")
    ck.rule(given, [(P, 1000)] * 40, "forty requests of 1000")
    rnd = random.Random(7)
    for k in range(6):
        ck.rule(given, [(P, rnd.choice((1, 3, 8, 13, 40, 72, 80, 500, 2500, 6000))) for i in range(30)], "series %d" % k)

    def none(seq, nofail, what):
        rs = calls(seq, nofail)
        wh = ck.fnline(seq[-1][0])
        ck.ob("out of memory", what, len(rs) > 0, "no result", wh)
        for st, kind, got in rs:
            code = [e[1] for e in flat(st.trace) if e[0] == "exit"]
            ck.ob("out of memory", what, kind != "return" and len(code) == 1 and isc(code[0]) and cv(code[0]) & 255 != 0, "goes on with %s" % (got[-1][2] if got else kind), wh)
    for f in (P, Z, K_):
        for n in (1, 64, 5000):
            ck.rule(none, [(f, n)], 0, "%s %d" % (f, n))
            ck.rule(none, [(f, 10000), (f, 10000)], 1, "second %s" % f)
    for r, n in (("answered", 90), ("block", 200), ("size", 200), ("alignment", 200), ("overlap", 200), ("zeroed", 200), ("out of memory", 12)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C46", run)
