"""C43: what ECHO shows, and which pass's messages are shown."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mainprog import *
from vsa.fio import Files
from vsa.interp import cstring, format_bytes
from vsa.screen import screen_models

M64 = (1 << 64) - 1


class Item:
    """Evaluated operand: number, string, or (string, number) for a string symbol; unknown: not resolved."""

    def __init__(self, v, unknown=False, macro=False):
        self.v, self.unknown, self.macro = v, unknown, macro

    def text(self):
        return "" if self.unknown else " " + (self.v if isinstance(self.v, str) else "$%x" % (self.v & M64))

    def __repr__(self):
        return "%s%r" % ("unresolved " if self.unknown else "", self.v)


def run(ck):
    F = Files()

    LISTS = {}
    UNK, STRING, MACRO = K("SYM_UNKNOWN", "SYM_STRING", "SYM_MACRO")

    def m_eval(I, s, a, ins):
        t = cstring(I, s, a[0])
        items = LISTS.get(t.decode() if t else None)
        if items is None:
            raise AnalysisBroken("evaluation of unexpected text")
        k0 = s.note.get("evals", 0)
        s.note["evals"] = k0 + 1
        nxt = C(0, 64)
        for k in reversed(range(len(items))):
            it = items[k]
            p = I.mkobj(s, "sym%d_%d" % (k0, k), None, "zero")
            I.fset(s, p, "_SYMBOL", "flags", (UNK if it.unknown else 0) | (STRING if isinstance(it.v, str) else 0) | (MACRO if it.macro else 0))
            I.fset(s, p, "_SYMBOL", "value", 0 if isinstance(it.v, str) else it.v & M64)
            I.fset(s, p, "_SYMBOL", "string", I.mkstr(s, "str%d_%d" % (k0, k), it.v) if isinstance(it.v, str) else 0)
            I.fset(s, p, "_SYMBOL", "next", nxt)
            nxt = p
        return nxt
    md = {k: v for k, v in F.models().items() if k not in ("fseek",)}
    md = screen_models(md)
    md.update({"eval": m_eval, "FreeSymbolList": lambda I, s, a, ins: None})
    M = Main(ck, real=("passbuffer_clear", "passbuffer_update", "passbuffer_output", "passbuffer_cleanup"), models=md)
    w = M.w
    e = next((x for x in mne_table(ck.m, "Ops") if x.name == "echo"), None)
    if not ck.ob("available", "echo", e is not None, "directive missing", "directive table"):
        return
    where = ck.fnline(e.vect)
    wmain = ck.fnline("MainShadow")

    def echo(items, redo=None):
        """Handler effect: ECHO of the items, then further reasons for a pass."""
        key = "items%d" % len(LISTS)
        LISTS[key] = items

        def f(I, s):
            res = I.call(s, e.vect, [I.mkstr(s, "text_" + key, key), C(0, 64)])
            return [(st, None) for st, rv in res]
        return f

    def both(*fs):
        def f(I, s):
            ss = [s]
            for g in fs:
                nx = []
                for x in ss:
                    r = g(I, x)
                    nx += [y for y, _ in r] if isinstance(r, list) else [x]
                ss = nx
            return [(x, None) for x in ss]
        return f

    def screen(st):
        t = [x[1] for x in flat(st.trace) if x[0] == "screen"]
        return None if any(x is None for x in t) else "".join(t)

    def listing(st):
        for x in reversed(flat(st.trace)):
            if x[0] == "fopen" and x[1] == "list":
                return "".join(chr(cv(b)) if isc(b) else "#" for b in (w.subst(st, y) for y in F.data(st, x[3])))
        return None

    def lines(t, marks):
        """Lines of the text that show one of the marks."""
        return [l.rstrip("\r") for l in t.split("\n") if any(m in l for m in marks)]
    ITEMS = [[], [Item(0)], [Item("@text")], [Item("@a"), Item(5)], [Item(0x1234), Item("@b c"), Item(-1)], [Item("@%s%d%n%%")], [Item("@a", macro=True)], [Item("")],
             [Item("@a"), Item(1, True), Item(2)], [Item("@long" + "x" * 300)], [Item(1 << 40), Item(0xabcdef), Item(255), Item(16)], [Item("@u", True), Item("@v")],
             [Item("@" + c) for c in "abcdef"], [Item(-(1 << 63))]]

    def shown(items, list_on):
        L = [Line(word="echo", flags=0, effect=echo([Item("@first")])), Line(word="echo", flags=0, effect=echo(items)), Line(word="echo", flags=0, effect=echo([Item("@last")])), None]
        rs = M.go(L, args=("-llist",) if list_on else ())
        inst = "ECHO %s%s" % (items, " with listing" if list_on else "")
        want = "".join(i.text() for i in items)
        ck.ob("items", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            t = screen(st)
            for what, x in (("screen", t),) + ((("list file", listing(st)),) if list_on else ()):
                if x is None:
                    ck.ob("items", inst, False, "text on %s not decided" % what, where)
                    continue
                i, j = x.find(" @first\n"), x.find(" @last\n")
                ck.ob("items", inst, i >= 0 and j >= 0 and x.count("@first") == 1 and x.count("@last") == 1, "lines around it missing or repeated on the %s" % what, where)
                if i >= 0 and j >= 0:
                    got = x[i + 8:j]
                    ls = [l for l in got.split("\n") if not (what == "list file" and l[:7].strip().isdigit())]
                    ck.ob("items", inst, "\n".join(ls) == want + "\n", "%s shows %r, expected %r" % (what, got[:80], want[:80]), where)
    for items in ITEMS:
        ck.rule(shown, items, False)
        ck.rule(shown, items, True)

    def much(n, size):
        """Many long lines in one pass."""
        texts = ["@%d:" % k + "abcdefghij"[k % 10] * size for k in range(n)]
        rs = M.go([Line(word="echo", flags=0, effect=both(*[echo([Item(t)]) for t in texts])), None])
        inst = "%d lines of %d characters" % (n, size)
        ck.ob("all lines", inst, len(rs) > 0, "no result", where)
        for st, kind, code in rs:
            x = screen(st)
            got = None if x is None else lines(x, ["@"])
            ck.ob("all lines", inst, got == [" " + t for t in texts], "shown: %s lines" % (len(got) if got is not None else "undecided"), ck.fnline("passbuffer_update") if "passbuffer_update" in ck.m.funcs else where)
    for n, size in ((8, 500), (18, 1000), (35, 1000)):
        ck.rule(much, n, size)

    UNKM = K("ERROR_UNKNOWN_MNEMONIC")
    redo = lambda n: effect(Redo=n, Redo_why=1)
    tag = lambda k, x: echo([Item("@%s%d" % (x, k))])

    def passes(n, err, abort, list_on):
        """n passes; err: passes that report an error; abort: the last pass ends in an abort."""
        def eff(x):
            fs = []
            for k in range(1, n + 1):
                p = [tag(k, x)]
                if x == "a" and k in err:
                    p.append(report(UNKM))
                if x == "b" and k < n:
                    p.append(redo(20 - k))
                if x == "b" and k == n and abort:
                    p.append(report(K("ERROR_SYNTAX_ERROR"), True))
                fs.append(both(*p))
            return bypass(*fs)
        script = ([Line(word="x", flags=0, effect=eff("a")), Line(word="x", flags=0, effect=eff("b")), None]) * n
        rs = M.go(script, args=("-llist",) if list_on else ())
        inst = "%d passes%s%s" % (n, ", error in pass %s" % ", ".join(map(str, sorted(err))) if err else "", ", then aborted" if abort else "")
        ck.ob("last pass", inst, len(rs) > 0, "no result", wmain)
        for st, kind, code in rs:
            x = screen(st)
            if x is None:
                ck.ob("last pass", inst, False, "text on the screen not decided", wmain)
                continue
            got = lines(x, ["@"])
            want = [" @a%d" % n, " @b%d" % n]
            failed = n in err
            if failed and not abort:
                ck.ob("last pass", inst, not [g for g in got if g not in want], "shown: %s" % got, wmain)
            else:
                ck.ob("last pass", inst, got == want, "shown: %s, expected %s" % (got, want), wmain)
            errs = lines(x, ["Unknown Mnemonic", "Syntax Error"])
            ck.ob("errors shown", inst, len(errs) == (n in err) + bool(abort), "errors shown: %s" % errs, wmain)
    for n in (1, 2, 3):
        for err in [()] + [(k,) for k in range(1, n + 1)] + ([tuple(range(1, n + 1))] if n > 1 else []):
            for abort in (False, True):
                ck.rule(passes, n, err, abort, False)
    for n in (1, 2):
        ck.rule(passes, n, (), False, True)
    for r, n in (("items", 60), ("all lines", 4), ("last pass", 40), ("errors shown", 20)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C43", run)
