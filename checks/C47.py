"""C47: machine support files can be included and their macros used."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vsa.mach import *
from vsa.mnem import mne_table

# names the user of the macros supplies (said so in the files)
SUPPLIED = {"68hc908": {"F_CPU", "next_var", "MoniRomDelayLoop"}, "channel-f": {"prompt"}}
# files whose names the macros of another file use (said so in the files)
WITH = {"atari2600": ["atari2600/vcs.h", "atari2600/macro.h"], "atari7800": ["atari7800/7800.h", "atari7800/macro.h"], "channel-f": ["channel-f/ves.h", "channel-f/macro.h"]}
REGS = {"Mne6502": "a x y", "MneF8": "a j w hu hl ku kl qu ql h k q dc dc0 dc1 p p0 pc0 pc1 is isar ic s i d", "Mne68HC11": "a b d x y sp", "Mne68908": "a x hx h sp"}


def run(ck):
    ops = {e.name for e in mne_table(ck.m, "Ops")}
    if len(ops) < 40:
        raise AnalysisBroken("directive table not found")
    fs = files()
    dirs = sorted({f.split("/")[0] for f in fs})
    for d in dirs:
        mine = [f for f in fs if f.startswith(d + "/")]
        cpu = CPU.get(d)
        if cpu is None:
            continue
        mn = {e.name for e in mne_table(ck.m, cpu)}
        if len(mn) < 40:
            raise AnalysisBroken("instruction table of %s not found" % d)
        sub = {included(s) for f in mine for s in read(f) if s.name == "include"}
        top = [f for f in mine if f.split("/")[1] not in sub]
        macros = {(s.arg.split() or [""])[0].lower() for f in mine for s in read(f) if s.name in ("mac", "macro")}

        # statements
        for f in mine:
            for s in read(f):
                inst = "%s '%s'" % (f, (s.label + " " + s.op).strip())
                if s.op and s.op != "=" and "{" not in s.op:
                    ck.ob("operation", inst, s.name in ops or s.name in mn or s.name in macros, "%s is no directive, instruction or macro" % s.op, s.where)
                lab = s.label.lower().rstrip(":")
                ck.ob("first column", inst, not (lab in ops and lab not in ("=", "")), "%s in the first column is a label" % s.label, s.where)
                if s.name in ("mac", "macro"):
                    ck.ob("macro name", inst, bool(s.arg.split()), "macro without a name", s.where)
        # inclusion
        for group in ([[f] for f in top] + ([WITH[d]] if d in WITH else [])):
            if not all(g in fs for g in group):
                raise AnalysisBroken("%s not found" % group)
            M = Machine(group)
            inst = "+".join(group)
            for kind, s, text in M.problems:
                ck.ob("inclusion", inst, False, text, s.where)
            ck.ob("inclusion", inst, True, "", group[0])
            if len(group) == 1 and d in WITH and any(g != group[0] and g in fs for g in WITH[d]) and "macro" in group[0]:
                continue
            # names used by macros
            for name, (head, body) in sorted(M.macros.items()):
                local = {s.label.rstrip(":") for s in body if s.label}
                for s in body:
                    if s.name in ("echo", "mac", "macro", "endm", "include") or not s.arg:
                        continue
                    t = re.sub(r'"[^"]*"', " ", s.arg)
                    t = re.sub(r"\{\d+\}", " ", t)
                    if s.name in ("ifconst", "ifnconst", "ifdef", "ifndef"):
                        continue
                    for n in re.findall(r"(?<![\w$%.])(?:[A-Za-z_.][\w.$]*|\d+\$)", t):
                        if n == ".":
                            continue
                        ok = n in M.sym or n in local or n in SUPPLIED.get(d, ()) or n.lower() in REGS[cpu].split()
                        ck.ob("name", "macro %s of %s: %s" % (name, inst, n), ok, "%s is not defined" % n, s.where)
    for r, n in (("operation", 600), ("first column", 600), ("inclusion", 8), ("macro name", 15), ("name", 40)):
        ck.need(r, n)


if __name__ == "__main__":
    main("C47", run)
