#!/usr/bin/env python3
"""Try edits of the sources against checks: tools/mut.py SPEC [NAME...]
SPEC defines MUTS = [(name, [checks] or "all", expected exit, {file: [(old, new), ...]})]; file relative to src.
Each edit is made in a scratch copy of the repository, built and tested there."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
only = set(sys.argv[2:])
muts = [m for m in spec["MUTS"] if not only or m[0] in only or any(m[0].startswith(o + "/") for o in only)]
ALL = sorted(f[:-3] for f in os.listdir(V + "/checks") if f.startswith("C") and f.endswith(".py"))
root = tempfile.mkdtemp(prefix="mut")


def one(k):
    name, checks, want, edits = muts[k]
    d = "%s/%d" % (root, k)
    shutil.copytree(os.environ.get("MUT_BASE", "/repo"), d, ignore=shutil.ignore_patterns(".git", "_build", "test", "docs"))
    for f, es in edits.items():
        p = "%s/src/%s" % (d, f)
        t = open(p, encoding="latin-1").read()
        for old, new in es:
            if t.count(old) != 1:
                return "%s: '%s...' occurs %d times in %s" % (name, old[:40], t.count(old), f)
            t = t.replace(old, new)
        open(p, "w", encoding="latin-1").write(t)
        if "machines" in f:
            continue
        r = subprocess.run(["gcc", "-fsyntax-only", "-w", f], cwd=d + "/src", capture_output=True, text=True)
        if r.returncode:
            return "%s: does not compile: %s" % (name, r.stderr[:300])
    out = []
    for c in ALL if checks == "all" else checks:
        r = subprocess.run([sys.executable, "%s/checks/%s.py" % (V, c)], env=dict(os.environ, VSA_REPO=d, VSA_EVID=d), capture_output=True, text=True, timeout=900)
        if r.returncode != want:
            out.append("%s exit %d%s" % (c, r.returncode, " " + " | ".join(x.strip() for x in (r.stdout + r.stderr[-300:]).split("\n")[1:4])))
    shutil.rmtree(d)
    return "%s: %s" % (name, "ok" if not out else "UNEXPECTED " + "; ".join(out))


with ThreadPoolExecutor(8) as ex:
    bad = 0
    for r in ex.map(one, range(len(muts))):
        if not r.endswith(": ok") or only:
            print(r, flush=True)
        bad += not r.endswith(": ok")
shutil.rmtree(root)
print("%d edits, %d not as expected" % (len(muts), bad))
