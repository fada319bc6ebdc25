"""Make planted bugs from a list: python3 tools/mkbug.py SPECFILE [ID...]

The spec file defines BUGS = [dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo, files={name: text})].
Each is made in a scratch copy, confirmed (builds, stable tests pass, demo 0 on the unchanged tree and non-zero
with the patch) and written to /verif/seeded/<id>.  The working tree of /repo is restored after each step."""
import json, os, subprocess, sys, tempfile, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# exits 0 if the behaviour is right, 1 if not
here=$(cd "$(dirname "$0")" && pwd)
dasm=/repo/_build/tree/src/dasm
ftohex=/repo/_build/tree/src/ftohex
src=/repo/src
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 2
hex() { od -An -v -tx1 "$1" | tr -d ' \\n'; }
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base.get("passed") or base.get("stable") or base
    r = sh("bash /opt/vp/test.sh /tmp/mkbug.json")
    got = set(json.load(open("/tmp/mkbug.json"))["passed"])
    names = base if isinstance(base, list) else list(base)
    return [n for n in names if n not in got], r


def clean():
    sh("git -C /repo checkout -- .")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo not clean")
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        tmp = tempfile.mkdtemp()
        try:
            bad = None
            eds = b["edits"]
            if isinstance(eds, list):
                eds = {b["file"]: eds}
            for f, es in eds.items():
                p = os.path.join("/repo/src", f)
                t = open(p, encoding="latin-1", newline="").read()
                for old, new in es:
                    if t.count(old) != 1:
                        bad = "text occurs %d times in %s: %r" % (t.count(old), f, old[:60])
                        break
                    t = t.replace(old, new)
                open(p, "w", encoding="latin-1", newline="").write(t)
            if bad:
                print(b["id"], "BAD", bad)
                continue
            patch = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
            open(tmp + "/patch.diff", "wb").write(patch)
            miss, r = stable()
            if miss:
                print(b["id"], "BAD tests fail:", miss, r.stdout[-200:] if len(miss) > 50 else "", r.stderr[-300:] if len(miss) > 50 else "")
                continue
            open(tmp + "/demo.sh", "w").write(PRE + b["demo"].strip() + "\n")
            for n, x in b.get("files", {}).items():
                open(os.path.join(tmp, n), "w").write(x)
            r1 = sh("bash %s/demo.sh" % tmp, cwd="/repo", timeout=300)
            clean()
            sh("bash /opt/vp/build.sh")
            r0 = sh("bash %s/demo.sh" % tmp, cwd="/repo", timeout=300)
            if r0.returncode != 0 or r1.returncode == 0:
                print(b["id"], "BAD demo: unchanged %d, patched %d" % (r0.returncode, r1.returncode), r0.stdout[-300:], r0.stderr[-300:], "|", r1.stdout[-300:])
                continue
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(b["id"], "ok")
        finally:
            shutil.rmtree(tmp)
            clean()
    sh("bash /opt/vp/build.sh")


main()
