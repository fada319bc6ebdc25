"""Check driver: obligations, known findings, evidence, exit status."""
import json, os, pickle, signal, sys, time, traceback
from . import ir, terms as T
from .interp import Interp, State, Obj, PTRSYM, NONNULL, Budget, Stop
from .ir import AnalysisBroken
from .terms import C, sym, obj, isc, cv, sv

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

_mods = {}


def module(which="dasm"):
    if which not in _mods:
        _mods[which] = ir.Module(ir.build(which))
    return _mods[which]


def mutated_globals(m):
    """Globals some instruction may write (directly, through a GEP, or by a library call)."""
    if hasattr(m, "_mut"):
        return m._mut
    mut = set()
    WR = ("memset", "memcpy", "memmove", "fread", "sprintf", "snprintf", "strcpy", "strncpy", "strcat", "fgets", "qsort")
    for f in m.funcs.values():
        der = {}
        for bn in f.rpo:
            for ins in f.blocks[bn].insts:
                def base(v):
                    if v is None:
                        return None
                    if v[0] == "g":
                        return v[1]
                    if v[0] == "l":
                        return der.get(v[1])
                    if v[0] == "ce" and v[1] == "gep":
                        return base(v[3][0][1])
                    return None
                if ins.op == "getelementptr":
                    b = base(ins.a[1][0][1])
                    if b:
                        der[ins.res] = b
                elif ins.op == "store":
                    b = base(ins.a[1])
                    if b:
                        mut.add(b)
                elif ins.op == "phi":
                    for _, v in ins.a:
                        b = base(v)
                        if b:
                            der[ins.res] = b
                elif ins.op == "call" and ins.a[0][0] == "g":
                    n = ins.a[0][1]
                    if any(w in n for w in WR):
                        b = base(ins.a[1][0][1])
                        if b:
                            mut.add(b)
                    elif n in m.funcs:
                        for _, v in ins.a[1]:
                            b = base(v)
                            g = m.globals.get(b) if b else None
                            if g is not None and not g.const and g.ty.k == "int":
                                mut.add(b)
    m._mut = mut
    return mut


class World(Interp):
    """Interpreter whose mutable globals hold arbitrary values."""

    def __init__(self, m, models=None, fixed=(), **kw):
        super().__init__(m, models, **kw)
        self.mut = mutated_globals(m)
        self.fixed = set(fixed)

    def baseobj(self, oid):
        o = self.base.get(oid)
        if o is not None:
            return o
        if oid.startswith("g:") and oid[2:] in self.mut and oid[2:] not in self.fixed:
            g = self.m.globals[oid[2:]]
            if not g.const:
                o = Obj(("lazy", ""), g.ty.size)
                self.base[oid] = o
                return o
        return super().baseobj(oid)

    # -- access by source-level name
    def gsize(self, name):
        g = self.m.globals.get(name)
        if g is None:
            raise AnalysisBroken("global variable %s not found" % name)
        return g.ty.size

    def gaddr(self, name):
        self.gsize(name)
        return obj("g:" + name)

    def gget(self, s, name, off=0, n=None):
        g = self.m.globals.get(name)
        n = n or self.gsize(name)
        return self.subst(s, self.load(s, T.add(self.gaddr(name), C(off, 64)), n, g.ty.k == "ptr"))

    def gset(self, s, name, v, off=0, n=None):
        n = n or self.gsize(name)
        if isinstance(v, int):
            v = C(v, 8 * n)
        oid = "g:" + name
        self.gsize(name)
        o = self.getobj(s, oid).mod()
        self.put(o, off, v)
        s.mem[oid] = o

    def fld(self, struct, field):
        f = self.m.struct_fields(struct) if (struct, 0) not in self.gptr else self.gptr[(struct, 0)]
        self.gptr[(struct, 0)] = f
        if field not in f:
            raise AnalysisBroken("field %s.%s not found" % (struct, field))
        return f[field]

    def fget(self, s, p, struct, field):
        off, n = self.fld(struct, field)
        return self.subst(s, self.load(s, T.add(p, C(off, 64)), n))

    def fset(self, s, p, struct, field, v):
        off, n = self.fld(struct, field)
        if isinstance(v, int):
            v = C(v, 8 * n)
        oid, o0 = self.resolve(s, p)
        o = self.getobj(s, oid).mod()
        self.put(o, sv(o0) + off, v)
        s.mem[oid] = o

    def mkptr(self, name):
        """Fresh non-null pointer to a lazily defined object."""
        p = sym(name, 64)
        PTRSYM.add(p)
        NONNULL.add(p)
        return p

    def mkstr(self, s, name, text):
        oid = "H:" + name
        b = text if isinstance(text, bytes) else text.encode("latin-1")
        s.mem[oid] = Obj("zero", len(b) + 1, b + b"\0", {})
        return obj(oid)

    def mkobj(self, s, name, size, default="zero"):
        oid = "H:" + name
        s.mem[oid] = Obj(default, size)
        return obj(oid)

    def run(self, s, fname, args):
        if fname not in self.m.funcs:
            raise AnalysisBroken("function %s not found" % fname)
        self.limit_steps = self.steps + self.max_steps
        try:
            return self.call(s, fname, args)
        except Stop:
            return []

    def assume_range(self, s, t, lo, hi):
        return self.limit(s, t, T.rsigned(lo, hi, t.w))


class Enough(BaseException):
    """Ends the analysis early: the time is used up, or so much failed that the answer is known."""


def _alarm(sig, frm):
    raise Enough("not finished after %d seconds" % LIMIT)


LIMIT = int(os.environ.get("VSA_LIMIT", 780))


class Check:
    def __init__(self, pid, which="dasm", level="other", assumptions=()):
        self.pid = pid
        self.t0 = time.time()
        self.which = which
        self.obs = 0
        self.rules = {}
        self.viol = []
        self.broken = []
        self.cov = {}
        self.assumptions = list(assumptions)
        self.interps = []
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.samples = []
        self._m = None

    @property
    def m(self):
        if self._m is None:
            self._m = module(self.which)
        return self._m

    def world(self, models=None, **kw):
        w = World(self.m, models, **kw)
        self.interps.append(w)
        return w

    def ob(self, rule, inst, ok, detail="", where=None):
        """One obligation: rule at an instance."""
        self.obs += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if not ok:
            r[1] += 1
            self.viol.append((rule, inst, detail, where))
            if len(self.viol) >= 2000:
                raise Enough("stopped after %d failures" % len(self.viol))
        elif len(self.samples) < 40 and r[0] <= 2:
            self.samples.append("%s: %s" % (rule, inst))
        return ok

    def need(self, rule, n):
        """The rule must have been instantiated at least n times."""
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            self.broken.append("rule %s instantiated %d times, expected at least %d" % (rule, got, n))

    def fnline(self, fname):
        f = self.m.funcs.get(fname)
        if not f:
            return "?"
        d = self.m.mdget(f.dbg) if f.dbg else None
        if d and d[0] == "DISubprogram":
            return "%s:%s (%s)" % (self.m.scope_file(f.dbg), d[1].get("line", "?"), fname)
        return fname

    def rule(self, fn, *a):
        """Run a group of obligations; an analysis failure is remembered, not raised."""
        try:
            fn(*a)
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (getattr(fn, "__name__", "rule"), e))
            if os.environ.get("VSA_TRACE"):
                traceback.print_exc()
        except RecursionError:
            self.broken.append("%s: recursion limit" % getattr(fn, "__name__", "rule"))

    def fan(self, jobs):
        """Run groups of obligations [(fn, args...)] shared out over several processes."""
        jobs = list(jobs)
        n = max(1, min(os.cpu_count() or 1, 8, len(jobs)))
        kids = []
        for k in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.alarm(max(1, LIMIT - int(time.time() - self.t0)))
                    self.obs, self.rules, self.viol, self.broken, self.samples = 0, {}, [], [], []
                    s0 = sum(i.steps for i in self.interps)
                    try:
                        for j in jobs[k::n]:
                            self.rule(*j)
                    except Enough as e:
                        self.broken.append(str(e))
                    signal.alarm(0)
                    fns, blocks = set(), set()
                    for i in self.interps:
                        fns |= i.fns
                        blocks |= i.blocks
                    out = pickle.dumps((self.obs, self.rules, [tuple(str(x) if x is not None else None for x in v) for v in self.viol], self.broken, self.samples,
                                        fns, sum(i.steps for i in self.interps) - s0, {a: b for a, b in self.cov.items() if isinstance(b, int)}))
                    with os.fdopen(wr, "wb") as f:
                        f.write(out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                d = f.read()
            os.waitpid(pid, 0)
            if not d:
                self.broken.append("internal: a part of the analysis ended early")
                continue
            obs, rules, viol, broken, samples, fns, steps, cov = pickle.loads(d)
            self.obs += obs
            for a, (x, y) in rules.items():
                q = self.rules.setdefault(a, [0, 0])
                q[0] += x
                q[1] += y
            self.viol += viol
            self.broken += broken
            self.samples = (self.samples + samples)[:40]
            if self.interps:
                self.interps[0].fns |= fns
                self.interps[0].steps += steps
            for a, b in cov.items():
                self.cov[a] = self.cov.get(a, 0) + b

    def finish(self):
        known, wanted = {}, []
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith("known: "):
                    p = l[7:].split(" ", 2)
                    if p[0] == "property=" + self.pid and p[1].startswith("key="):
                        known[p[1][4:]] = p[2] if len(p) > 2 else ""
        new = []
        hit = set()
        for rule, inst, detail, where in self.viol:
            key = (rule + "/" + inst).replace(" ", "_")
            if key in known:
                if key not in hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
                hit.add(key)
            else:
                new.append((rule, inst, detail, where))
        fns = set()
        blocks = 0
        calls = 0
        steps = 0
        for i in self.interps:
            fns |= i.fns
            blocks += len(i.blocks)
            calls += len(i.calls)
            steps += i.steps
        ed = os.environ.get("VSA_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        cov = {
            "obligations": self.obs,
            "discharged": self.obs - len(self.viol),
            "rules": {k: {"instances": v[0], "failed": v[1]} for k, v in self.rules.items()},
            "functions_analysed": sorted(fns),
            "basic_blocks": blocks, "call_sites": calls, "abstract_steps": steps,
            "samples": self.samples,
            "explanation": "obligations decided by abstract interpretation / table comparison of the LLVM IR "
                           "compiled from /repo/src on this run; see /verif/DESIGN.md",
        }
        cov.update(self.cov)
        ev = {
            "property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed, "level": self.level, "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3), "assumptions": self.assumptions,
            "violations": ["%s at %s: %s [%s]" % (r, i, d, w or "-") for r, i, d, w in new][:50],
        }
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rep = os.path.join(ed, self.pid + ".report.txt")
        with open(rep, "w") as f:
            f.write("property %s: %d obligations, %d failed\n" % (self.pid, self.obs, len(self.viol)))
            for k, v in self.rules.items():
                f.write("  rule %-40s instances %5d failed %d\n" % (k, v[0], v[1]))
            for r, i, d, w in new:
                f.write("VIOLATION %s\n  instance: %s\n  where: %s\n  detail: %s\n" % (r, i, w or "-", d))
            for b in self.broken:
                f.write("NOT ANALYSED %s\n" % b)
        print("%s: %d obligations over %d functions, %d rules, %.1fs" % (
            self.pid, self.obs, len(fns), len(self.rules), time.time() - self.t0))
        if new:
            for r, i, d, w in new[:12]:
                print("  %s: %s: %s [%s]" % (r, i, d, w or "-"))
            if len(new) > 12:
                print("  ... %d more, see %s" % (len(new) - 12, rep))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            sys.exit(1)
        if self.broken:
            for b in self.broken[:10]:
                print("ANALYSIS-BROKEN property=%s %s" % (self.pid, b))
            sys.exit(2)
        sys.exit(0)


def main(pid, fn, **kw):
    ck = Check(pid, **kw)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        fn(ck)
    except Enough as e:
        ck.broken.append(str(e))
    except AnalysisBroken as e:
        ck.broken.append(str(e))
        if os.environ.get("VSA_TRACE"):
            traceback.print_exc()
    except Exception as e:   # never an answer
        ck.broken.append("internal: %r" % e)
        traceback.print_exc()
    signal.alarm(0)
    ck.finish()
