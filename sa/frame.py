"""Check framework: tasks -> obligations -> report, evidence, exit status."""
import json
import os
import sys
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CHECKS = {}


class Check:
    def __init__(self, pid, rule, tasks, assumptions=()):
        self.pid, self.rule, self.tasks, self.assumptions = pid, rule, tasks, list(assumptions)


def check(pid, rule, assumptions=()):
    """decorator: f(tier) -> list of (task name, callable(ctx))"""
    def d(f):
        CHECKS[pid] = Check(pid, rule, f, assumptions)
        return f
    return d


class Ctx:
    """collects the obligations of one task"""

    def __init__(self, task):
        self.task = task
        self.obs = []
        self.funcs = set()
        self.nops = 0
        self.ncalls = 0
        self.unmodelled = {}

    def saw(self, ip):
        self.funcs |= ip.funcs_seen
        self.nops += ip.nops
        self.ncalls += ip.ncalls
        for k, v in ip.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def add(self, status, what, detail="", site=None, func=None, kind=""):
        self.obs.append(dict(status=status, task=self.task, what=what, detail=str(detail)[:600], site=site, func=func, kind=kind))

    def ok(self, what, detail=""):
        self.add("ok", what, detail)

    def und(self, what, why=""):
        self.add("undecided", what, why)

    def bad(self, what, detail="", site=None, func=None, kind=""):
        self.add("violated", what, detail, site, func, kind)

    def expect(self, cond, what, detail="", **kw):
        """cond: True/False/None (unknown)"""
        if cond is None:
            self.und(what, detail)
        elif cond:
            self.ok(what)
        else:
            self.bad(what, detail, **kw)

    def equal(self, got, want, what, detail="", allow=None, **kw):
        """equality of value numbers; a difference counts only when the value is made of operations whose meaning is known"""
        import vn as vnm
        from theory import SAFE
        if len(got) != len(want):
            return self.bad(what, detail or "%d values instead of %d" % (len(got), len(want)), **kw)
        off = [g for g, w in zip(got, want) if g != w]
        if not off:
            return self.ok(what)
        odd = vnm.ops(*off) - vnm.ops(*want) - (SAFE if allow is None else allow)
        if odd:
            return self.und(what, "differs, but the calculation uses %s" % ", ".join(sorted(odd)[:6]))
        self.bad(what, detail, **kw)


def run_task(t):
    name, f = t
    sys.setrecursionlimit(20000)
    ctx = Ctx(name)
    t0 = time.time()
    try:
        f(ctx)
    except BaseException as e:           # analyser limits never raise an alarm
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        ctx.und("task", "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    return dict(name=name, obs=ctx.obs, funcs=sorted(ctx.funcs), nops=ctx.nops, ncalls=ctx.ncalls,
                unmodelled=ctx.unmodelled, wall=round(time.time() - t0, 3))


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                out.append(ln[len("known: property=%s " % pid):])
    return out


def key_of(o):
    return "%s|%s|%s" % (o["kind"], o["func"] or "", o["what"])


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = argv[argv.index("--task") + 1] if "--task" in argv else None
    ck = CHECKS[pid]
    t0 = time.time()
    tasks = ck.tasks(tier)
    if only:
        tasks = [t for t in tasks if only in t[0]]
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(tasks)))
    if nproc > 1 and not only:
        import multiprocessing as mp
        global _TASKS
        _TASKS = tasks
        try:
            import scen
            scen.Run()                     # parse the sources once, before the workers are forked
        except Exception:
            pass
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=12) as pool:
            res = pool.map(_run_idx, range(len(tasks)), chunksize=1)
    else:
        res = [run_task(t) for t in tasks]
    obs = [o for r in res for o in r["obs"]]
    viol = [o for o in obs if o["status"] == "violated"]
    und = [o for o in obs if o["status"] == "undecided"]
    okn = sum(o["status"] == "ok" for o in obs)
    known = known_findings(pid)
    listed, new = [], []
    for o in viol:
        m = [k for k in known if k.split(" :: ")[0] == key_of(o)]
        (listed if m else new).append((o, m))
    for kf in known:
        if any(kf in m for _, m in listed):
            print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    funcs = sorted({f for r in res for f in r["funcs"]})
    expl = dict(
        explanation="%s Analysed from /repo's current source: %d analysis tasks, %d functions, %d abstract operations; "
                    "%d obligations decided to hold, %d violated, %d undecided (reported here, not counted as held)."
                    % (ck.rule, len(res), len(funcs), sum(r["nops"] for r in res), okn, len(viol), len(und)),
        tasks=len(res), obligations=len(obs), discharged=okn, undecided=len(und),
        functions_analysed=funcs, abstract_operations=sum(r["nops"] for r in res), calls_followed=sum(r["ncalls"] for r in res),
        undecided_list=[dict(task=o["task"], what=o["what"], why=o["detail"]) for o in und][:60],
        samples=[dict(task=o["task"], obligation=o["what"], status=o["status"]) for o in obs[:: max(1, len(obs) // 12)]][:14],
        unmodelled_operations={k: v for r in res for k, v in r["unmodelled"].items()},
        slowest=sorted(((r["wall"], r["name"]) for r in res), reverse=True)[:5],
    )
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other", coverage=expl,
              assumptions=ck.assumptions + GENERAL_ASSUMPTIONS, wall_s=round(wall, 3), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d hold, %d violated, %d undecided; %d tasks, %d functions, %.1f s"
          % (pid, len(obs), okn, len(viol), len(und), len(res), len(funcs), wall))
    if "-v" in argv:
        for o in und:
            print("  undecided [%s] %s: %s" % (o["task"], o["what"], o["detail"][:300]))
    if new:
        groups = {}
        for o, _ in new:
            groups.setdefault((o["site"], o["kind"], o["what"] if not o["site"] else ""), []).append(o)
        rep = os.path.join(EVID, "replay-%s.json" % pid)
        with open(rep, "w") as f:
            json.dump(dict(property=pid, rule=ck.rule, violations=[o for o, _ in new]), f, indent=1)
        for g in list(groups.values())[:12]:
            o = g[0]
            print("  violated [%s] %s" % (o["task"], o["what"]))
            if o["site"]:
                print("      at %s in %s" % (o["site"], o["func"]))
            if o["detail"]:
                print("      %s" % o["detail"])
            if len(g) > 1:
                print("      (and %d more obligations broken by the same construct)" % (len(g) - 1))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if not okn and not only:
        print("nothing could be decided", file=sys.stderr)
        return 2
    return 0


_TASKS = []


def _run_idx(i):
    return run_task(_TASKS[i])


GENERAL_ASSUMPTIONS = [
    "The analyser's model of the torch/NumPy/SciPy operations used (shape, dtype, device, aliasing, gradient and value rules) is trusted.",
    "Particle, wavenumber, angle, position axes and the order are symbolic (at least two entries, respectively at least one order, "
    "unless a scenario fixes them); the number of layers is concrete in each scenario.",
    "Value equality is decided by global value numbering over a 100-bit prime field (false equality has negligible probability); "
    "guards against exact zero (constants of 1e-8 or smaller) are ignored.",
    "Anything the analyser cannot interpret is reported as undecided and never as a violation.",
]
