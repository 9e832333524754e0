"""One worker process: runs scenarios, shrinks plans, replays files."""

import collections
import gc
import importlib
import json
import os
import random
import shutil
import sys
import time

_t0 = time.monotonic
from . import kernel, seams, world  # noqa: E402

OUTDIR = None


def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    root = os.path.join(base, "pyage-sim", "%010d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "cwd"), mode=0o700)
    os.chdir(os.path.join(root, "cwd"))
    return root


def boot():
    import resource

    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    root = scratch()
    seams.install(root)
    gc.collect()
    gc.freeze()
    gc.disable()
    return root


def finish(root):
    os.chdir("/")
    shutil.rmtree(root, ignore_errors=True)
    try:
        os.rmdir(os.path.dirname(root))
    except OSError:
        pass


def load(prop):
    return importlib.import_module("sim.scenarios." + prop.lower())


def execute(sc, plan, root):
    """Run one plan.  Returns the context; raises Hang or HarnessError."""
    ctx = world.Ctx(root)
    random.seed(12345)  # what the package could misuse as randomness
    sc.run(json.loads(json.dumps(plan)), ctx)
    return ctx


def make_plan(sc, prop, seed, idx, tier):
    r = random.Random("%s:%s:%d" % (prop, seed, idx))
    return sc.gen(r, tier)


class Stats:
    def __init__(self):
        self.runs = self.procs = self.events = self.switches = self.lines = 0
        self.simtime = 0.0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.kindcount = collections.Counter()
        self.sigs = set()
        self.allsigs = set()
        self.digests = []
        self.nontrivial = 0
        self.samples = []

    def add(self, ctx, plan, keep):
        self.runs += 1
        self.procs += ctx.nprocs
        for s in ctx.sims:
            self.events += s.steps
            self.switches += len(s.switches)
            self.lines += s.lines
            self.simtime += max(0.0, s.now - s.t0)
            self.fired.update(s.fired)
            self.kindcount.update(s.kindcount)
        self.probes.update(ctx.probes)
        k = ctx.kinds()
        self.allsigs.add(k)
        if not ctx.trivial:
            self.nontrivial += 1
            self.sigs.add(k)
            if len(self.samples) < keep:
                fired = collections.Counter()
                for s in ctx.sims:
                    fired.update(s.fired)
                self.samples.append(
                    {"plan": plan, "fired": dict(fired), "probes": dict(ctx.probes), "digest": ctx.digest()}
                )
        self.digests.append(ctx.digest())

    def dump(self):
        d = dict(self.__dict__)
        d["sigs"] = sorted(self.sigs)
        d["allsigs"] = sorted(self.allsigs)
        return d


def emit(obj):
    with seams.REAL_OPEN(OUTDIR, "w") as f:
        json.dump(obj, f)
        f.flush()
        os.fsync(f.fileno())


def lane_main(prop, seed, tier, lanes, nlanes, total, budget, only=None):
    root = boot()
    sc = load(prop)
    st = Stats()
    start = _t0()
    viol = None
    skipped = 0
    idx = -1
    try:
        todo = [i for i in range(total) if i % nlanes in lanes]
        if only is not None:
            todo = [i for i in todo if i in only]
        for n, idx in enumerate(todo):
            if _t0() - start > budget:
                skipped = len(todo) - n
                break
            plan = make_plan(sc, prop, seed, idx, tier)
            try:
                ctx = execute(sc, plan, root)
            except kernel.Hang:
                emit({"hang": {"idx": idx, "plan": plan}, "stats": st.dump()})
                hard_exit(root, 3)
            st.add(ctx, plan, 2)
            if ctx.violations:
                viol = {"idx": idx, "plan": plan, "kind": ctx.violations[0][0], "msg": ctx.violations[0][1]}
                break
        emit({"stats": st.dump(), "violation": viol, "skipped": skipped})
    except BaseException as e:
        import traceback

        emit({"harness": {"idx": idx, "error": traceback.format_exc()}, "stats": st.dump()})
        sys.stderr.write("harness error in run %d: %r\n" % (idx, e))
        hard_exit(root, 4)
    finish(root)


def hard_exit(root, code):
    try:
        finish(root)
    finally:
        sys.stdout.flush()
        os._exit(code)


def one_main(plan_file):
    """Run a single plan and report."""
    root = boot()
    with seams.REAL_OPEN(plan_file) as f:
        job = json.load(f)
    sc = load(job["property"])
    try:
        ctx = execute(sc, job["plan"], root)
    except kernel.Hang:
        emit({"hang": True})
        hard_exit(root, 3)
    log = []
    for s in ctx.sims:
        log.append(list(s.log)[-60:])
    emit(
        {
            "violations": ctx.violations,
            "digest": ctx.digest(),
            "log": log[-6:],
            "switches": [s.switches[:400] for s in ctx.sims],
        }
    )
    finish(root)


# -- minimisation -------------------------------------------------------------


def generic_shrinks(plan):
    """Simpler plans, most aggressive first; understands common fields."""
    for k, v in sorted(plan.items()):
        if isinstance(v, list) and v and k not in ("switches",):
            if len(v) > 1:
                yield dict(plan, **{k: v[: len(v) // 2]})
                yield dict(plan, **{k: v[len(v) // 2 :]})
            for i in range(min(len(v), 24)):
                if len(v) > 1 or k in ("faults", "extras", "damage", "muts", "clock"):
                    yield dict(plan, **{k: v[:i] + v[i + 1 :]})
            for i in range(min(len(v), 24)):
                if isinstance(v[i], dict):
                    for w in generic_shrinks(v[i]):
                        yield dict(plan, **{k: v[:i] + [w] + v[i + 1 :]})
        elif isinstance(v, dict):
            if set(v) >= {"n", "s"}:
                for n in (0, 1, 5, 16, 100, 65536, v["n"] // 2, v["n"] - 1):
                    if 0 <= n < v["n"]:
                        yield dict(plan, **{k: {"n": n, "s": 0}})
            elif v:
                if k == "sched":
                    continue
                if k == "seg":
                    yield dict(plan, **{k: {}})
                for w in generic_shrinks(v):
                    yield dict(plan, **{k: w})
        elif v is True:
            yield dict(plan, **{k: False})
        elif k in ("bufsize", "seg", "dirseed", "hashseed") and v not in (None, 0):
            yield dict(plan, **{k: None if k == "bufsize" else 0})


def switch_shrinks(plan):
    sched = plan.get("sched") or {}
    sw = sched.get("switches")
    if not sw:
        return
    n = len(sw)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield dict(plan, sched=dict(sched, switches=sw[:i] + sw[i + size :]))
            if n // size > 64 and i > 64 * size:
                break
        size //= 2


def shrink_main(job_file, budget):
    root = boot()
    with seams.REAL_OPEN(job_file) as f:
        job = json.load(f)
    sc = load(job["property"])
    kind = job["kind"]
    plan = job["plan"]
    start = _t0()
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            ctx = execute(sc, p, root)
        except kernel.Hang:
            emit({"plan": plan, "tried": tried})
            hard_exit(root, 0)
        except Exception:
            return False  # not a valid plan
        fails.ctx = ctx
        return any(k == kind for k, _ in ctx.violations)

    if not fails(plan):
        emit({"plan": plan, "tried": tried, "lost": True})
        finish(root)
        return
    emit({"plan": plan, "tried": tried})
    # replace the seeded schedule by the switches it made, to minimise those
    sched = plan.get("sched")
    if sched and sched.get("mode") != "list":
        sw = max((x.switches for x in fails.ctx.sims), key=len, default=[])
        p = dict(plan, sched={"mode": "list", "switches": sw})
        if fails(p):
            plan = p
            emit({"plan": plan, "tried": tried})
    improved = True
    while improved and _t0() - start < budget:
        improved = False
        cands = []
        if hasattr(sc, "shrink"):
            cands.append(sc.shrink(plan))
        cands.append(switch_shrinks(plan))
        cands.append(generic_shrinks(plan))
        for gen in cands:
            for p in gen:
                if _t0() - start > budget:
                    break
                if p == plan:
                    continue
                if fails(p):
                    plan = p
                    improved = True
                    emit({"plan": plan, "tried": tried})
                    break
            if improved:
                break
    emit({"plan": plan, "tried": tried})
    finish(root)


def main():
    global OUTDIR
    mode, OUTDIR = sys.argv[1], sys.argv[2]
    if mode == "lane":
        a = json.loads(sys.argv[3])
        lane_main(
            a["property"], a["seed"], a["tier"], a["lanes"], a["nlanes"], a["total"], a["budget"],
            set(a["only"]) if a.get("only") else None,
        )
    elif mode == "one":
        one_main(sys.argv[3])
    elif mode == "shrink":
        shrink_main(sys.argv[3], float(sys.argv[4]))
    # leave without finalisation: parked threads of killed runs may remain
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
