"""./check and ./replay: distribute runs, minimise, report, write evidence."""

import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("PYAGE_PYTHON", "/opt/venv/bin/python")
NLANES = 8  # lane 7 runs under python -O
OPT_LANE = 7

# number of runs per property: (quick, thorough)
COUNTS = {}
SOFT_BUDGET = {"quick": 420.0, "thorough": 3600.0}

REAL = (
    "all of age.* from /repo/src, click, requests response handling, cryptography, PyNaCl, "
    "Python buffered and text I/O, files in a private scratch directory"
)
STUB = (
    "scrypt cost (cheap function of the same parameters), git version lookup, HTTP transport, "
    "passphrase prompt, terminals, entropy source, clocks, hash values of key objects"
)


def env():
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=VERIF,
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
    )
    e.pop("PYTHONUNBUFFERED", None)
    e.pop("PYTHONOPTIMIZE", None)
    e.pop("READTHEDOCS", None)
    return e


def start(args, opt, err):
    cmd = [PY] + (["-O"] if opt else []) + ["-m", "sim.worker"] + args
    return subprocess.Popen(
        cmd, cwd=VERIF, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err
    )


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def run_one(job, tmp, opt, timeout=400):
    jf = os.path.join(tmp, "one.json")
    of = os.path.join(tmp, "one.out")
    with open(jf, "w") as f:
        json.dump(job, f)
    if os.path.exists(of):
        os.unlink(of)
    p = start(["one", of, jf], opt, subprocess.DEVNULL)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"hang": True}
    return load(of)


def shrink(job, tmp, opt, budget):
    jf = os.path.join(tmp, "shrink.json")
    of = os.path.join(tmp, "shrink.out")
    with open(jf, "w") as f:
        json.dump(job, f)
    p = start(["shrink", of, jf, str(budget)], opt, subprocess.DEVNULL)
    try:
        p.wait(budget + 150)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    r = load(of)
    if not r:
        return job["plan"], 0
    return r["plan"], r["tried"]


def known(prop):
    """Findings listed for this property: (kind, text)."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    out.append(line.split(" ", 2)[2].strip())
    return out


def replay_path(prop):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def check(prop, tier, seed, jobs=None, counts=None, dump=None):
    total = counts or COUNTS[prop][0 if tier == "quick" else 1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pyage-run-")
    try:
        return _check(prop, tier, seed, jobs or min(NLANES, os.cpu_count() or 1), total, tmp, t0, dump)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            for d in ("/dev/shm/pyage-sim", "/tmp/pyage-sim"):
                if os.path.isdir(d) and not os.listdir(d):
                    os.rmdir(d)
        except OSError:
            pass


def _check(prop, tier, seed, jobs, total, tmp, t0, dump):
    budget = SOFT_BUDGET[tier]
    groups = [[lane] for lane in range(NLANES)]
    pending = list(groups)
    running = {}
    results = {}
    first = None
    while pending or running:
        while pending and len(running) < jobs:
            g = pending.pop(0)
            of = os.path.join(tmp, "lane%d.out" % g[0])
            ef = open(os.path.join(tmp, "lane%d.err" % g[0]), "wb")
            a = {
                "property": prop, "seed": seed, "tier": tier, "lanes": g, "nlanes": NLANES,
                "total": total, "budget": budget,
            }
            running[g[0]] = (start(["lane", of, json.dumps(a)], g[0] == OPT_LANE, ef), of, ef)
        time.sleep(0.02)
        for lane in list(running):
            p, of, ef = running[lane]
            if p.poll() is None:
                if time.time() - t0 > budget + 200:
                    p.kill()
                continue
            del running[lane]
            ef.close()
            r = load(of)
            if r is None:
                with open(ef.name, errors="replace") as f:
                    err = f.read()[-2000:]
                r = {"harness": {"idx": -1, "error": "worker died with %r\n%s" % (p.returncode, err)}, "stats": None}
            results[lane] = r
            if first is None and (r.get("violation") or r.get("hang") or r.get("harness")):
                first = lane
                pending = []
                for q, _, _ in running.values():
                    q.terminate()
    if first is not None and not (results[first].get("violation") or results[first].get("hang")):
        # prefer a violation over a harness error if some lane has one
        for lane, r in results.items():
            if r.get("violation") or r.get("hang"):
                first = lane
    code = 0
    viol = 0
    message = None
    if first is not None:
        r = results[first]
        opt = first == OPT_LANE
        if r.get("hang"):
            job = {"property": prop, "plan": r["hang"]["plan"]}
            again = run_one(job, tmp, opt)
            if again and (again.get("hang") or again.get("violations")):
                r["violation"] = {
                    "idx": r["hang"]["idx"], "plan": r["hang"]["plan"], "kind": "no-progress",
                    "msg": "the code under test ran without end", "hang": True,
                }
            else:
                r["harness"] = {"idx": r["hang"]["idx"], "error": "hang did not repeat"}
        if r.get("violation"):
            v = r["violation"]
            code = 1
            viol = 1
            plan, tried = v["plan"], 0
            if not v.get("hang"):
                plan, tried = shrink({"property": prop, "plan": plan, "kind": v["kind"]}, tmp, opt, 60)
            rec = run_one({"property": prop, "plan": plan}, tmp, opt) or {}
            vs = rec.get("violations") or [[v["kind"], v["msg"]]]
            path = os.path.join(replay_path(prop), "%s-%s-%d.json" % (prop, seed, v["idx"]))
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop, "seed": seed, "tier": tier, "run": v["idx"],
                        "optimize": opt, "violation": vs[0], "plan": plan,
                        "original_plan": v["plan"], "shrink_steps": tried,
                        "digest": rec.get("digest"), "hang": bool(v.get("hang")),
                        "trace": rec.get("log"), "switches": rec.get("switches"),
                    },
                    f, indent=1,
                )
            message = "VIOLATION property=%s replay=%s" % (prop, path)
            print("%s: %s" % (vs[0][0], vs[0][1]))
        elif r.get("harness"):
            code = 2
            print("HARNESS ERROR in run %s:\n%s" % (r["harness"]["idx"], r["harness"]["error"]))
    stats = merge([r.get("stats") for r in results.values() if r.get("stats")])
    skipped = sum(r.get("skipped", 0) for r in results.values())
    if code == 0 and stats["runs"] < total * 0.2:
        print("only %d of %d runs finished within the time allowed" % (stats["runs"], total))
        code = 2
    wall = time.time() - t0
    for text in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    evidence(prop, tier, seed, stats, wall, viol, total, skipped)
    if dump:
        with open(dump, "w") as f:
            for r in sorted(results):
                for i, d in enumerate(results[r]["stats"]["digests"]):
                    f.write("%d %d %s\n" % (r, i, d))
    print(
        "%s %s seed=%s: %d runs, %d processes, %d events, %d distinct nontrivial, %.1f s"
        % (prop, tier, seed, stats["runs"], stats["procs"], stats["events"], len(stats["sigs"]), wall)
    )
    if message:
        print(message)
    return code


def merge(parts):
    m = {
        "runs": 0, "procs": 0, "events": 0, "switches": 0, "lines": 0, "simtime": 0.0,
        "nontrivial": 0, "fired": collections.Counter(), "probes": collections.Counter(),
        "kindcount": collections.Counter(), "sigs": set(), "allsigs": set(), "samples": [],
    }
    for p in parts:
        for k in ("runs", "procs", "events", "switches", "lines", "simtime", "nontrivial"):
            m[k] += p[k]
        for k in ("fired", "probes", "kindcount"):
            m[k].update(p[k])
        for k in ("sigs", "allsigs"):
            m[k].update(p[k])
        m["samples"] += p["samples"][:1]
    return m


def evidence(prop, tier, seed, st, wall, viol, total, skipped):
    sys.path.insert(0, VERIF)
    from sim import notes

    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    hours = max(wall, 1e-3) / 3600.0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(seed),
        "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(st["sigs"]),
            "rule": notes.RULES.get(prop, "")
            + " Distinct: different sequence of (process, event kind) pairs with fired faults "
            "and scheduling switches, as a hash. Non-trivial: at least one fault, damage, "
            "preemption or short transfer named by the scenario took effect.",
            "samples": st["samples"][:6] or [{"note": "no non-trivial run"}],
            "runs_planned": total,
            "runs_skipped_for_time": skipped,
            "nontrivial_runs": st["nontrivial"],
            "distinct_executions": len(st["allsigs"]),
            "runs_per_hour": round(st["runs"] / hours),
            "seeds_per_hour": round(st["runs"] / hours),
            "simulated_processes": st["procs"],
            "events": st["events"],
            "events_by_kind": dict(sorted(st["kindcount"].items())),
            "preemption_points": st["lines"],
            "scheduling_switches": st["switches"],
            "simulated_seconds": round(st["simtime"], 3),
            "faults_fired": dict(sorted(st["fired"].items())),
            "probes": dict(sorted(st["probes"].items())),
            "real_components": REAL,
            "stub_components": STUB,
            "runs_under_python_O": "one lane in %d" % NLANES,
        },
        "assumptions": notes.ASSUMPTIONS + notes.EXTRA.get(prop, []),
        "wall_s": round(wall, 2),
        "violations": viol,
    }
    tmp = os.path.join(d, "%s.json.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay(path):
    job = load(path)
    if job is None:
        print("cannot read %s" % path)
        return 2
    tmp = tempfile.mkdtemp(prefix="pyage-run-")
    try:
        rec = run_one({"property": job["property"], "plan": job["plan"]}, tmp, job.get("optimize"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if rec is None:
        print("the replay could not be run")
        return 2
    if job.get("hang"):
        if rec.get("hang"):
            print("reproduced: no progress")
            print("VIOLATION property=%s replay=%s" % (job["property"], path))
            return 1
        print("not reproduced")
        return 0
    vs = rec.get("violations") or []
    if not vs:
        print("not reproduced: the property held in this run")
        return 0
    same = rec["digest"] == job["digest"]
    print("%s: %s" % tuple(vs[0]))
    print("digest %s (%s)" % (rec["digest"], "identical execution" if same else "differs from the recording"))
    print("VIOLATION property=%s replay=%s" % (job["property"], path))
    return 1


def main():
    sys.path.insert(0, VERIF)
    from sim import notes

    COUNTS.update(notes.COUNTS)
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[2].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3:
        tier = sys.argv[3]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("SIM_JOBS", "0")) or None
    counts = int(os.environ.get("SIM_RUNS", "0")) or None
    sys.exit(check(prop, tier, seed, jobs, counts, os.environ.get("SIM_DUMP")))


if __name__ == "__main__":
    main()
