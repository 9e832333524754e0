"""C21 - commands come to an end, and no crash stands in the way of the next run."""

import os
import random

from .. import damage, proc, refage, seams, world
from ..world import key, payload, short


def gen(r, tier):
    mode = r.choice(["single", "single", "again", "again", "again", "chain", "chain"])
    plan = {
        "mode": mode,
        "cmd": r.choice(["enc", "dec", "dec", "gen"]),
        "data": world.gen_data(r, 0.25),
        "recips": world.gen_recips(r, 3),
        "who": r.random(),
        "armored": r.random() < 0.4,
        "infile": r.random() < 0.6,
        "out": r.choice(["file", "file", "capture", "stdout", "append"]),
        "input": r.choice(["good", "good", "damage", "cut", "garbage", "empty", "lines", "half"]),
        "damage": damage.gen(r),
        "u": r.random(),
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 16, 4096]),
        "unbuffered": r.random() < 0.3,
        "seg": {"read": r.choice([None, None, 1, 16, 1000, 65536]), "write": r.choice([None, None, 1, 16, 1000]), "seed": r.randrange(1 << 20)},
        "faults": [],
    }
    n = plan["data"]["n"]
    seg = plan["seg"]
    if n > 4000 and (seg["read"] == 1 or seg["write"] == 1 or plan["bufsize"] == 16):
        plan["data"]["n"] = n % 4000
    elif n > 60000 and 16 in (seg["read"], seg["write"]):
        plan["data"]["n"] = n % 60000
    if mode == "chain":
        plan["cap"] = r.choice([1, 16, 100, 4096, 65536])
        plan["sched"] = {"seed": r.randrange(1 << 30), "p_io": r.choice([0.0, 0.1, 0.5])}
        plan["data"]["n"] = plan["data"]["n"] % {1: 500, 16: 1500, 100: 8000}.get(plan["cap"], 300000)
        plan["stop"] = r.choice([None, None, 0, 1, 50, 5000, 70000])  # the consumer goes away after so many bytes
        plan["late"] = r.choice([None, None, 0, 10, 5000])  # the producer dies after so many bytes
        if r.random() < 0.5:
            plan["victim"] = r.choice(["enc", "dec"])
            plan["faults"] = [gen_nth(r)]
        return plan
    x = r.random()
    if x < 0.75 or mode == "again":
        if r.random() < 0.5:
            f = world.gen_out_fault(r)
            f["not_target"] = "stderr"
        else:
            f = {"on": r.choice(["any", "any", "any", "read", "open", "close", "entropy", "kdf", "prompt", "scandir", "write"]), "u": r.random(), "do": r.choice(["kill", "kill", "int", "err", "alloc"]), "when": r.choice(["before", "after"]), "errno": r.choice([5, 28, 13]), "not_target": "stderr"}
            if f["do"] in ("err", "alloc"):
                f["when"] = "before"
        plan["faults"] = [f]
        if mode == "again" and r.random() < 0.2:
            plan["line"] = [r.random(), r.random()]
    if mode == "single" and r.random() < 0.08:
        # nobody at the terminal
        plan.update(cmd=r.choice(["enc", "dec"]), noprompt=True)
        plan["faults"] = []
    if mode == "again":
        plan["input"] = "good"
        plan["rounds"] = r.choice([1, 1, 1, 2, 3])
        plan["reboot"] = r.random() < 0.5
    return plan


def gen_nth(r):
    f = {"on": r.choice(["write", "write", "read", "read", "open", "close", "entropy", "kdf"]), "nth": r.choice([1, 1, 2, 3, 5, 20]), "do": r.choice(["kill", "kill", "int", "err"]), "when": "before", "errno": r.choice([5, 28, 32])}
    if f["on"] == "write":
        f["target"] = "stdout"
    return f


def spoil(plan, blob):
    """What the command reads."""
    k = plan["input"]
    u = plan["u"]
    if k == "damage":
        return damage.apply(blob, plan["damage"], world.ref_blob([["age", 1]], b"other", 2))
    if k == "cut":
        return blob[: int(u * len(blob))]
    if k == "half":
        # an unfinished header, with and without the last line's end
        end = blob.find(b"\n--- ")
        return blob[: max(0, int(u * (end + 40)))] if end > 0 else blob[:30]
    if k == "garbage":
        return random.Random(plan["entropy"]).randbytes(int(u * 3000))
    if k == "empty":
        return b""
    if k == "lines":
        head = b"age-encryption.org/v1\n"
        return head + random.Random(plan["entropy"]).choice([b"\n" * 500, b"-> X25519\n" * 300, b"AAAA\n" * 300, b"-> ", b"---", b"--- \n", b"-> x\n" + b"A" * 5000])
    return blob


def allowance(plan, n_in, n_out):
    """More events than any reasonable way to move these bytes needs."""
    unit = 1000
    for k in ("read", "write"):
        v = plan["seg"][k]
        if v:
            unit = min(unit, v)
    if plan["bufsize"]:
        unit = min(unit, plan["bufsize"])
    return 3000 + 40 * (n_in + n_out) // unit


def run(plan, ctx):
    if plan["mode"] == "chain":
        return run_chain(plan, ctx)
    data = payload(plan["data"])
    cmd = plan["cmd"]
    recips = plan["recips"]
    who = recips[min(int(plan["who"] * len(recips)), len(recips) - 1)]
    args, pw = world.split_recips(recips)
    arm = ["-a"] if plan["armored"] else []
    ctx.write("w/.keep", b"")
    source = None
    if cmd == "enc":
        source = data
        argv = ["encrypt"] + arm + (["-p"] if pw or plan.get("noprompt") else []) + args
        home = ctx.home("home")
    elif cmd == "dec":
        blob = world.ref_blob(recips, data, plan["entropy"])
        if plan["armored"] and plan["u"] < 0.5:
            source = spoil(plan, refage.armor(blob))
        else:
            source = spoil(plan, blob)
            if plan["armored"]:
                source = refage.armor(source)
        pw = who[1] if who[0] == "pw" else None
        argv = ["decrypt"] + arm + (["-p"] if pw or plan.get("noprompt") else [])
        home = ctx.home("home", [who])
    else:
        pw = None
        argv = ["generate"]
        home = ctx.home("home")
    size = len(source or b"")

    def once(faults, name, line=None, fresh=True):
        a = list(argv)
        stdin = b""
        if source is not None:
            if plan["infile"]:
                a[1:1] = ["-i", ctx.write("w/in", source)]
            else:
                stdin = source
        sout = ("capture",)
        if fresh and os.path.lexists(ctx.path("w/out")):
            os.unlink(ctx.path("w/out"))
        if plan["out"] == "file":
            a[1:1] = ["-o", ctx.path("w/out")]
        elif plan["out"] == "stdout":
            sout = ("file", ctx.path("w/out"))
        elif plan["out"] == "append":
            sout = ("append", ctx.path("w/out"))
        s = ctx.sim({"entropy": plan["entropy"] + len(ctx.sims), "bufsize": plan["bufsize"]})
        start = s.steps
        r = ctx.cli(
            a, home, sim=s, name=name, stdin=stdin, stdout=sout, faults=faults, seg=plan["seg"],
            unbuffered=plan["unbuffered"], passwords=[pw] if pw and not plan.get("noprompt") else (), line=line, near=plan["near"],
        )
        if not ctx.violations and s.steps - start > allowance(plan, size, len(data) * 2 + 1000):
            ctx.violate("too-long", "%s of %d bytes takes %d steps" % (cmd, size, s.steps - start))
        return r

    line = plan.get("line")
    r = once((), "dry", 0 if line else None)
    good = r.code == 0
    ctx.probes["ends" if good else "refuses"] += 1
    ctx.trivial = good and not plan["faults"]
    if ctx.violations or not plan["faults"]:
        return
    if plan["mode"] == "single":
        faults = world.resolve(plan["faults"], r.events)
        r = once(faults, "f")
        if r.fired:
            ctx.trivial = False
        return
    if not good:
        return ctx.violate("fails", "%s without a fault exits %r: %s" % (cmd, r.code, r.exc))
    # hit it, perhaps several times over, then run it again on whatever was left
    why = []
    if os.path.lexists(ctx.path("w/out")):
        os.unlink(ctx.path("w/out"))
    for i in range(plan["rounds"]):
        faults = () if line else world.resolve(plan["faults"], r.events)
        f = once(faults, "f%d" % i, r.sim.pick_line(*line) if line else None, fresh=False)
        why += [w for _, w in f.fired]
        if ctx.violations:
            return
    if not why:
        return
    ctx.trivial = False
    pre = (ctx.read("w/out") or b"") if plan["out"] == "append" else b""
    if plan["reboot"]:
        # temporary files do not outlive the machine
        import shutil

        shutil.rmtree(ctx.path(".tmp"), ignore_errors=True)
        os.mkdir(ctx.path(".tmp"))
    r = once((), "again", fresh=False)
    if ctx.violations:
        return
    if r.code != 0:
        return ctx.violate("stuck", "after %s %s fails although nothing is wrong any more: %r %s" % (why, cmd, r.code, r.exc))
    out = r.out if plan["out"] == "capture" else ctx.read("w/out")
    if out is None or not out.startswith(pre):
        return ctx.violate("stuck", "after %s %s exits 0 without output" % (why, cmd))
    out = out[len(pre) :]
    if cmd == "enc":
        d = recips[0]
        if ctx.judge(out, [d], plan["armored"], d[1] if d[0] == "pw" else None) != data:
            ctx.violate("stuck", "after %s encrypt exits 0, but its output is of no use" % why)
    elif cmd == "dec" and out != data:
        ctx.violate("stuck", "after %s decrypt exits 0 with %s instead of %s" % (why, short(out), short(data)))
    elif cmd == "gen" and out.count(b"AGE-SECRET-KEY-1") != 1:
        ctx.violate("stuck", "after %s generate exits 0 with %d keys" % (why, out.count(b"AGE-SECRET-KEY-1")))


def run_chain(plan, ctx):
    """producer | age encrypt | age decrypt | consumer, some of which go away."""
    data = payload(plan["data"])
    recips = plan["recips"]
    args, pw = world.split_recips(recips)
    who = recips[min(int(plan["who"] * len(recips)), len(recips) - 1)]
    h1, h2 = ctx.home("h1"), ctx.home("h2", [who])
    arm = ["-a"] if plan["armored"] else []
    s = ctx.sim({"entropy": plan["entropy"], "bufsize": plan["bufsize"], "sched": plan["sched"]})
    a, b, c = (seams.Pipe(n, plan["cap"]) for n in ("feed", "mid", "rest"))
    ctx.nprocs += 4
    ctx.trivial = False
    fp = s.proc("feeder", h1)
    proc.open_std(fp, proc.Std(b"", ("pipe", a)))
    faults = plan["faults"]
    p1 = s.proc("enc", h1, faults=faults if plan.get("victim") == "enc" else (), unbuffered=plan["unbuffered"], passwords=[pw] if pw else ())
    proc.open_std(p1, proc.Std(("pipe", a), ("pipe", b)))
    pw2 = who[1] if who[0] == "pw" else None
    p2 = s.proc("dec", h2, faults=faults if plan.get("victim") == "dec" else (), unbuffered=plan["unbuffered"], passwords=[pw2] if pw2 else ())
    proc.open_std(p2, proc.Std(("pipe", b), ("pipe", c)))
    cp = s.proc("consumer", h2)
    proc.open_std(cp, proc.Std(("pipe", c), ("capture",)))

    def feed():
        import sys

        end = len(data) if plan["late"] is None else min(plan["late"], len(data))
        for i in range(0, end, 3000):
            sys.stdout.buffer.write(data[i : min(i + 3000, end)])
        sys.stdout.buffer.flush()
        if plan["late"] is not None:
            s.kill(fp)

    got = []

    def consume():
        import sys

        n = 0
        while plan["stop"] is None or n < plan["stop"]:
            x = sys.stdin.buffer.raw.read(1000)
            if not x:
                break
            got.append(x)
            n += len(x)

    s.spawn("feeder", lambda: proc.interpret(fp, feed), fp)
    s.spawn("enc", proc.cli(p1, ["encrypt"] + arm + (["-p"] if pw else []) + args), p1)
    s.spawn("dec", proc.cli(p2, ["decrypt"] + arm + (["-p"] if pw2 else [])), p2)
    s.spawn("consumer", lambda: proc.interpret(cp, consume), cp)
    s.run()
    why = [w for p in (p1, p2) for _, w in p.fired]
    if s.deadlock or s.capped:
        return ctx.violate("no-progress", "a pipeline with pipes of %d bytes never ends (%s, consumer stops after %s)" % (plan["cap"], why, plan["stop"]))
    # a dead producer cannot be told from one that finished
    whole = data if plan["late"] is None else data[: plan["late"]]
    out = b"".join(got)
    if not whole.startswith(out):
        return ctx.violate("wrong-bytes", "the pipeline delivered %s of %s" % (short(out), short(whole)))
    if plan["stop"] is None and not why:
        if p1.code != 0 or p2.code != 0 or out != whole:
            return ctx.violate("chain-fails", "enc %r dec %r deliver %s of %s" % (p1.code, p2.code, short(out), short(whole)))
    # a failing last flush may be repeated when the process ends: then all of it has arrived
    if p1.code != 0 and p2.code == 0 and out != (whole if plan["stop"] is None else whole[: len(out)]):
        return ctx.violate("accepted", "encrypt failed (%s) but decrypt exits 0 with %s" % (why, short(out)))
    ctx.probes["enc-%s dec-%s" % ("dies" if p1.crashed else p1.code and "fails" or "ok", "dies" if p2.crashed else p2.code and "fails" or "ok")] += 1


_ = key
