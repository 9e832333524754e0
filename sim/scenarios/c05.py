"""C05 - decryption releases all of the plaintext or none of it."""

import os
import random

from .. import damage, refage, world
from ..world import payload, short

CAUSES = [
    "damage", "damage", "damage", "late", "late", "wrong-id", "no-id", "prompt", "wrong-pw", "readerr", "readerr",
    "badkeys", "device", "device", "device", "kill", "kill", "int", "line",
]


def gen(r, tier):
    cause = r.choice(CAUSES)
    plan = {
        "cause": cause,
        "data": world.gen_data(r, 0.55),
        "recips": world.gen_recips(r, 3),
        "who": r.random(),
        "armored": r.random() < 0.3,
        "made": r.choice(["self", "ref"]),
        "out": r.choice(["file", "file", "file", "capture", "stdout", "append"]),
        "existing": r.choice(["none", "short", "long", "long"]),
        "infile": r.random() < 0.6,
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
        "bufsize": r.choice([None, None, 16, 100, 4096, 65536]),
        "unbuffered": r.random() < 0.3,
        "seg": {"read": r.choice([None, None, "rand", 4096]), "write": r.choice([None, None, "rand", 1000, 4096]), "seed": r.randrange(1 << 20)},
        "extra": r.randrange(0, 3),
        "faults": [],
    }
    if cause == "late" and plan["data"]["n"] < 70000:
        plan["data"]["n"] += r.choice([65537, 131072, 200000])
    if cause in ("prompt", "wrong-pw"):
        plan["recips"] = [["pw", r.choice(world.PASSWORDS)]]
    if plan["bufsize"] in (16, 100) and plan["data"]["n"] > 20000:
        plan["bufsize"] = None
    if cause == "damage":
        plan["damage"] = [damage.gen(r)]
    elif cause == "late":
        plan["pos"] = r.random()
        plan["how"] = r.choice(["flip", "flip", "cut", "cut16", "swap", "append"])
    elif cause == "prompt":
        plan["faults"] = [{"on": "prompt", "u": 0, "do": r.choice(["eof", "int", "err"]), "errno": 5}]
    elif cause == "readerr":
        plan["faults"] = [{"on": r.choice(["read", "read", "read", "open", "scandir", "close"]), "u": r.random(), "do": r.choice(["err", "err", "int", "kill"]), "errno": r.choice(world.ERRS_READ)}]
    elif cause == "device":
        f = world.gen_out_fault(r)
        plan["faults"] = [f]
    elif cause in ("kill", "int"):
        f = {"on": "any", "u": r.random(), "do": cause, "when": r.choice(["before", "after"])}
        if r.random() < 0.5:
            f = {"on": "write", "u": r.random(), "do": cause, "when": r.choice(["before", "after", "mid"] if cause == "kill" else ["before", "after"]), "frac": r.random()}
        plan["faults"] = [f]
    elif cause == "line":
        plan["line"] = [r.random(), r.random()]  # interrupt at a line of the package
        plan["data"]["n"] = min(plan["data"]["n"], 200000)
    for f in plan["faults"]:
        f["not_target"] = "stderr"
    if r.random() < 0.1 and cause in ("damage", "late"):
        plan["faults"].append(dict(world.gen_out_fault(r), not_target="stderr"))
    return plan


def run(plan, ctx):
    data = payload(plan["data"])
    recips = plan["recips"]
    who = recips[min(int(plan["who"] * len(recips)), len(recips) - 1)]
    cause = plan["cause"]
    ctx.write("w/.keep", b"")
    if plan["made"] == "self":
        blob = ctx.encrypt(recips, data, plan={"entropy": plan["entropy"]})
    else:
        blob = world.ref_blob(recips, data, plan["entropy"])
    if blob is None or refage.parse(blob) is None:
        return
    good = blob
    if cause == "damage":
        other = world.ref_blob(recips, b"other" * 20000, plan["entropy"] + 1)
        blob = damage.apply(blob, plan["damage"][0], other)
        if refage.same_content(refage.parse(blob), refage.parse(other)):
            return
    elif cause == "late":
        blob = late(blob, plan)
    ids = [who] + [["age", 50 + i] for i in range(plan["extra"])]
    keys = ""
    if cause == "wrong-id":
        ids = [["age", 60 + i] for i in range(plan["extra"] + 1)]
    elif cause == "no-id":
        ids = []
    elif cause == "badkeys":
        keys = random.Random(plan["entropy"]).choice(["garbage\n", "AGE-SECRET-KEY-1QQQQ\n", "\u00e9\u00e8\n", "AGE-SECRET-KEY-1GFPYYSJZGFPYYSJZGFPYYSJZGFPYYSJZGFPYYSJZGFPYYSJZGFPQ4EGAEZ\n"])
    home = ctx.home("home", ids, extra_keys=keys)
    pw = who[1] if who[0] == "pw" and cause not in ("wrong-id", "no-id") else None
    if cause == "wrong-pw":
        answers = [pw + "x", "y"]
    else:
        answers = [pw]
    out = plan["out"]
    old = None
    if out in ("file", "append"):
        old = {"none": None, "short": b"old\n", "long": random.Random(3).randbytes(400000)}[plan["existing"]]
        if out == "append" and old is None:
            old = b""

    def once(blob, faults, name, line=None):
        wire = refage.armor(blob) if plan["armored"] else blob
        argv = ["decrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw is not None else [])
        stdin = b""
        if plan["infile"]:
            argv += ["-i", ctx.write("w/in", wire)]
        else:
            stdin = wire
        sout = ("capture",)
        p = ctx.path("w", "out")
        if out in ("file", "append"):
            if old is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                ctx.write("w/out", old)
        if out == "file":
            argv += ["-o", p]
        elif out == "append":
            sout = ("append", p)
        elif out == "stdout":
            sout = ("file", p)
        r = ctx.cli(
            argv, home, {"entropy": 1, "hashseed": plan["hashseed"], "bufsize": plan["bufsize"]}, name=name, stdin=stdin,
            stdout=sout, seg=plan["seg"], unbuffered=plan["unbuffered"], faults=faults,
            passwords=answers if pw is not None else (), line=line, near=plan["near"],
        )
        return r, (r.out if out == "capture" else ctx.read("w/out"))

    faults = ()
    if plan["faults"]:
        r, _ = once(good, (), "dry")
        faults = world.resolve(plan["faults"], r.events)
    line = None
    if "line" in plan:
        r, _ = once(good, (), "dry", 0)
        line = r.sim.pick_line(*plan["line"])
    r, got = once(blob, faults, "f", line)
    ctx.trivial = not (r.fired or blob != good or cause in ("wrong-id", "no-id", "wrong-pw", "badkeys"))
    if ctx.trivial:
        return
    base = old if out == "append" else b""
    content = got or b""
    if r.code == 0:
        ctx.probes["succeeded"] += 1
        # success must mean the true plaintext
        if content != base + data and not (out == "file" and got is None and not data):
            if not stored_short(r):
                ctx.violate("wrong-success", "%s: exit 0 with %s, true plaintext %s" % (cause, short(content), short(data)))
        return
    on_output = [e for e in fired_events(r) if is_output(e, out)]
    if r.crashed:
        ctx.probes["killed"] += 1
    elif on_output:
        ctx.probes["output-failed"] += 1
    else:
        ctx.probes["failed"] += 1
    untouched = got == old or (not got and not old)
    if out in ("capture", "stdout"):
        untouched = not content
    if untouched:
        return
    if not on_output and not r.crashed and not late_interrupt(r):
        return ctx.violate(
            "partial-output", "decrypt fails (%s, %s) with exit %r but its output changed: %s, before %s"
            % (cause, [w for _, w in r.fired], r.code, short(got), short(old))
        )
    if not (base + data).startswith(content):
        ctx.violate(
            "not-a-prefix", "%s, %s: the output holds %s, which is no prefix of the plaintext %s"
            % (cause, [w for _, w in r.fired], short(got), short(data))
        )


def fired_events(r):
    at = {i for i, _ in r.fired}
    return [e for e in r.events if e[0] in at]


def is_output(e, out):
    """Was this an event of the output, of storing the plaintext?"""
    _, kind, target = e
    if kind == "write":
        return True
    if kind == "open":
        return any(c in target.rsplit(":", 1)[1] for c in "wax+")
    return kind == "close" and target.split(":")[0] in ("w/out", "stdout")


def late_interrupt(r):
    """Interrupted (not failed because of its inputs): storing may be under way."""
    return any("interrupt" in w for _, w in r.fired) or any(
        w.startswith("close:") for _, w in r.fired
    )


def stored_short(r):
    """Silent loss in the output is C02's business."""
    return any(is_output(e, None) for e in fired_events(r))


def late(blob, plan):
    """Damage in the middle or at the end of a long payload."""
    lay = damage.layout(blob)
    ch = lay["chunks"]
    if len(ch) < 2:
        return blob[:-1]
    i = 1 + int(plan["pos"] * (len(ch) - 1))
    i = min(i, len(ch) - 1)
    a, b = ch[i]
    out = bytearray(blob)
    how = plan["how"]
    if how == "flip":
        out[a + int(plan["pos"] * (b - a - 1))] ^= 4
    elif how == "cut":
        del out[a:]
    elif how == "cut16":
        del out[max(a, b - 16) :]
    elif how == "swap":
        x, y = ch[i - 1]
        p, q = bytes(out[x:y]), bytes(out[a:b])
        out[x:b] = q + p
    else:
        out += b"x"
    return bytes(out)
