"""C04 - damaged, truncated or spliced ciphertext is never accepted."""

import random

from .. import damage, refage, seams, world
from ..world import key, lib_priv, payload, short


def gen(r, tier):
    mode = r.choice(["lib", "lib", "lib", "cli", "medium", "medium"])
    plan = {
        "mode": mode,
        "data": world.gen_data(r, 0.5),
        "other": world.gen_data(r, 0.4),
        "recips": world.gen_recips(r, 3),
        "who": r.random(),
        "armored": r.random() < 0.25,
        "made": r.choice(["self", "self", "self", "ref"]),
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
        "seg": {"read": r.choice([None, None, "rand", 4096]), "seed": r.randrange(1 << 20)},
        "bufsize": r.choice([None, None, 100, 65536]),
        "reads": r.choice(["all", "all", 1000, 65536]),
        "damage": [damage.gen(r)],
        "faults": [],
        "grease": [],
    }
    if r.random() < 0.2:
        # entries of kinds nobody knows, with any number of arguments, authenticated like the others
        plan["made"] = "ref"
        plan["grease"] = [[r.random(), r.choice(["grease", "foo", "x", "pq-1"]), r.choice([0, 1, 2, 3, 3, 4, 9]), r.choice([0, 0, 16, 32, 100])] for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.25:
        plan["damage"].append(damage.gen(r))
    if plan["bufsize"] == 100 and plan["data"]["n"] > 20000:
        plan["bufsize"] = None
    if mode == "medium":
        # the file is good; the medium is not
        plan["damage"] = [plan["damage"][0]] if r.random() < 0.6 else []
        x = r.random()
        f = {"on": "read", "u": r.random(), "target": "w/in"}
        if plan["damage"]:
            f.update(do="world", op="replace", path="w/in", when=r.choice(["before", "after"]))
        elif x < 0.4:
            f.update(do="world", op="truncate", path="w/in", frac=r.random())
        elif x < 0.8:
            f.update(do="err", errno=r.choice(world.ERRS_READ))
        else:
            f.update(do="short", frac=0.01)
        plan["faults"] = [f]
    if r.random() < (0.002 if tier == "quick" else 0.001):
        # more chunks than fit into one byte of the counter
        plan["data"]["n"] = 65536 * 258 + r.choice([0, 1, 777])
        plan["other"]["n"] = 100
        plan.update(seg={"seed": 0}, bufsize=None, armored=False, faults=[], reads="all", mode="lib")
        plan["damage"] = [dict(damage.gen(r), op="chunkswap", step=256)]
    return plan


def make(plan, ctx, data, seed):
    recips = plan["recips"]
    if plan["made"] == "self":
        return ctx.encrypt(recips, data, plan={"entropy": seed})
    extra = []
    rr = random.Random(seed)
    for u, kind, nargs, body in plan["grease"]:
        args = [refage.b64(rr.randbytes(rr.choice([1, 6, 32]))) for _ in range(nargs)]
        extra.append((int(u * (len(recips) + 1)), (kind, args, refage.b64(rr.randbytes(body)))))
    return world.ref_blob(recips, data, seed, extra=extra)


def run(plan, ctx):
    data = payload(plan["data"])
    recips = plan["recips"]
    who = recips[min(int(plan["who"] * len(recips)), len(recips) - 1)]
    ctx.write("w/.keep", b"")
    orig = make(plan, ctx, data, plan["entropy"])
    if orig is None or refage.parse(orig) is None:
        return
    other = make(plan, ctx, payload(plan["other"]), plan["entropy"] + 1) or b""
    bad = orig
    for d in plan["damage"]:
        bad = damage.apply(bad, d, other)
    if plan["mode"] == "medium":
        return medium(plan, ctx, data, who, orig, bad)
    if bad == orig or refage.same_content(refage.parse(bad), refage.parse(other)):
        return  # nothing changed, or exactly the other file
    mat = damage.material(orig, bad)
    wire = refage.armor(bad) if plan["armored"] else bad
    if plan["mode"] == "lib":
        out, ok = read_lib(plan, ctx, wire, who)
    else:
        out, ok = read_cli(plan, ctx, wire, who)
    ctx.trivial = False
    ctx.probes["accepted" if ok else "rejected"] += 1
    what = "+".join(d["op"] for d in plan["damage"])
    # control: the undamaged file must open, else this run says nothing
    if ok and mat:
        return ctx.violate("accepted", "%s damage is accepted; plaintext %s, original %s" % (what, short(out), short(data)))
    if ok and out != data:
        return ctx.violate("wrong-bytes", "%s damage yields %s, original %s" % (what, short(out), short(data)))
    if not ok and out:
        return ctx.violate("leaked", "%s damage is rejected after %d bytes were released" % (what, len(out)))


def read_lib(plan, ctx, wire, who):
    got = []

    def fn(lib, p):
        src = seams.SimIn(p, "source", data=wire)
        if plan["bufsize"] != 100:
            import io

            src = io.BufferedReader(src, plan["bufsize"] or 8192)
        if plan["armored"]:
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        d = lib.Decryptor([lib_priv(lib, who)], src)
        if plan["reads"] == "all":
            got.append(d.read())
        else:
            while True:
                x = d.read(plan["reads"])
                if not x:
                    break
                got.append(x)
        return True

    st, v = ctx.library(fn, {"entropy": 1, "hashseed": plan["hashseed"]}, seg=plan["seg"])
    return b"".join(got), st == "ok"


def read_cli(plan, ctx, wire, who, faults=(), name="p"):
    home = ctx.home("home", [who])
    pw = who[1] if who[0] == "pw" else None
    argv = ["decrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw is not None else [])
    argv += ["-i", ctx.write("w/in", wire)]
    r = ctx.cli(
        argv, home, {"entropy": 1, "hashseed": plan["hashseed"], "bufsize": plan["bufsize"]}, seg=plan["seg"],
        passwords=[pw] if pw is not None else (), faults=faults, name=name,
    )
    ctx.lastres = r
    return r.out, r.code == 0


def medium(plan, ctx, data, who, orig, bad):
    wire = refage.armor(orig) if plan["armored"] else orig
    out, ok = read_cli(plan, ctx, wire, who, name="dry")
    if not ok or out != data:
        return
    faults = []
    for f in plan["faults"]:
        f = dict(f)
        if f.get("op") == "replace":
            f["data"] = (refage.armor(bad) if plan["armored"] else bad).hex()
        elif f.get("op") == "truncate":
            f["size"] = int(f["frac"] * len(wire))
        faults.append(f)
    faults = world.resolve(faults, ctx.lastres.events)
    out, ok = read_cli(plan, ctx, wire, who, faults, "f")
    if not ctx.lastres.fired:
        return
    ctx.trivial = False
    ctx.probes["medium-accepted" if ok else "medium-rejected"] += 1
    why = [w for _, w in ctx.lastres.fired]
    if ok and out != data:
        return ctx.violate("wrong-bytes", "after %s decryption succeeds with %s, original %s" % (why, short(out), short(data)))
    if not ok and out:
        return ctx.violate("leaked", "after %s decryption fails but released %d bytes" % (why, len(out)))


_ = (random, key)
