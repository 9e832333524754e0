"""C06 - any matching identity decrypts, whatever else is present, in any order."""

import random

from .. import refage, world
from ..world import key, lib_priv, payload, short


def gen(r, tier):
    kinds = r.choice([("age", "rsa", "ed"), ("age",), ("rsa",), ("ed",), ("rsa", "ed"), ("age", "ed"), ("age", "rsa")])
    small = r.random() < 0.7  # few keys of a kind: overlaps are frequent
    plan = {
        "mode": r.choice(["cli", "cli", "lib"]),
        "data": {"n": r.choice([0, 1, 17, 500, 70000]), "s": r.randrange(100)},
        "recips": gen_keys(r, kinds, small, r.choice([1, 1, 2, 3, 6])),
        "ids": gen_keys(r, r.choice([kinds, ("age", "rsa", "ed")]), small, r.choice([0, 1, 2, 4, 8])),
        "made": r.choice(["self", "self", "ref"]),
        "armored": r.random() < 0.2,
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
        "dirseed": r.randrange(1 << 16),
        "place": r.randrange(1 << 16),
        "grease": r.choice([0, 0, 0, 1, 2]),
        "coll": r.choice(["list", "tuple", "set", "dup"]),
    }
    if r.random() < 0.12:
        # keys that are nearly the same: common bytes, or the same short tag in the file
        twins = [["age", 1000 + i] for i in range(10)] + [["ed", 8], ["ed", 9], ["rsa", 10], ["rsa", 11]] * 2
        r.shuffle(twins)
        plan["recips"] += twins[: r.choice([1, 2, 3])]
        r.shuffle(twins)
        plan["ids"] += twins[: r.choice([1, 3, 6])]
        plan["ids"] = [d for i, d in enumerate(plan["ids"]) if d not in plan["ids"][:i]]
        r.shuffle(plan["recips"])
        r.shuffle(plan["ids"])
    elif r.random() < 0.02:
        plan["recips"] = world.gen_crowd(r)
        if r.random() < 0.5:
            plan["ids"] += world.gen_crowd(r, 15)
        plan["data"]["n"] = min(plan["data"]["n"], 500)
    elif r.random() < 0.03:
        # many identities, the matching one anywhere among them
        plan["ids"] = world.gen_crowd(r)
        plan["data"]["n"] = min(plan["data"]["n"], 500)
    if r.random() < 0.05:
        plan["foreign"] = [r.choice(["1", "10", "18", "22", "23", "40", "64", "-1"]) for _ in range(r.choice([1, 1, 3]))]
    if r.random() < 0.35:
        plan["recips"].insert(r.randrange(len(plan["recips"]) + 1), ["pw", r.choice(world.PASSWORDS[:3])])
    if r.random() < 0.3 and plan["mode"] == "lib":
        plan["recips"].append(["pw", "another"])
    if r.random() < 0.45:
        plan["ids"].insert(r.randrange(len(plan["ids"]) + 1), ["pw", r.choice(world.PASSWORDS[:4])])
    if plan["mode"] == "lib" and r.random() < 0.3:  # a program may offer several passphrases
        for w in r.sample(world.PASSWORDS[:5] + ["another"], r.choice([1, 2, 3])):
            if ["pw", w] not in plan["ids"]:
                plan["ids"].insert(r.randrange(len(plan["ids"]) + 1), ["pw", w])
    if r.random() < 0.2:  # no match at all
        have = plan["recips"]
        plan["ids"] = [d for d in plan["ids"] if d not in have]
    elif r.random() < 0.5:
        d = r.choice(plan["recips"])
        if d not in plan["ids"] and not (plan["mode"] == "cli" and d[0] == "pw" and any(i[0] == "pw" for i in plan["ids"])):
            plan["ids"].insert(r.randrange(len(plan["ids"]) + 1), d)
    return plan


def gen_keys(r, kinds, small, n):
    out = []
    for _ in range(n):
        k = r.choice(kinds)
        top = {"age": 5 if small else 40, "rsa": 5 if small else 9, "ed": 4 if small else 8}[k]
        if k == "rsa" and not small and r.random() < 0.6:
            top = 6
        out.append([k, r.randrange(top)])
    return out


def blob_of(plan, ctx, data):
    recips = plan["recips"]
    rr = random.Random(plan["place"])
    extra = []
    for _ in range(plan["grease"]):
        extra.append((rr.randrange(len(recips) + 1), (rr.choice(["grease", "foo", "x25519", "SCRYPT", "ssh-dss"]), ["a", "b"][: rr.randrange(3)], refage.b64(rr.randbytes(rr.choice([0, 16, 32, 100]))))))
    for cost in plan.get("foreign", ()):
        # password entries of somebody else, some with a cost that is refused
        args = [refage.b64(rr.randbytes(16)), cost]
        extra.append((rr.randrange(len(recips) + 1), ("scrypt", args, refage.b64(rr.randbytes(32)))))
    if plan["made"] == "self" and not extra:
        return ctx.encrypt(recips, data, plan={"entropy": plan["entropy"]})
    return world.ref_blob(recips, data, plan["entropy"], extra=extra)


def run(plan, ctx):
    data = payload(plan["data"])
    recips, ids = plan["recips"], plan["ids"]
    ctx.trivial = len(recips) + len(ids) < 3
    blob = blob_of(plan, ctx, data)
    if blob is None:
        return ctx.violate("encrypt-fails", "encrypting to %r fails" % recips)
    wire = refage.armor(blob) if plan["armored"] else blob
    match = any(d in recips for d in ids)
    ctx.probes["match" if match else "nomatch"] += 1
    if plan["mode"] == "lib":
        got = by_lib(plan, ctx, wire)
    else:
        got = by_cli(plan, ctx, wire)
    if match and got is None:
        ctx.violate("refused", "identities %r do not open a file for %r" % (ids, recips))
    elif match and got != data:
        ctx.violate("wrong-bytes", "decrypted %s instead of %s" % (short(got), short(data)))
    elif not match and got is not None:
        ctx.violate("opened", "identities %r open a file for %r" % (ids, recips))


def by_lib(plan, ctx, wire):
    import io

    def fn(lib, p):
        keys = [lib_priv(lib, d) for d in plan["ids"]]
        if plan["coll"] == "dup":
            keys = keys + keys
        elif plan["coll"] == "tuple":
            keys = tuple(keys)
        elif plan["coll"] == "set":
            keys = set(keys)
        src = io.BytesIO(wire)
        if plan["armored"]:
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        with lib.Decryptor(keys, src) as d:
            return d.read()

    st, v = ctx.library(fn, {"hashseed": plan["hashseed"]})
    return v if st == "ok" else None


def by_cli(plan, ctx, wire):
    """Identities spread over keys.txt, KEYFILES, ~/.ssh and the prompt."""
    rr = random.Random(plan["place"])
    home = ctx.home("home")
    files = {}
    pw = None
    n = 0
    for d in plan["ids"]:
        k = key(d)
        if d[0] == "pw":
            pw = d[1]
        elif d[0] == "age":
            where = rr.choice(["home/.config/age/keys.txt", "home/.config/age/keys.txt", "w/k1.txt", "w/k2.txt"])
            files.setdefault(where, "")
            files[where] += rr.choice([k.keyfile(), k.priv + "\n", "\n# x\n" + k.priv.lower() + "  \n", k.priv + "\r\n"])
        else:
            n += 1
            name = rr.choice(["id_%s_%d" % (d[0], n), "id_%d" % n, "id_zz_%03d" % rr.randrange(999)])
            ctx.write("home/.ssh/" + name, k.priv, 0o600)
            if rr.random() < 0.4:
                ctx.write("home/.ssh/" + name + ".pub", k.pub + "\n")
    if rr.random() < 0.3:
        ctx.write("home/.ssh/config", "Host *\n")
        ctx.write("home/.ssh/known_hosts", "x y z\n")
    for f, t in files.items():
        ctx.write(f, t)
    argv = ["decrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw is not None else [])
    argv += ["-i", ctx.write("w/in", wire)]
    argv += [ctx.path(f) for f in sorted(files) if f.startswith("w/")]
    r = ctx.cli(
        argv, home, {"hashseed": plan["hashseed"], "dirseed": plan["dirseed"]}, passwords=[pw] if pw is not None else (), near=plan["near"],
    )
    if r.code != 0:
        if r.out:
            ctx.violate("leaked", "decryption fails but writes %d bytes" % len(r.out))
        return None
    return r.out
