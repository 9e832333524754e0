"""C11 - a generated key pair is stored whole and key files stay loadable."""

import os
import random
import re
import sys

from .. import proc, refage, seams, world
from ..world import short

TIMES = [
    1573380000.0, 0.0, -1.0, 951782399.0, 1582934400.0, 2147483647.0, 2147483648.0, 4102444800.0,
    253402300799.0, -62135500000.0, -30610224000.0, 1e9, 1483228799.9999, 1572138000.0,
]
PUB = re.compile(rb"age1[02-9ac-hj-np-z]{20,}")
PRIV = re.compile(rb"AGE-SECRET-KEY-1[0-9A-Z]*", re.I)


def gen(r, tier):
    mode = r.choice(["one", "one", "append", "append", "append", "concurrent", "concurrent", "torn", "torn", "torn"])
    plan = {
        "mode": mode,
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "t0": r.choice(TIMES) if r.random() < 0.8 else r.uniform(0, 4e9),
        "clock": r.choice([[], [0.0] * 40, [-1.0] * 40, [-86400.0, 0.0] * 20, [1e7] * 5]),
        "n": 1 if mode in ("one",) else r.choice([2, 2, 3, 4, 6, 10]),
        "how": r.choice(["option", "file", "append", "capture", "tty", "pipe", "text"]) if mode == "one" else "append",
        "unbuffered": [r.random() < 0.4 for _ in range(10)],
        "bufsize": r.choice([None, None, None, 16, 64]),
        "start": r.choice(["none", "none", "keys", "keys", "comment", "crlf"]) if r.random() < 0.9 else "many",
        "many": r.choice([45, 60, 100, 400]),
        "place": r.choice(["arg", "home"]),
        "term": r.random() < 0.3,
        "seg": {"write": r.choice([None, None, None, "rand", 1, 10]) if mode != "concurrent" else None, "seed": r.randrange(999)},
        "faults": [],
    }
    if abs(plan["t0"]) > 5e9:
        plan["clock"] = []
    if mode == "concurrent":
        plan["bufsize"] = None
        plan["sched"] = {"seed": r.randrange(1 << 30), "p_io": r.choice([0.1, 0.5, 0.9])}
    if mode == "torn":
        f = {"on": "write", "u": r.random(), "do": r.choice(["torn", "torn", "kill"]), "errno": r.choice([28, 5, 122]), "frac": r.choice([0.0, r.random(), r.random(), r.random(), 0.999])}
        f["when"] = "mid" if f["do"] == "kill" else "before"
        plan["faults"] = [f]
        plan["n"] = r.choice([1, 1, 2, 3])
        plan["how"] = r.choice(["append", "append", "option"])
        plan["tail"] = r.choice([None, None, "zeros", "zeros", "cut"])
        plan["u"] = r.random()
        plan["again"] = r.random() < 0.3
    return plan


def parse_keys(data):
    """Secrets of complete private key lines of a key file."""
    out = []
    for line in data.decode("utf-8", "replace").split("\n"):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        hrp, sec = refage.unbech32(line)
        out.append(sec if hrp == "age-secret-key-" and sec is not None and len(sec) == 32 else None)
    return out


def start_text(plan):
    if plan["start"] == "none":
        return b"", []
    ks = [world.key(["age", i]) for i in ((31, 32) if plan["start"] != "many" else range(100, 100 + plan["many"]))]
    text = "".join(k.keyfile() for k in ks)
    if plan["start"] == "comment":
        return b"# my keys\n\n# end\n", []
    if plan["start"] == "crlf":
        text = text.replace("\n", "\r\n")
    return text.encode(), ks


def announce(ctx, who, stored, streams, err=None):
    """Every public key named anywhere must belong to the stored private key."""
    keys = [s for s in parse_keys(stored) if s]
    privs = PRIV.findall(stored)
    if len(privs) != 1 or len(keys) != 1:
        ctx.violate("incomplete", "%s exits 0 but stored %s with %d private keys" % (who, short(stored), len(keys)))
        return None
    k = refage.Age(keys[0])
    for text in streams:
        for m in PUB.findall(text):
            if m.decode() != k.pub:
                ctx.violate("wrong-announcement", "%s announces %s, the stored key belongs to %s" % (who, m.decode(), k.pub))
                return None
    if not any(k.pub.encode() in t for t in streams):
        ctx.violate("no-announcement", "%s does not name the public key" % who)
        return None
    if err is not None and k.pub.encode() not in err:
        ctx.violate("no-announcement", "%s does not name the public key on standard error" % who)
        return None
    return k


def sample(plan, keys):
    """All of a few keys; of many those at the ends and some more."""
    if len(keys) < 20:
        return keys
    r = random.Random(plan["entropy"])
    return [keys[0]] + r.sample(keys[1:-2], 2) + keys[-2:]


def usable(ctx, plan, k, path, why):
    """Decrypt with the key file what was encrypted to the announced key."""
    text = b"for " + k.pub.encode()
    rnd = random.Random("c11" + k.pub).randbytes
    blob = refage.build([k], text, rnd, world.kdf)
    ctx.write("d.in", blob)
    content = ctx.read(path)
    if plan["place"] == "home":
        ctx.write("dh/.config/age/keys.txt", content or b"")
        rest = []
    else:
        ctx.home("dh")
        try:
            os.unlink(ctx.path("dh/.config/age/keys.txt"))
        except OSError:
            pass
        rest = [ctx.path(path)]
    r = ctx.cli(["decrypt", "-i", ctx.path("d.in")] + rest, ctx.path("dh"), name="use")
    if r.code != 0 or r.out != text:
        ctx.violate("not-loadable", "%s cannot decrypt for %s%s: exit %r %s" % (path, k.pub, why, r.code, r.exc))
        return False
    return True


def loaded(ctx, path):
    """The keys the package loads from a file, as public strings; None if it refuses."""

    def fn(lib, p):
        load = sys.modules["age.keyloader"].load_keys_txt
        return [k.public_key().public_string() for k in load(ctx.path(path))]

    st, v = ctx.library(fn)
    return v if st == "ok" else None


def run(plan, ctx):
    text, known = start_text(plan)
    home = ctx.home("home")
    if plan["mode"] == "concurrent":
        return run_concurrent(plan, ctx, home, text, known)
    if plan["mode"] == "torn":
        return run_torn(plan, ctx, home, text, known)
    ctx.trivial = plan["n"] == 1 and plan["seg"]["write"] is None
    s = ctx.sim({"entropy": plan["entropy"], "t0": plan["t0"], "clock": plan["clock"], "bufsize": plan["bufsize"]})
    keys = list(known)
    if plan["mode"] == "one":
        text, keys = b"", []
    ctx.write("w/keys", text)
    for i in range(plan["n"]):
        r, new, pipe = generate(plan, ctx, s, home, i)
        if r.code != 0:
            return ctx.violate("generate-fails", "generate exits %r: %s" % (r.code, r.exc))
        k = announce(ctx, "generate", new, [new, r.err, r.out], None if plan["how"] == "tty" else r.err)
        if k is None:
            return
        if plan["how"] in ("capture", "tty", "pipe", "text"):
            ctx.write("w/keys", new)
        if k.pub in [x.pub for x in keys]:
            return ctx.violate("same-key", "generate produces %s twice" % k.pub)
        keys.append(k)
    for k in sample(plan, keys):
        if not usable(ctx, plan, k, "w/keys", " after %d runs" % plan["n"]):
            return
    ctx.probes["keys"] += len(keys)


def generate(plan, ctx, s, home, i, faults=(), name=None):
    how = plan["how"]
    if how == "text":
        return in_memory(plan, ctx, home), ctx.memory, None
    before = ctx.read("w/keys")
    argv = ["generate"]
    sout = ("capture",)
    if how == "option":
        argv += ["-o", ctx.path("w/keys")]
        before = b""
        if plan.get("term"):
            sout = ("tty",)
    elif how == "file":
        sout = ("file", ctx.path("w/keys"))
        before = b""
    elif how == "append":
        sout = ("append", ctx.path("w/keys"))
    elif how == "tty":
        sout = ("tty",)
    r = ctx.cli(argv, home, sim=s, name=name or "g%d" % i, stdout=sout, seg=plan["seg"], unbuffered=plan["unbuffered"][i % 10], faults=faults, near=plan["near"])
    if how in ("capture", "tty", "pipe"):
        return r, r.out, None
    after = ctx.read("w/keys")
    return r, after[len(before) :] if after.startswith(before) else b"", None


class Res:
    pass


def in_memory(plan, ctx, home):
    """The command function with a text stream that is no file."""
    import io

    box = io.StringIO()
    r = Res()
    st, v = ctx.library(lambda lib, p: lib.cli.generate(outfile=box), {"entropy": plan["entropy"], "t0": plan["t0"], "clock": plan["clock"]}, home=home)
    r.code, r.exc = (0, None) if st == "ok" else (1, v)
    r.err, r.out = bytes(ctx.last.err.data), b""
    ctx.memory = box.getvalue().encode("utf-8", "replace")
    return r


def run_concurrent(plan, ctx, home, text, known):
    ctx.trivial = False
    s = ctx.sim({"entropy": plan["entropy"], "t0": plan["t0"], "clock": plan["clock"], "sched": plan["sched"]})
    ctx.write("w/keys", text)
    ps = []
    for i in range(plan["n"]):
        p = s.proc("g%d" % i, home, unbuffered=plan["unbuffered"][i])
        proc.open_std(p, proc.Std(b"", ("append", ctx.path("w/keys"))))
        s.spawn(p.name, proc.cli(p, ["generate"]), p)
        ps.append(p)
    ctx.nprocs += len(ps)
    s.run()
    if s.deadlock or s.capped:
        return ctx.violate("no-progress", "generate blocks")
    keys = list(known)
    for p in ps:
        if p.code != 0:
            return ctx.violate("generate-fails", "generate exits %r" % p.code)
        ann = set(PUB.findall(bytes(p.err.data)))
        if len(ann) > 1:
            return ctx.violate("wrong-announcement", "one generate announces %d keys" % len(ann))
    found = [refage.Age(x) for x in parse_keys(ctx.read("w/keys")) if x]
    if len(found) != len(known) + plan["n"] or len({k.pub for k in found}) != len(found):
        return ctx.violate("lost-key", "%d generate commands appended to a file with %d keys, it now holds %d" % (plan["n"], len(known), len(found)))
    for p in ps:
        for a in PUB.findall(bytes(p.err.data)):
            if a.decode() not in [k.pub for k in found]:
                return ctx.violate("lost-key", "announced key %s is not in the file" % a.decode())
    for k in sample(plan, found):
        if not usable(ctx, plan, k, "w/keys", " after %d concurrent runs" % plan["n"]):
            return
    ctx.probes["keys"] += len(found)


def run_torn(plan, ctx, home, text, known):
    """The last generate is cut short; what is loaded must have been generated."""
    sp = {"entropy": plan["entropy"], "t0": plan["t0"], "clock": plan["clock"], "bufsize": plan["bufsize"]}
    ok = {k.pub for k in known}

    def history(faults):
        ctx.write("w/keys", text)
        s = ctx.sim(sp)
        r = None
        for i in range(plan["n"]):
            last = i == plan["n"] - 1
            r, _, _ = generate(plan, ctx, s, home, i, faults if last else (), name="g%d" % i)
            for b in s.drawn:
                if len(b) == 32:
                    ok.add(refage.Age(b).pub)
            for x in parse_keys(ctx.read("w/keys") or b""):
                if x and not faults:
                    ok.add(refage.Age(x).pub)
        return r

    r = history(())
    full = ctx.read("w/keys")
    faults = world.resolve([dict(f, target="stdout" if plan["how"] == "append" else "w/keys") for f in plan["faults"]], r.events)
    if not faults:
        return
    r = history(faults)
    if not r.fired:
        return
    ctx.trivial = False
    torn = ctx.read("w/keys") or b""
    if r.code == 0 and torn != full:
        return ctx.violate("incomplete", "generate exits 0 after %s, the file is torn" % [w for _, w in r.fired])
    if plan["tail"] == "zeros" and full.startswith(torn):
        # the length reached the disk, the data did not
        torn = torn + bytes(len(full) - len(torn))
        ctx.write("w/keys", torn)
    elif plan["tail"] == "cut":
        torn = full[: int(plan["u"] * len(full))]
        ctx.write("w/keys", torn)
    got = loaded(ctx, "w/keys")
    if got is None:
        ctx.probes["torn-refused"] += 1
    else:
        ctx.probes["torn-loaded"] += 1
        for g in got:
            if g not in ok:
                return ctx.violate("invented-key", "a torn key file (%d of %d bytes) loads as %s, which was never generated" % (len(torn), len(full), g))
    # what the file does not contain must not decrypt
    for k in [refage.Age(x) for x in parse_keys(full) if x]:
        if got is not None and k.priv.encode() in torn.upper() and k.pub not in got:
            return ctx.violate("not-loadable", "a torn key file loads without the complete key %s in it" % k.pub)
    if plan["again"] and plan["how"] == "append":
        plan2 = dict(plan, seg={})
        s = ctx.sim(dict(sp, entropy=plan["entropy"] + 1))
        r, _, _ = generate(plan2, ctx, s, home, 0, name="again")
        for b in s.drawn:
            if len(b) == 32:
                ok.add(refage.Age(b).pub)
        ok.update(x.decode() for x in PUB.findall(r.err))
        got = loaded(ctx, "w/keys")
        for g in got or ():
            if g not in ok:
                return ctx.violate("invented-key", "a torn and extended key file loads as %s" % g)


_ = seams
