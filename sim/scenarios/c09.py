"""C09 - secrets are fresh and come from the operating system's entropy."""

import gc
import io
import json
import os
import random
import re

from .. import refage, seams, world
from ..world import key, lib_pub, payload

CLOCKS = [
    [], [0.0] * 50, [-1.0] * 50, [-86400.0, 0, 0, -3600.0, 5.0], [1e6, -1e6] * 20, [0.001] * 50,
]


def gen_op(r, lib):
    x = r.random()
    if x < 0.2:
        return {"op": "gen"}
    op = {
        "op": "enc",
        "recips": world.gen_recips(r, 3),
        "data": {"n": r.choice([0, 1, 16, 100, 100, 70000, 140000]), "s": r.randrange(4)},
        "armored": r.random() < 0.25,
    }
    if r.random() < 0.3:
        op["recips"] = op["recips"] + [r.choice(op["recips"])]
    if lib and r.random() < 0.2:
        op["sink"] = r.choice([0, 1, 2, 3, 4])  # the nth write fails
    if lib and r.random() < 0.1:
        op["abort"] = True
    return op


def gen(r, tier):
    mode = r.choice(["procs", "procs", "lib", "lib", "threads", "threads", "fail", "fail", "fail"])
    if r.random() < (0.004 if tier == "quick" else 0.002):
        return {
            "mode": "lib", "ops": [{"op": "enc", "recips": [["age", 1]], "data": {"n": 65536 * 257 + r.randrange(65536 * 3), "s": 1}, "armored": False}],
            "entropy": r.randrange(1 << 30), "t0": 1573380000.0, "clock": [], "same": False, "diff": False, "faults": [], "home": 0,
        }
    if r.random() < 0.004:
        return {"mode": "wide", "ops": [{"op": "enc"}], "n": r.choice([65535, 65536, 65537, 65600, 131073]), "armored": False, "entropy": r.randrange(1 << 30), "recips": [["age", 1]]}
    lib = mode in ("lib", "threads")
    n = r.choice([2, 2, 3, 4, 6]) if mode != "fail" else r.choice([1, 1, 2, 3])
    ops = [gen_op(r, lib) for _ in range(n)]
    if r.random() < 0.3:
        ops += [dict(o) for o in ops]
    plan = {
        "mode": mode,
        "ops": ops,
        "entropy": r.randrange(1 << 30),
        "t0": r.choice([1573380000.0, 0.0, 2147483647.0]),
        "clock": r.choice(CLOCKS),
        "same": r.random() < 0.5,  # share key objects between sessions
        "diff": r.random() < 0.6,
        "home": r.randrange(3),
        "faults": [],
    }
    if mode in ("procs", "lib") and r.random() < 0.25:
        plan["narrow"] = r.randrange(1, 100)
        plan["diff"] = False
    if mode == "lib" and r.random() < 0.2:
        plan["fork"] = True
        plan["diff"] = False
    if mode == "threads":
        plan["sched"] = {"seed": r.randrange(1 << 30), "p_io": r.choice([0.0, 0.1, 0.5]), "p_line": r.choice([0.002, 0.01, 0.05, 0.3])}
        plan["opcodes"] = r.random() < 0.15
        plan["ops"] = plan["ops"][:4]
        for o in plan["ops"]:
            if o["op"] == "enc":
                o["data"]["n"] = min(o["data"]["n"], 200)
    if mode == "fail":
        plan["lib"] = r.random() < 0.5
        plan["nth"] = r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        plan["once"] = r.random() < 0.3
        plan["errno"] = r.choice([5, 38, 11, 4, 24, 2])
        plan["diff"] = False
    return plan


def values(ops, blobs):
    """(label, bytes) of everything in the outputs that must be fresh."""
    out = []
    for i, (o, b) in enumerate(zip(ops, blobs)):
        if b is None:
            continue
        if o["op"] == "gen":
            for line in b.decode("utf-8", "replace").split("\n"):
                if line.upper().startswith("AGE-SECRET-KEY-"):
                    out.append(("private key %d" % i, refage.unbech32(line.strip())[1] or b""))
            continue
        if o["armored"]:
            b = refage.dearmor(b)
            if not b:
                continue
        p = refage.parse(b) or refage.parse(b + b"\n")
        if p is None:
            continue
        for d in o["recips"]:
            fk = None
            for st in p.stanzas:
                fk = refage.unwrap(st, key(d), world.kdf)
                if fk is not None:
                    break
            if fk is not None:
                out.append(("file key %d" % i, fk))
                break
        for j, (typ, args, body) in enumerate(p.stanzas):
            n = {"X25519": 0, "scrypt": 0, "ssh-ed25519": 1}.get(typ)
            try:
                if n is not None:
                    out.append(("%s value %d.%d" % (typ, i, j), refage.unb64(args[n])))
                out.append(("%s body %d.%d" % (typ, i, j), refage.unb64(body)))
            except (ValueError, IndexError):
                pass
        if len(p.payload) >= 16:
            out.append(("payload nonce %d" % i, p.payload[:16]))
    return out


def simulate(plan, ctx, entropy, faults=()):
    """Run all operations; returns (outputs, results, sim)."""
    random.seed(12345)
    ops = plan["ops"]
    s = ctx.sim({"entropy": entropy, "t0": plan["t0"], "clock": list(plan["clock"]), "sched": plan.get("sched"), "narrow": plan.get("narrow")})
    s.supply = []  # bytes of entropy used up to each operation
    if plan["mode"] == "procs" or (plan["mode"] == "fail" and not plan["lib"]):
        blobs, res = [], []
        home = ctx.home("home")
        for i, o in enumerate(ops):
            out = "w/out%d" % i
            ctx.write(out, b"")
            if o["op"] == "gen":
                argv, stdin, pw = ["generate"], b"", None
            else:
                args, pw = world.split_recips(o["recips"])
                argv = ["encrypt"] + (["-a"] if o["armored"] else []) + (["-p"] if pw else []) + args
                stdin = payload(o["data"])
            if (i + plan["home"]) % 3:
                argv += ["-o", ctx.path(out)]
                sout = ("capture",)
            else:
                sout = ("file", ctx.path(out))
            r = ctx.cli(argv, home, sim=s, name="p%d" % i, stdin=stdin, stdout=sout, passwords=[pw] if pw else (), faults=faults if i == len(ops) - 1 else ())
            blobs.append(ctx.read(out))
            s.supply.append(sum(len(d) for d in s.drawn))
            res.append(("ok" if r.code == 0 else "error", r.exc, r))
        return blobs, res, s
    devs = [None] * len(ops)

    def session(i, o):
        def fn(lib, p, shared):
            if o["op"] == "gen":
                k = lib.AgePrivateKey.generate()
                devs[i] = ("# %s\n%s\n" % (k.public_key().public_string(), k.private_string())).encode()
                return None
            dev = devs[i] = seams.Dev("sink%d" % i)
            sink = seams.SimOut(p, "sink%d" % i, dev=dev)
            if "sink" in o:
                p.dyn.append([{"on": "write", "target": "sink%d" % i, "nth": o["sink"] + 1, "do": "err", "errno": 28, "sticky": True}, 0])
            out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if o["armored"] else sink
            e = None
            try:
                with lib.Encryptor(get(lib, shared, o["recips"]), out) as e:
                    data = payload(o["data"])
                    e.write(data[: len(data) // 2])
                    if o.get("abort"):
                        raise LookupError("from the caller")
                    e.write(data[len(data) // 2 :])
                if o["armored"]:
                    out.close()
            finally:
                del e
                gc.collect()
            return None

        return fn

    def get(lib, shared, recips):
        if not plan["same"]:
            return [lib_pub(lib, d) for d in recips]
        out = []
        for d in recips:
            k = repr(d)
            if k not in shared:
                shared[k] = lib_pub(lib, d)
            out.append(shared[k])
        return out

    if plan["mode"] == "threads":
        res = ctx.threads([session(i, o) for i, o in enumerate(ops)], sim=s, opcodes=plan["opcodes"], setup=lambda lib, p: {})
        res = [x + (None,) for x in res]
    else:
        res = []
        forked = []

        def fn(lib, p):
            shared = {}
            for i, o in enumerate(ops):
                if faults and i == len(ops) - 1:
                    p.dyn += [[dict(f), 0] for f in faults]
                try:
                    session(i, o)(lib, p, shared)
                    res.append(("ok", None, None))
                except Exception as e:
                    e.__traceback__ = None
                    res.append(("error", "%s: %s" % (type(e).__name__, e), None))
                s.supply.append(sum(len(d) for d in s.drawn))
            if plan.get("fork"):
                # the process forks; parent and child go on with the same operation
                devs.extend([None, None])
                n = len(ops)
                forked.extend([child(s, lambda: session(n, ops[0])(lib, p, shared), lambda: devs[n])])
                try:
                    session(n + 1, ops[0])(lib, p, shared)
                except Exception as e:
                    e.__traceback__ = None

        ctx.library(fn, sim=s)
        if forked and forked[0]:
            devs[len(ops)] = bytes.fromhex(forked[0][0])
            s.aead += [("child", bytes.fromhex(k), bytes.fromhex(x), bytes.fromhex(d)) for k, x, d in forked[0][1]]
    return [bytes(d.data) if isinstance(d, seams.Dev) else d for d in devs], res, s


def child(s, work, result):
    """Fork for real; the child works with entropy of its own and reports."""
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rd)
            s.entropy = random.Random("child:%s" % s.plan.get("entropy"))
            s.narrowcount += 2048
            n = len(s.aead)
            try:
                work()
            except Exception:
                pass
            d = result()
            d = bytes(d.data) if isinstance(d, seams.Dev) else d or b""
            msg = json.dumps([d.hex(), [[k.hex(), x.hex(), y.hex()] for _, k, x, y in s.aead[n:]]]).encode()
            while msg:
                msg = msg[os.write(wr, msg) :]
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        d = os.read(rd, 1 << 16)
        if not d:
            break
        out += d
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(out) if out else None


NEED = {"age": 32, "ed": 32, "rsa": 32, "pw": 16}


def starved(plan, ctx, res, s):
    """Less entropy was asked for than the secrets have room for."""
    need = 0
    for i, (o, x) in enumerate(zip(plan["ops"], res)):
        if x[0] != "ok":
            continue
        need += 32 if o["op"] == "gen" else 32 + sum(NEED[k] for k, _ in {(d[0], str(d[1:]) if d[0] != "pw" else "") for d in o["recips"]})
        if s.supply[i] < need:
            ctx.violate("starved", "operation %d succeeds: %d bytes of entropy for secrets of %d bytes" % (i, s.supply[i], need))
            return True
    return False


def run(plan, ctx):
    ops = plan["ops"]
    ctx.write("w/.keep", b"")
    if plan["mode"] == "fail":
        return run_fail(plan, ctx)
    if plan["mode"] == "wide":
        return run_wide(plan, ctx)
    blobs, res, s = simulate(plan, ctx, plan["entropy"])
    ctx.trivial = len(ops) < 2
    vals = values(ops + [ops[0]] * (len(blobs) - len(ops)), blobs)
    ctx.probes["values"] += len(vals)
    if len(blobs) > len(ops):
        ctx.probes["forks"] += 1
    if clash(ctx, vals, s):
        return
    if s.supply and starved(plan, ctx, res, s):
        return
    for o, x in zip(ops, res):
        if x[0] == "ok":
            ctx.probes["sessions"] += 1
        else:
            ctx.probes["failed-sessions"] += 1
    if plan["diff"]:
        blobs2, _, s2 = simulate(plan, ctx, plan["entropy"] + 1)
        vals2 = values(ops, blobs2)
        seen = {}
        for lab, v in vals:
            seen[v] = lab
        for lab, v in vals2:
            if v in seen:
                return ctx.violate("not-from-entropy", "%s (%s) is %s although the entropy differs" % (lab, v.hex()[:16], seen[v]))
        ctx.probes["differential"] += 1


def wide(ctx, plan, n):
    """The nonces of a file of n chunks, which are small and hold nothing; or the error."""
    box = []

    def fn(lib, p):
        with seams.tiny_chunks() as t, lib.Encryptor([lib_pub(lib, d) for d in plan["recips"]], io.BytesIO()) as e:
            e.write(seams.tiny_data(n))
        box.append(t.chunks)

    st, err = ctx.library(fn, {"entropy": plan["entropy"]})
    return (box[0], None) if st == "ok" else ([], err)


def run_wide(plan, ctx):
    """More chunks than any other run has."""
    few, err = wide(ctx, plan, 300)
    ctx.trivial = len(few) != 300 or len({x for x, _ in few}) != 300
    if ctx.trivial:
        return  # the size of the chunks is not kept where it is looked for
    many, err = wide(ctx, plan, plan["n"])
    if err:
        return ctx.violate("error", "encrypting %d chunks fails: %s" % (plan["n"], err))
    ctx.probes["wide-chunks"] += len(many)
    seen = {}
    for nonce, i in many:
        if seen.setdefault(nonce, i) != i:
            return ctx.violate("nonce-reuse", "chunks %d and %d of one file have the same nonce %s" % (seen[nonce], i, nonce.hex()))


def clash(ctx, vals, s):
    seen = {}
    for lab, v in vals:
        if len(v) < 16:
            ctx.violate("short-secret", "%s has only %d bytes" % (lab, len(v)))
            return True
        if v in seen:
            ctx.violate("repeated", "%s and %s are both %s" % (seen[v], lab, v.hex()[:16]))
            return True
        seen[v] = lab
    used = {}
    for name, k, n, d in s.aead:
        if used.setdefault((k, n), d) != d:
            ctx.violate("nonce-reuse", "a cipher key is used twice with nonce %s" % n.hex())
            return True
    return False


def run_fail(plan, ctx):
    """The entropy source breaks during the last operation."""
    ops = plan["ops"]
    f = {"on": "entropy", "nth": plan["nth"], "do": "err", "errno": plan["errno"], "sticky": not plan["once"]}
    blobs, res, s = simulate(plan, ctx, plan["entropy"], [f])
    vals = values(ops, blobs)
    if clash(ctx, vals, s):
        return
    if not any(k.startswith("entropy") for k in s.fired):
        return
    ctx.trivial = False
    ctx.probes["entropy-failed"] += 1
    o, b, x = ops[-1], blobs[-1], res[-1]
    need = 32 if o["op"] == "gen" else 16
    if plan["once"] and sum(len(d) for d in s.drawn) >= need and x[0] == "ok":
        # asked again and got real entropy
        retry = [e for e in (s.procs[-1].events) if e[1] == "entropy"]
        if len(retry) > plan["nth"]:
            ctx.probes["entropy-retried"] += 1
            return
    if x[0] == "ok":
        return ctx.violate("entropy-failure-ignored", "the entropy source fails at draw %d, %s succeeds" % (plan["nth"], o["op"]))
    if not b:
        return
    if o["op"] == "gen":
        if re.search(rb"AGE-SECRET-KEY-1[A-Z0-9]{58}", b.upper()):
            ctx.violate("key-without-entropy", "the entropy source fails but a private key is written")
        return
    for d in o["recips"]:
        raw = refage.dearmor(b) if o["armored"] else b
        got = refage.decrypt(raw, [key(d)], world.kdf, legacy_empty=False) if raw else None
        if got is None:
            got = ctx.judge(b, [d], o["armored"], d[1] if d[0] == "pw" else None)
        if got is not None:
            return ctx.violate("file-without-entropy", "the entropy source fails but %r opens the output" % (d,))

