"""C02 - success is reported only when the whole output was stored."""

import re

from .. import refage, seams, world
from ..image import Lib
from ..world import key, lib_pub, payload, short

PUB = re.compile(rb"age1[ac-hj-np-z02-9]{58}")


def gen(r, tier):
    cmd = r.choice(["encrypt", "encrypt", "encrypt", "decrypt", "decrypt", "generate", "lib", "lib"])
    plan = {
        "cmd": cmd,
        "data": world.gen_data(r, 0.4),
        "recips": world.gen_recips(r, 3, pw=cmd != "lib"),
        "armored": r.random() < 0.45,
        "out": r.choice(["file", "file", "capture", "stdout", "append"]),
        "infile": r.random() < 0.5,
        "unbuffered": r.random() < 0.35,
        "bufsize": r.choice([None, None, 16, 100, 4096, 65536]),
        "seg": {"write": r.choice([None, None, None, "rand", 1000, 4096]), "seed": r.randrange(1 << 20)},
        "faults": [],
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "pieces": r.choice([1, 1, 2, 5]),
        "sink": r.choice(["raw", "raw", "buffered"]),
        "with": r.random() < 0.5,
        "tty": r.random() < 0.3,
    }
    if plan["data"]["n"] > 20000 and plan["bufsize"] in (16, 100):
        plan["bufsize"] = None
    if r.random() < 0.85:
        plan["faults"].append(world.gen_out_fault(r))
        if r.random() < 0.15:
            plan["faults"].append(world.gen_out_fault(r))
        for f in plan["faults"]:
            f["not_target"] = "stderr"
    return plan


def simplan(plan):
    return {"entropy": plan["entropy"], "bufsize": plan["bufsize"]}


def out_args(ctx, plan):
    out = plan["out"]
    pre = b""
    if out == "file":
        # with a named output a terminal as standard output is as good as anything
        return ["-o", ctx.path("w", "out")], (("tty",) if plan["tty"] else ("capture",)), pre
    if out == "capture":
        return [], ("capture",), pre
    if out == "stdout":
        return [], ("file", ctx.path("w", "out")), pre
    pre = b"earlier content\n"
    ctx.write("w/out", pre)
    return [], ("append", ctx.path("w", "out")), pre


def produced(ctx, plan, res, pre):
    if plan["out"] == "capture":
        return res.out
    d = ctx.read("w/out")
    if d is None:
        return None
    if not d.startswith(pre):
        return None
    return d[len(pre) :]


def run(plan, ctx):
    if plan["cmd"] == "lib":
        return run_lib(plan, ctx)
    data = payload(plan["data"])
    recips = plan["recips"]
    args, pw = world.split_recips(recips)
    ctx.write("w/.keep", b"")
    cmd = plan["cmd"]
    stdin = b""
    if cmd == "encrypt":
        argv = ["encrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw else [])
        home = ctx.home("home")
        source = data
    elif cmd == "decrypt":
        rr = __import__("random").Random("enc:%s" % plan["entropy"])
        blob = refage.build([key(d) for d in recips], data, rr.randbytes, world.kdf)
        if plan["armored"]:
            blob = refage.armor(blob)
        argv = ["decrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw else [])
        home = ctx.home("home", recips)
        source = blob
    else:
        argv = ["generate"]
        home = ctx.home("home")
        source = None
    if source is not None:
        if plan["infile"]:
            argv += ["-i", ctx.write("w/in", source)]
        else:
            stdin = source

    def once(faults, name):
        oargs, sout, pre = out_args(ctx, plan)
        a = argv + oargs + (args if cmd == "encrypt" else [])
        res = ctx.cli(
            a, home, simplan(plan), name=name, stdin=stdin, stdout=sout, faults=faults,
            seg=plan["seg"], unbuffered=plan["unbuffered"], passwords=[pw] if pw else (), near=plan["near"],
        )
        return res, produced(ctx, plan, res, pre)

    def complete(out, res):
        if out is None:
            return "no output"
        if cmd == "encrypt":
            got = ctx.judge(out, [recips[0]], plan["armored"], pw if recips[0][0] == "pw" else None)
            if got != data:
                return "ciphertext decrypts to %s, input was %s" % (short(got), short(data))
        elif cmd == "decrypt":
            if out != data:
                return "output is %s, plaintext was %s" % (short(out), short(data))
        else:
            m = PUB.findall(res.err)
            if not m:
                return "no public key announced"
            if not usable(ctx, out, m[-1]):
                return "key file does not open files for the announced key"
            if m[-1] not in out:
                return "key file does not hold the public key"
        return None

    res, out = once((), "dry")
    if res.code != 0:
        ctx.violate("fails", "%s without any fault exits with %r: %s" % (cmd, res.code, res.exc))
        return
    why = complete(out, res)
    if why:
        ctx.violate("incomplete", "exit 0 without fault but %s" % why)
        return
    if not plan["faults"]:
        return
    faults = world.resolve(plan["faults"], res.events)
    res, out = once(faults, "f")
    if not res.fired:
        return
    ctx.trivial = False
    ctx.probes["exit0" if res.code == 0 else "exit!0"] += 1
    if res.code == 0:
        why = complete(out, res)
        if why:
            ctx.violate(
                "silent-loss", "%s exits 0 after %s but %s" % (cmd, [w for _, w in res.fired], why)
            )


def usable(ctx, keyfile, pub):
    """Does the command accept `keyfile` as identity for public key `pub`?"""
    hrp, raw = refage.unbech32(pub.decode())
    if raw is None:
        return False

    class K:
        kind = "X25519"
        public = raw

    rnd = __import__("random").Random(7).randbytes
    blob = refage.build([K], b"probe", rnd, world.kdf)
    ctx.write("w/probe.key", keyfile)
    ctx.write("w/probe.age", blob)
    h = ctx.home("probehome")
    r = ctx.cli(
        ["decrypt", "-i", ctx.path("w/probe.age"), ctx.path("w/probe.key")], h, name="probe"
    )
    return r.code == 0 and r.out == b"probe"


# -- library level: closing the stream is the acknowledgement ------------------


def run_lib(plan, ctx):
    data = payload(plan["data"])
    recips = [d for d in plan["recips"] if d[0] != "pw"] or [["age", 1]]

    def once(faults, name):
        state = {}

        def body(p):
            lib = Lib()
            dev = seams.Dev("sink")
            state["dev"] = dev
            raw = seams.SimOut(p, "sink", dev=dev)
            sink = raw
            if plan["sink"] == "buffered":
                import io

                sink = io.BufferedWriter(raw, plan["bufsize"] or 8192)
            keys = [lib_pub(lib, d) for d in recips]
            target = sink
            try:
                if plan["armored"]:
                    target = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink)
                enc = lib.Encryptor(keys, target)
                n = max(1, plan["pieces"])
                step = len(data) // n + 1
                if plan["with"]:
                    with enc:
                        for i in range(0, len(data), step):
                            enc.write(data[i : i + step])
                else:
                    for i in range(0, len(data), step):
                        enc.write(data[i : i + step])
                    enc.close()
                if plan["armored"]:
                    target.close()
                if not sink.closed:
                    sink.flush()
                state["ok"] = True
                state["snap"] = bytes(dev.data)
            except (OSError, ValueError) as e:
                state["ok"] = False
                state["why"] = repr(e)

        p, _ = ctx.body(body, plan=simplan(plan), faults=faults, name=name, seg=plan["seg"])
        state["p"] = p
        return state

    def check(st, what):
        blob = bytes(st["snap"])
        got = ctx.judge(blob, [recips[0]], plan["armored"])
        if got != data:
            ctx.violate(what, "close() returned normally but the sink decrypts to %s, written %s" % (short(got), short(data)))

    st = once((), "dry")
    if not st.get("ok"):
        ctx.violate("fails", "stream operations fail without fault: %s" % st.get("why"))
        return
    check(st, "incomplete")
    if ctx.violations or not plan["faults"]:
        return
    faults = world.resolve(plan["faults"], st["p"].events)
    st = once(faults, "f")
    if not st["p"].fired:
        return
    ctx.trivial = False
    ctx.probes["lib-ok" if st.get("ok") else "lib-error"] += 1
    if st.get("ok"):
        check(st, "silent-loss")

