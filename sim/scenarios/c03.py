"""C03 - a failed or killed encryption leaves nothing that passes for the file."""

import gc
import os
import random

from .. import refage, seams, world
from ..world import key, lib_pub, payload, short

EARLY = ("prompt", "connect", "net-read", "read", "open", "scandir")


BAD = [
    "none", "nosuchname", "age1qqqqqqqqqq", "ssh-rsa AAAAB3NzaC1yc2E", "ssh-ed25519 AAAA", "emptyalias",
    "badalias", "https://keys.example/404", "https://keys.example/refused", "https://keys.example/junk",
    "https://keys.example/broken", "@badfile", "@emptyfile", "prompt-eof",
]
HTTP = {
    "https://keys.example/404": {"wire": b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nnot found"},
    "https://keys.example/refused": {"wire": b"", "refuse": True},
    "https://keys.example/junk": {"wire": b"HTTP/1.1 200 OK\r\nContent-Length: 12\r\n\r\nage1qqqqqqq\n"},
    "https://keys.example/broken": {"wire": b"HTTP/1.1 200 OK\r\nContent-Length: 1200\r\n\r\n", "cut": 40},
}


def gen(r, tier):
    mode = r.choice(["cli"] * 5 + ["same", "same", "lib", "lib"])
    plan = {
        "mode": mode,
        "data": world.gen_data(r, 0.4),
        "recips": world.gen_recips(r, 3, pw=mode != "lib"),
        "armored": r.random() < 0.4,
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 16, 4096, 65536]),
        "seg": {"write": r.choice([None, None, "rand", 1000]), "read": r.choice([None, None, "rand", 4096]), "seed": r.randrange(1 << 20)},
        "unbuffered": r.random() < 0.3,
        "out": r.choice(["file", "file", "file", "stdout", "capture"]),
        "infile": r.random() < 0.6,
        "existing": r.choice(["none", "valid", "valid", "junk", "long"]),
        "via": r.choice(["args", "args", "file", "alias", "url"]),
        "how": r.choice(["path", "path", "symlink", "hardlink", "stdin"]),
        "bad": None,
        "faults": [],
    }
    if mode == "cli" and r.random() < 0.15:
        plan["bad"] = r.choice(BAD)
        plan["badpos"] = r.random()
        plan["out"] = "file"
    n = plan["data"]["n"]
    if plan["bufsize"] == 16 and n > 20000:
        plan["bufsize"] = None
    if mode == "lib":
        plan["pieces"] = r.randrange(1, 6)
        plan["raise_after"] = r.randrange(0, 7)
        plan["exc"] = r.choice(["ValueError", "KeyboardInterrupt", "OSError", "GeneratorExit"])
        plan["bufsize"] = None
        if r.random() < 0.3:
            plan["faults"].append(gen_fault(r))
        return plan
    if not plan["bad"] and r.random() < 0.15:
        plan["line"] = [r.random(), r.random()]  # interrupt at a line of the package
        plan["data"]["n"] = min(plan["data"]["n"], 200000)
    elif r.random() < 0.95:
        plan["faults"].append(gen_fault(r))
    return plan


def gen_fault(r):
    x = r.random()
    u = r.random()
    when = r.choice(["before", "after"])
    do = r.choice(["kill", "int", "err"])
    if x < 0.45:  # anything, anywhere
        f = {"on": "any", "u": u, "do": do, "when": when if do != "err" else "before", "errno": r.choice(world.ERRS_READ + world.ERRS_OUT)}
    elif x < 0.7:  # while storing
        if r.random() < 0.5:
            f = {"on": "write", "u": u, "do": do, "when": when if do != "err" else "before", "errno": r.choice(world.ERRS_OUT), "sticky": r.random() < 0.5}
        else:
            f = {"on": "write", "u": u, "do": r.choice(["torn", "kill"]), "when": "mid", "frac": r.choice([0.0, r.random(), 0.999]), "errno": r.choice(world.ERRS_OUT)}
            if f["do"] == "torn":
                f["when"] = "before"
            if r.random() < 0.4:
                f["chunk"] = r.choice([1, 1, 2, 3, 5])
    elif x < 0.9:  # while gathering what is needed
        f = {"on": r.choice(["read", "read", "open", "prompt", "connect", "net-read"]), "u": u, "do": do, "when": "before", "errno": r.choice(world.ERRS_READ)}
        if f["on"] == "read" and r.random() < 0.3:
            f["when"] = "after"
            f["do"] = r.choice(["kill", "int"])
        if f["on"] == "prompt" and r.random() < 0.4:
            f["do"] = "eof"
    else:
        f = {"on": r.choice(["entropy", "kdf", "close"]), "u": u, "do": do, "when": "before", "errno": 5}
        if r.random() < 0.3:
            f["do"] = "alloc"
    f["not_target"] = "stderr"
    return f


def judge_all(ctx, blob, recips, armored):
    """What any recipient gets out of the leftover."""
    for d in recips:
        got = ctx.judge(blob, [d], armored, d[1] if d[0] == "pw" else None)
        if got is not None:
            yield got
    raw = refage.dearmor(blob) if armored else blob
    if raw is not None:
        got = refage.decrypt(raw, [key(d) for d in recips], world.kdf, legacy_empty=False)
        if got is not None:
            yield got


def run(plan, ctx):
    if plan["mode"] == "lib":
        return run_lib(plan, ctx)
    data = payload(plan["data"])
    recips = plan["recips"]
    args, pw = world.split_recips(recips)
    arm = ["-a"] if plan["armored"] else []
    same = plan["mode"] == "same"
    aliases = None
    http = {}
    if args:
        if plan["via"] == "file":
            args = [ctx.write("w/recipients", "".join(a + "\n" for a in args))]
        elif plan["via"] == "alias":
            aliases = "friends: %s\n" % " ".join(a for a in args if a.startswith("age"))
            ssh = [a for a in args if not a.startswith("age")]
            args = (["friends"] if any(a.startswith("age") for a in args) else []) + ssh
        elif plan["via"] == "url":
            body = "".join(a + "\n" for a in args).encode()
            url = "https://keys.example/list"
            http[url] = {"wire": b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nContent-Type: text/plain\r\n\r\n" % len(body) + body}
            args = [url]
    bad = plan["bad"]
    if bad:
        aliases = (aliases or "") + "emptyalias:\nbadalias: age1qqqqq\n"
        http.update(HTTP)
        arg = bad
        if bad[0] == "@":
            text = {"@badfile": "age1qqqqqqq\n", "@emptyfile": "# nothing\n\n"}[bad]
            arg = ctx.write("w/" + bad[1:], text)
        if bad == "none":
            args, pw = [], None
        elif bad == "prompt-eof":
            pw = pw or "x"
        else:
            args = list(args)
            args.insert(int(plan["badpos"] * (len(args) + 1)), arg)
    home = ctx.home("home", aliases=aliases)
    if same:
        out = "file"
    else:
        out = plan["out"]
    old = None
    if not same and plan["existing"] != "none" and out == "file":
        old = {
            "valid": lambda: world.ref_blob(recips, b"the earlier content", 5, plan["armored"]),
            "junk": lambda: b"not an age file\n",
            "long": lambda: random.Random(1).randbytes(300000),
        }[plan["existing"]]()

    def once(faults, name, line=None):
        argv = ["encrypt"] + arm + (["-p"] if pw else [])
        stdin = b""
        if same:
            p = q = ctx.write("w/out", data)
            how = plan["how"]
            if how in ("symlink", "hardlink"):
                q = ctx.path("w", "other")
                if os.path.lexists(q):
                    os.unlink(q)
                (os.symlink if how == "symlink" else os.link)(p, q)
                if plan["infile"]:
                    p, q = q, p
            if how == "stdin":
                stdin = ("file", p)
            else:
                argv += ["-i", p]
            argv += ["-o", q]
        else:
            if plan["infile"]:
                argv += ["-i", ctx.write("w/in", data)]
            else:
                stdin = data
            if out == "file":
                p = ctx.path("w", "out")
                argv += ["-o", p]
                if old is not None:
                    ctx.write("w/out", old)
                else:
                    try:
                        os.unlink(p)
                    except OSError:
                        pass
        sout = ("file", ctx.path("w", "out")) if out == "stdout" else ("capture",)
        s = ctx.sim({"entropy": plan["entropy"], "bufsize": plan["bufsize"]})
        s.world["http"] = http
        r = ctx.cli(
            argv + args, home, sim=s, name=name, stdin=stdin, stdout=sout, faults=faults,
            seg=plan["seg"], unbuffered=plan["unbuffered"], passwords=[pw] if pw and bad != "prompt-eof" else (), line=line, near=plan["near"],
        )
        if out == "capture":
            return r, r.out
        # what the destination's name leads to; another name may keep the old file
        return r, ctx.read("w/out" if not same else os.path.relpath(q, ctx.dir))

    ctx.write("w/.keep", b"")
    r, blob = once((), "dry", 0 if "line" in plan else None)
    if bad:
        if r.code != 0:
            ctx.trivial = False
            ctx.probes["early"] += 1
            if blob != old and not (old is None and not blob):
                ctx.violate("early-damage", "encrypt fails on %r but the destination changed from %s to %s" % (bad, short(old), short(blob)))
        return
    if r.code != 0:
        if same:
            # a refusal is allowed as long as it does no harm
            if blob != data:
                ctx.violate("destroyed", "encrypting a file onto itself fails and leaves %s of %s" % (short(blob), short(data)))
        return
    if same:
        ctx.trivial = False
        got = ctx.judge(blob, [recips[0]], plan["armored"], pw if recips[0][0] == "pw" else None)
        if got != data:
            return ctx.violate("self-encryption", "a file encrypted onto itself decrypts to %s, it held %s" % (short(got), short(data)))
    if "line" in plan:
        r, blob = once((), "f", r.sim.pick_line(*plan["line"]))
        ctx.probes["line-interrupt"] += 1
        if r.code != 0:
            ctx.probes["interrupted:%s" % r.sim.atline.split(":")[0]] += 1
        faults = ()
    elif not plan["faults"]:
        return
    else:
        faults = world.resolve(plan["faults"], r.events)
        if not faults:
            return
        r, blob = once(faults, "f")
    if not r.fired or (r.code == 0):
        return
    ctx.trivial = False
    ctx.probes["killed" if r.crashed else "failed"] += 1
    dest = "w/out"
    # was the fault one of gathering recipients, passphrase or input?
    _, kind, target = [e for e in r.events if e[0] == r.fired[0][0]][0] if faults else (0, "line", r.sim.atline)
    early = kind in EARLY and not (
        kind == "open" and target.startswith(dest + ":") and any(c in target.rsplit(":", 1)[1] for c in "wax+")
    )
    early = early and not (kind == "open" and faults[0].get("when") == "after")
    early = early and not r.fired[0][1].endswith("interrupt-after")
    before = data if same else old
    if early and out == "file":
        ctx.probes["early"] += 1
        if blob != before and not (before is None and not blob):
            return ctx.violate(
                "early-damage", "%s at %s %s: the destination changed from %s to %s" % (r.fired[0][1], kind, target, short(before), short(blob))
            )
    if blob is None or (before is not None and blob == before):
        return
    for got in judge_all(ctx, blob, recips, plan["armored"]):
        if got != data:
            return ctx.violate(
                "passes-for-file", "after %s the leftover (%d bytes) decrypts to %s, the input was %s"
                % ([w for _, w in r.fired], len(blob), short(got), short(data))
            )


EXC = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "GeneratorExit": GeneratorExit}


def run_lib(plan, ctx):
    data = payload(plan["data"])
    recips = [d for d in plan["recips"] if d[0] != "pw"] or [["age", 1]]
    n = plan["pieces"]
    step = len(data) // n + 1
    pieces = [data[i : i + step] for i in range(0, len(data), step)] or [b""]
    stop = min(plan["raise_after"], len(pieces))

    def once(faults, name):
        st = {}

        def fn(lib, p):
            dev = st["dev"] = seams.Dev("sink")
            sink = seams.SimOut(p, "sink", dev=dev)
            out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if plan["armored"] else sink
            st["raised"] = False
            try:
                with lib.Encryptor([lib_pub(lib, d) for d in recips], out) as e:
                    for i, piece in enumerate(pieces):
                        if i == stop:
                            break
                        e.write(piece)
                    st["raised"] = True
                    raise EXC[plan["exc"]]("from the caller")
            except (ValueError, OSError, KeyboardInterrupt, GeneratorExit):
                pass
            finally:
                e = None
                if plan["armored"]:
                    try:
                        out.close()
                    except (ValueError, OSError):
                        pass
            del e
            gc.collect()

        ctx.library(fn, {"entropy": plan["entropy"]}, faults=faults, seg=plan["seg"], name=name)
        return st

    st = once((), "dry")
    if plan["faults"]:
        faults = world.resolve(plan["faults"], ctx.last.events)
        st = once(faults, "f")
    ctx.trivial = False
    if "dev" not in st:
        return
    blob = bytes(st["dev"].data)
    whole = b"".join(pieces[:stop])
    for got in judge_all(ctx, blob, recips[:1], plan["armored"]):
        if got != data or whole != data:
            return ctx.violate(
                "passes-for-file", "the with-block raised after %d of %d bytes, yet the sink decrypts to %s" % (len(whole), len(data), short(got))
            )
