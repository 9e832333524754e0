"""C01 - encrypt then decrypt returns the exact bytes, however I/O is segmented."""

import io
import random

from .. import kernel, proc, refage, seams, world
from ..world import key, lib_priv, lib_pub, payload, short


def gen(r, tier):
    mode = r.choice(["cli", "cli", "pipe", "pipe", "lib", "lib", "lib"])
    plan = {
        "mode": mode,
        "data": world.gen_data(r, 0.4),
        "recips": world.gen_recips(r, 4),
        "armored": r.random() < 0.4,
        "who": r.random(),
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 16, 100, 4096, 65536, 1 << 20]),
        "eseg": gen_seg(r),
        "dseg": gen_seg(r),
        "unbuffered": r.random() < 0.3,
        "hashseed": r.randrange(1 << 16),
    }
    if r.random() < 0.012:
        plan["recips"] = world.gen_crowd(r)
    n = plan["data"]["n"]
    if mode == "cli":
        plan["einfile"] = r.random() < 0.5
        plan["eout"] = r.choice(["file", "capture", "stdout"])
        plan["dinfile"] = r.random() < 0.5
        plan["dout"] = r.choice(["file", "capture", "stdout"])
        plan["names"] = [r.choice(NAMES) for _ in range(4)]
    elif mode == "pipe":
        plan["cap"] = r.choice([1, 2, 15, 16, 100, 4096, 4096, 65536, 65536, 1 << 20])
        plan["infile"] = r.random() < 0.4
        plan["outfile"] = r.random() < 0.4
        plan["incap"] = r.choice([1, 16, 4096, 65536])
        plan["sched"] = {"seed": r.randrange(1 << 30), "p_io": r.choice([0.0, 0.1, 0.5, 0.9])}
        small = min(plan["cap"], plan["incap"])
        if small < 64 and n > 1500:
            plan["data"]["n"] = n % 1500
        elif small < 4096 and n > 40000:
            plan["data"]["n"] = n % 40000
    else:
        plan["writes"] = gen_writes(r)
        plan["reads"] = gen_reads(r)
        plan["sink"] = r.choice(["raw", "raw", "buffered", "bytesio", "file", "rawfile"])
        plan["source"] = r.choice(["raw", "raw", "buffered", "bytesio", "file", "rawfile"])
        plan["how"] = r.choice(["with", "close", "buffered"])
        plan["prefix"] = r.choice([0] * 5 + [1, 100, 5000])
        plan["keycoll"] = r.choice(["list", "tuple", "set"])
    n = plan["data"]["n"]
    for k in ("eseg", "dseg"):
        for d in ("read", "write"):
            v = plan[k].get(d)
            if isinstance(v, int) and n // max(v, 1) > 4000:
                plan[k][d] = "rand"
    if plan["bufsize"] in (16, 100) and n > 20000:
        plan["bufsize"] = None
    if r.random() < (0.002 if tier == "quick" else 0.001):
        # more chunks than fit into one byte of the counter
        plan["data"]["n"] = 65536 * r.choice([255, 256, 257, 258]) + r.choice([0, 1, 777])
        plan.update(bufsize=None, eseg={"seed": 0}, dseg={"seed": 0}, unbuffered=False, armored=plan["armored"] and r.random() < 0.5)
        if mode == "pipe":
            plan.update(cap=1 << 20, incap=1 << 20)
        elif mode == "lib":
            plan.update(writes={"k": "one", "seed": 0, "reuse": False, "view": False}, reads=["all"])
    return plan


NAMES = ["", "", ".age", ".asc", ".txt", ".pem", ".gz", ".tar.gz", " with a blank", "\u00fcml\u00e4ut", ".tmp", "~", "%s", "$HOME", ".part", ".bak", "x" * 200, ".AGE", ".key", ".json", "\udcff"]


def gen_seg(r):
    return {
        "read": r.choice([None, None, "rand", "rand", 1, 7, 16, 17, 1000, 4096, 65536]),
        "write": r.choice([None, None, None, "rand", "rand", 1, 16, 1000, 4096]),
        "seed": r.randrange(1 << 20),
    }


def gen_writes(r):
    """How the caller splits its writes."""
    k = r.choice(["one", "even", "random", "bytes", "edges", "empty", "lines"])
    return {"k": k, "seed": r.randrange(1 << 20), "reuse": r.random() < 0.35, "view": r.random() < 0.25}


def gen_reads(r):
    return r.choice([["all"], ["all"], ["rand", r.randrange(1 << 20)], ["fixed", r.choice([1, 16, 1000, 65536, 65537])], ["into", r.choice([7, 100, 65536])], ["lines"], ["mixed", r.randrange(1 << 20)]])


def split(data, w):
    r = random.Random(w["seed"])
    n = len(data)
    k = w["k"]
    if k == "one":
        cuts = []
    elif k == "even":
        step = max(1, n // r.choice([2, 3, 7, 20]) + 1)
        cuts = list(range(step, n, step))
    elif k == "random":
        cuts = sorted(r.randrange(n + 1) for _ in range(r.randrange(1, 12)))
    elif k == "bytes":
        cuts = list(range(1, min(n, 200)))
    elif k == "edges":
        cuts = sorted(c for c in (65535, 65536, 65537, 131071, 131072, 131073) if c <= n)
    elif k == "empty":
        c = n // 2
        cuts = [0, 0, c, c, c]
    else:
        cuts = [i + 1 for i, b in enumerate(data[:4000]) if b == 10]
    out = []
    last = 0
    for c in cuts + [n]:
        out.append(data[last:c])
        last = c
    return out


def pick(plan):
    rec = plan["recips"]
    return rec[min(int(plan["who"] * len(rec)), len(rec) - 1)]


def run(plan, ctx):
    data = payload(plan["data"])
    for k in ("eseg", "dseg"):
        if any(plan[k].get(d) for d in ("read", "write")):
            ctx.trivial = False
    ctx.write("w/.keep", b"")
    {"cli": run_cli, "pipe": run_pipe, "lib": run_lib}[plan["mode"]](plan, ctx, data)


def simplan(plan, **kw):
    d = {"entropy": plan["entropy"], "bufsize": plan["bufsize"], "hashseed": plan["hashseed"]}
    d.update(kw)
    return d


def run_cli(plan, ctx, data):
    recips = plan["recips"]
    args, pw = world.split_recips(recips)
    who = pick(plan)
    h1 = ctx.home("h1")
    h2 = ctx.home("h2", [who])
    arm = ["-a"] if plan["armored"] else []

    def once(cmd, infile, out, source, home, rest, pwd, seg, name):
        names = plan["names"][:2] if name == "enc" else plan["names"][2:]
        argv = [cmd] + arm + (["-p"] if pwd else [])
        stdin = b""
        if infile:
            argv += ["-i", ctx.write("w/i" + names[0], source)]
        else:
            stdin = source
        sout = ("capture",)
        dest = "w/o" + names[1]
        if out == "file":
            argv += ["-o", ctx.path(dest)]
        elif out == "stdout":
            sout = ("file", ctx.path(dest))
        r = ctx.cli(
            argv + rest, home, simplan(plan), name=name, stdin=stdin, stdout=sout, seg=seg,
            unbuffered=plan["unbuffered"], passwords=[pwd] if pwd else (), near=plan["near"],
        )
        return r, (r.out if out == "capture" else ctx.read(dest))

    r, blob = once("encrypt", plan["einfile"], plan["eout"], data, h1, args, pw, plan["eseg"], "enc")
    if r.code != 0:
        return ctx.violate("encrypt-fails", "encrypt exits with %r: %s" % (r.code, r.exc))
    pwd = who[1] if who[0] == "pw" else None
    r, got = once("decrypt", plan["dinfile"], plan["dout"], blob, h2, [], pwd, plan["dseg"], "dec")
    if r.code != 0:
        return ctx.violate("decrypt-fails", "decrypt exits with %r: %s" % (r.code, r.exc))
    if got != data:
        ctx.violate("wrong-bytes", "decrypted %s, encrypted %s" % (short(got), short(data)))


def run_pipe(plan, ctx, data):
    """producer | age encrypt | age decrypt, all running at once."""
    ctx.trivial = False
    recips = plan["recips"]
    args, pw = world.split_recips(recips)
    who = pick(plan)
    h1 = ctx.home("h1")
    h2 = ctx.home("h2", [who])
    arm = ["-a"] if plan["armored"] else []
    s = ctx.sim(simplan(plan, sched=plan["sched"]))
    mid = seams.Pipe("mid", plan["cap"])
    ctx.nprocs += 2
    a1 = ["encrypt"] + arm + (["-p"] if pw else [])
    stdin = b""
    feeder = None
    if plan["infile"]:
        a1 += ["-i", ctx.write("w/plain", data)]
    else:
        feed = seams.Pipe("feed", plan["incap"])
        stdin = ("pipe", feed)
        fp = s.proc("feeder", h1)
        proc.open_std(fp, proc.Std(b"", ("pipe", feed)))
        ctx.nprocs += 1

        def write():
            import sys

            rr = random.Random(plan["entropy"])
            pos = 0
            while pos < len(data):
                k = rr.choice([1, 100, 5000, 70000])
                sys.stdout.buffer.write(data[pos : pos + k])
                pos += k
                if rr.random() < 0.3:
                    sys.stdout.buffer.flush()

        feeder = (fp, write)
    p1 = s.proc("enc", h1, seg=plan["eseg"], unbuffered=plan["unbuffered"], passwords=[pw] if pw else ())
    proc.open_std(p1, proc.Std(stdin, ("pipe", mid)))
    pwd = who[1] if who[0] == "pw" else None
    p2 = s.proc("dec", h2, seg=plan["dseg"], unbuffered=plan["unbuffered"], passwords=[pwd] if pwd else ())
    a2 = ["decrypt"] + arm + (["-p"] if pwd else [])
    if plan["outfile"]:
        a2 += ["-o", ctx.path("w", "out")]
    proc.open_std(p2, proc.Std(("pipe", mid), ("capture",)))
    if feeder:
        s.spawn("feeder", lambda: proc.interpret(feeder[0], feeder[1]), feeder[0])
    s.spawn("enc", proc.cli(p1, a1 + args), p1)
    s.spawn("dec", proc.cli(p2, a2), p2)
    s.run()
    if s.deadlock:
        return ctx.violate("no-progress", "encrypt | decrypt through a pipe of %d bytes blocks forever" % plan["cap"])
    if s.capped:
        return ctx.violate("no-progress", "encrypt | decrypt does not finish")
    if p1.code != 0 or p2.code != 0:
        return ctx.violate("pipe-fails", "encrypt exits %r, decrypt exits %r" % (p1.code, p2.code))
    got = ctx.read("w/out") if plan["outfile"] else bytes(p2.out.data)
    if got is None and not data:
        got = b""
    if got != data:
        ctx.violate("wrong-bytes", "pipeline delivered %s, input was %s" % (short(got), short(data)))


def sink_of(kind, p, dev, path, bufsize):
    if kind == "raw":
        return seams.SimOut(p, "sink", dev=dev)
    if kind == "buffered":
        return io.BufferedWriter(seams.SimOut(p, "sink", dev=dev), bufsize or 8192)
    if kind == "bytesio":
        b = io.BytesIO()
        b.close = lambda: None
        return b
    if kind == "file":
        return open(path, "wb")
    return open(path, "wb", buffering=0)


def source_of(kind, p, data, path, bufsize):
    if kind == "raw":
        return seams.SimIn(p, "source", data=data)
    if kind == "buffered":
        return io.BufferedReader(seams.SimIn(p, "source", data=data), bufsize or 8192)
    if kind == "bytesio":
        return io.BytesIO(data)
    return open(path, "rb") if kind == "file" else open(path, "rb", buffering=0)


def seams_write_all(sink, data):
    while data:
        data = data[sink.write(data) :]


def mixed(d, rr, n):
    """Every way of asking a stream for bytes."""
    parts = []
    while True:
        how = rr.choice(["zero", "some", "some", "some", "line", "rest"] if n < 3000 else ["zero", "some", "big", "big", "rest"])
        if how == "zero":
            if d.read(0) != b"":
                raise AssertionError("read(0) returns data")
            continue
        if how == "line":
            x = d.readline(rr.choice([-1, 1, 50]))
        elif how == "rest":
            if rr.random() < 0.7:
                continue
            x = rr.choice([lambda: d.read(-1), lambda: d.read()])()
        else:
            x = d.read(rr.choice([1, 2, 16, 100, 4096]) if how == "some" else rr.choice([5000, 65535, 65536, 200000]))
        parts.append(x)
        if not x:
            return b"".join(parts)


def run_lib(plan, ctx, data):
    recips = plan["recips"]
    who = pick(plan)
    path = ctx.path("w", "sink")
    if plan["writes"]["k"] != "one" or plan["reads"][0] != "all":
        ctx.trivial = False
    coll = {"list": list, "tuple": tuple, "set": set}[plan["keycoll"]]

    def enc(lib, p):
        dev = seams.Dev("sink")
        sink = sink_of(plan["sink"], p, dev, path, plan["bufsize"])
        keys = coll(lib_pub(lib, d) for d in recips)
        out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if plan["armored"] else sink
        w = plan["writes"]
        buf = bytearray()

        def write(e, piece):
            if w["reuse"]:
                # the caller reuses one buffer for all its writes
                if len(buf) < len(piece):
                    buf.extend(bytes(len(piece) - len(buf)))
                buf[: len(piece)] = piece
                n = e.write(memoryview(buf)[: len(piece)] if w["view"] else buf[: len(piece)])
                for i in range(0, len(buf), 997):
                    buf[i] = 0xEE
            else:
                n = e.write(memoryview(piece) if w["view"] else piece)
            if n != len(piece):
                raise AssertionError("write accepted %r of %d bytes" % (n, len(piece)))

        if plan["prefix"] and not plan["armored"]:
            # the age file is only a part of what the stream carries
            seams_write_all(sink, bytes(plan["prefix"]))
        if plan["how"] == "buffered":
            with io.BufferedWriter(lib.Encryptor(keys, out), 1000) as e:
                for piece in split(data, w):
                    write(e, piece)
        elif plan["how"] == "with":
            with lib.Encryptor(keys, out) as e:
                for piece in split(data, w):
                    write(e, piece)
        else:
            e = lib.Encryptor(keys, out)
            for piece in split(data, w):
                write(e, piece)
            e.close()
        if plan["armored"]:
            out.close()
        if plan["sink"] == "bytesio":
            return sink.getvalue()
        if not sink.closed:
            sink.flush()
            sink.close()
        if plan["sink"] in ("file", "rawfile"):
            return None
        return bytes(dev.data)

    st, blob = ctx.library(enc, simplan(plan), seg=plan["eseg"], name="enc")
    if st != "ok":
        return ctx.violate("encrypt-fails", "writing to the stream fails: %s" % blob)
    if blob is None:
        blob = ctx.read("w/sink")
    ctx.write("w/source", blob)

    def dec(lib, p):
        src = source_of(plan["source"], p, blob, ctx.path("w", "source"), plan["bufsize"])
        left = 0 if plan["armored"] else plan["prefix"]
        while left:
            left -= len(src.read(left))
        if plan["armored"]:
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        keys = coll([lib_priv(lib, who)])
        with lib.Decryptor(keys, src) as d:
            k = plan["reads"]
            if k[0] == "all":
                out = d.read()
                if d.read() != b"":
                    raise AssertionError("data after the end")
                return out
            if k[0] == "lines" and len(data) < 6000:
                return b"".join(d)
            parts = []
            rr = random.Random(str(k))
            if k[0] == "mixed":
                return mixed(d, rr, len(data))
            while True:
                if k[0] == "rand":
                    x = d.read(rr.choice([1, 5, 100, 4096, 65536, 100000]))
                elif k[0] == "fixed":
                    x = d.read(k[1] if len(data) < 2000 or k[1] > 50 else 4096)
                elif k[0] == "into":
                    x = d.read(k[1] if len(data) < 20000 else 8192)
                else:
                    x = d.read(3000)
                if not x:
                    break
                parts.append(x)
            return b"".join(parts)

    st, got = ctx.library(dec, simplan(plan), seg=plan["dseg"], name="dec")
    if st != "ok":
        return ctx.violate("decrypt-fails", "reading the stream fails: %s" % got)
    if got != data:
        ctx.violate("wrong-bytes", "read %s, written %s" % (short(got), short(data)))


_ = (kernel, refage, key)
