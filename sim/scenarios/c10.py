"""C10 - concurrent and earlier sessions in one process do not affect each other."""

import gc
import io
import os
import random
import signal
import socket
import sys

from .. import damage, kernel, refage, seams, world
from ..world import key, lib_priv, lib_pub, payload, short

PW = "the one passphrase"


def gen_session(r, big):
    k = r.choice(["enc", "enc", "enc", "dec", "dec", "dec", "cli-enc", "cli-enc", "cli-dec", "cli-dec", "cli-gen"])
    s = {"k": k, "data": {"n": r.choice([0, 1, 50, 100, 1000] + ([65536, 70000] if big else [])), "s": r.randrange(1 << 20)}}
    if k == "cli-gen":
        return s
    recips = world.gen_recips(r, 3, pw=False)
    if r.random() < 0.5:
        # few keys, so that sessions share them
        recips = [r.choice([["age", 1], ["age", 2], ["rsa", 0], ["ed", 0], ["ed", 1]]) for _ in range(r.choice([1, 1, 2, 3]))]
        recips = [d for i, d in enumerate(recips) if d not in recips[:i]]
    if r.random() < 0.2:
        recips.append(["pw", PW])
    s["recips"] = recips
    s["armored"] = r.random() < 0.3
    if k.endswith("enc"):
        s["pieces"] = r.choice([1, 2, 5])
        s["fail"] = r.choice([None] * 6 + ["sink", "abort"]) if k == "enc" else r.choice([None] * 6 + ["sink", "bad"])
        s["nth"] = r.choice([1, 2, 3, 4])
    else:
        who = r.choice(recips)
        ids = [who]
        for _ in range(r.choice([0, 0, 1, 3])):
            ids.append(r.choice([["age", r.randrange(40)], ["rsa", r.randrange(6)], ["ed", r.randrange(8)]]))
        r.shuffle(ids)
        s["ids"] = ids
        s["damage"] = damage.gen(r) if r.random() < 0.3 else None
        s["unknown"] = r.random() < 0.3
        s["upos"] = r.choice([0, 1, 9])
        s["reads"] = r.choice([1, 3])
        if r.random() < 0.15:
            s["ids"] = [["age", 60]]
        if k == "dec" and r.random() < 0.15:
            # passphrases; the same file is tried by several sessions
            s.update(recips=[["pw", PW]], share=r.randrange(2), damage=None, ids=[["pw", r.choice([PW, PW, "wrong", "wronger"])]])
            if r.random() < 0.3:
                s["ids"].append(["age", 1])
            s["data"] = {"n": 50, "s": s["share"]}
    return s


def gen(r, tier):
    mode = r.choice(["threads", "threads", "threads", "seq"])
    n = r.choice([2, 2, 2, 3, 3, 4]) if mode == "threads" else r.choice([2, 3, 4, 6, 8])
    plan = {
        "mode": mode,
        "sessions": [gen_session(r, mode == "seq") for _ in range(n)],
        "share": r.random() < 0.7,
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
        "faults": [],
    }
    if r.random() < 0.3:
        # the same thing several times at once
        plan["sessions"] = [dict(plan["sessions"][0], data={"n": 100 + i, "s": i}) if i else plan["sessions"][0] for i in range(n)]
    if r.random() < 0.1:
        # one stored file, wrong and right passphrases
        one = dict(gen_session(r, False), k="dec")
        for a in ("fail", "nth", "pieces"):
            one.pop(a, None)
        recips = [["pw", PW]] if r.random() < 0.6 else [["pw", "other"], ["pw", PW], ["age", 3]]
        one.update(recips=recips, armored=False, damage=None, unknown=False, reads=1, share=0, data={"n": 50, "s": 0})
        plan["sessions"] = [dict(one, ids=r.choice([[["pw", PW]], [["pw", "wrong"]], [["pw", "wronger"]], [["pw", "wrong"], ["pw", PW]], [["age", 3], ["pw", "wrong"]]])) for _ in range(n)]
    if mode == "seq" and r.random() < 0.5:
        # the files a session reads have the same names as those of earlier sessions, not the same content
        plan["swap"] = True
        for x in plan["sessions"]:
            if x["k"] in ("enc", "dec") and x.get("share") is None and r.random() < 0.7:
                x["k"] = "cli-" + x["k"]
                if x.get("fail") == "abort":
                    x["fail"] = None
            x["via"] = r.choice(["args", "alias", "alias", "file", "url"])
            if r.random() < 0.5 and "recips" in x and x.get("share") is None and not any(d[0] == "pw" for d in x["recips"]):
                few = [["age", 1], ["age", 2], ["rsa", 0], ["rsa", 1], ["ed", 0], ["ed", 1]]
                x["recips"] = r.sample(few, r.choice([1, 1, 2]))
                if x["k"].endswith("dec"):
                    x["ids"] = r.sample(few, r.choice([1, 1, 2, 3]))
    if mode == "threads":
        plan["sched"] = {
            "seed": r.randrange(1 << 30),
            "p_io": r.choice([0.0, 0.1, 0.5, 1.0]),
            "p_line": r.choice([0.001, 0.003, 0.01, 0.03, 0.1, 0.4]),
        }
        plan["opcodes"] = r.random() < 0.15
    elif r.random() < 0.5:
        plan["faults"] = [
            {"on": r.choice(["entropy", "kdf", "read", "write"]), "nth": r.choice([1, 2, 3, 5, 8, 13, 30]), "do": r.choice(["err", "err", "int", "alloc"]), "errno": 5}
        ]
    return plan


class Session:
    def __init__(self, i, s, plan, ctx, home):
        self.i, self.s, self.plan, self.ctx = i, s, plan, ctx
        self.data = payload(s["data"])
        self.dev = None
        self.want = None  # bytes, or None if it must fail
        k = s["k"]
        if k.endswith("dec"):
            extra = [(s["upos"], ("later", ["x"], refage.b64(bytes(20))))] if s["unknown"] else []
            seed = (plan["entropy"], i) if s.get("share") is None else (plan["entropy"], "file", s["share"])
            raw = world.ref_blob(s["recips"], self.data, seed, extra=extra)
            good = refage.parse(raw)
            if s["damage"]:
                other = world.ref_blob(s["recips"], b"other", (plan["entropy"], i, "o"))
                raw = damage.apply(raw, s["damage"], other)
            # SSH identities are found in the common home directory
            ids = s["ids"] + (home if k == "cli-dec" and not plan.get("swap") else [])
            open_ = any(d in s["recips"] for d in ids)
            self.either = False
            if not open_:
                self.want = None
            elif s["damage"] and not refage.same_content(refage.parse(raw), good):
                self.want = None
            else:
                self.want = self.data
                self.either = bool(s["damage"])
            self.blob = refage.armor(raw) if s["armored"] else raw
            self.keyfile = None
            if k == "cli-dec" and not plan.get("swap"):
                text = "".join(key(d).keyfile() for d in s["ids"] if d[0] == "age")
                self.keyfile = ctx.write("w/keys%d.txt" % i, text)

    def keys(self, lib, shared, descs, fn, tag):
        if not self.plan["share"]:
            return [fn(lib, d) for d in descs]
        out = []
        for d in descs:
            if (tag, repr(d)) not in shared:
                shared[tag, repr(d)] = fn(lib, d)
            out.append(shared[tag, repr(d)])
        return out

    def run(self, lib, p, shared):
        return getattr(self, "do_" + self.s["k"].replace("-", "_"))(lib, p, shared)

    def sink(self, p):
        self.dev = seams.Dev("sink%d" % self.i)
        raw = seams.SimOut(p, "sink%d" % self.i, dev=self.dev)
        if self.s.get("fail") == "sink":
            p.dyn.append([{"on": "write", "target": "sink%d" % self.i, "nth": self.s["nth"], "do": "err", "errno": 28, "sticky": True}, 0])
        return raw

    def do_enc(self, lib, p, shared):
        s = self.s
        sink = self.sink(p)
        out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if s["armored"] else sink
        e = None
        try:
            with lib.Encryptor(self.keys(lib, shared, s["recips"], lib_pub, "pub"), out) as e:
                step = len(self.data) // s["pieces"] + 1
                for j, a in enumerate(range(0, len(self.data), step)):
                    if s["fail"] == "abort" and j == s["nth"] - 1:
                        raise LookupError("from the caller")
                    e.write(self.data[a : a + step])
                if s["fail"] == "abort":
                    raise LookupError("from the caller")
            if s["armored"]:
                out.close()
        finally:
            del e

    def do_dec(self, lib, p, shared):
        src = seams.SimIn(p, "source%d" % self.i, data=self.blob)
        src = io.BufferedReader(src, 4096)
        if self.s["armored"]:
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        with lib.Decryptor(self.keys(lib, shared, self.s["ids"], lib_priv, "priv"), src) as d:
            if self.s["reads"] == 1:
                return d.read()
            out = []
            while True:
                x = d.read(len(self.data) // 2 + 1)
                if not x:
                    return b"".join(out)
                out.append(x)

    def do_cli_enc(self, lib, p, shared):
        s = self.s
        args, pw = world.split_recips(s["recips"])
        if self.plan.get("swap"):
            args = self.named(args)
        if s["fail"] == "bad":
            args.append("nosuchrecipient")
        out = io.BufferedWriter(self.sink(p), 4096)
        try:
            lib.cli.encrypt(recipients=args, infile=io.BytesIO(self.data), outfile=out, ask_password=pw is not None, ascii_armored=s["armored"])
            if not out.closed:
                out.flush()
        finally:
            try:
                out.close()
            except OSError:
                pass

    def named(self, args):
        """The same recipients, by a name that meant something else before."""
        via = self.s["via"]
        if not args or via == "args":
            return args
        if via == "alias":
            self.ctx.write("home/.config/age/aliases.txt", "team: " + " ".join(a for a in args if " " not in a) + "\n")
            return ["team"] * any(" " not in a for a in args) + [a for a in args if " " in a]
        body = "".join(a + "\n" for a in args).encode()
        if via == "file":
            return [self.ctx.write("w/recipients.txt", body)]
        head = b"HTTP/1.1 200 OK\r\nContent-Type: text/plain; charset=utf-8\r\nETag: \"x\"\r\nContent-Length: %d\r\n\r\n" % len(body)
        kernel.SIM.world["http"] = {"https://keys.example/team": {"wire": head + body}}
        return ["https://keys.example/team"]

    def place(self):
        """Only this session's identities are on the disk now."""
        ctx = self.ctx
        for n in ("home/.ssh/id_a", "home/.ssh/id_b", "home/.ssh/id_c", "home/.ssh/id_d"):
            try:
                seams.REAL_UNLINK(ctx.path(n))
            except OSError:
                pass
        ages = [key(d).keyfile() for d in self.s["ids"] if d[0] == "age"]
        ctx.write("home/.config/age/keys.txt", "".join(ages[::2]))
        self.keyfile = ctx.write("w/keys.txt", "".join(ages[1::2]))
        for n, d in zip("abcd", [d for d in self.s["ids"] if d[0] in ("rsa", "ed")]):
            ctx.write("home/.ssh/id_" + n, key(d).priv, 0o600)

    def do_cli_dec(self, lib, p, shared):
        if self.plan.get("swap"):
            self.place()
        out = io.BytesIO()
        pw = [d for d in self.s["ids"] if d[0] == "pw"]
        lib.cli.decrypt(infile=io.BytesIO(self.blob), outfile=out, ask_password=bool(pw), keyfiles=[self.keyfile], ascii_armored=self.s["armored"])
        return out.getvalue()

    def do_cli_gen(self, lib, p, shared):
        path = self.ctx.path("w", "gen%d" % self.i)
        with open(path, "w") as f:
            lib.cli.generate(outfile=f)

    # -- judgement

    def check(self, res, hurt):
        st, v = res
        s, ctx, k = self.s, self.ctx, self.s["k"]
        who = "session %d (%s)" % (self.i, k)
        if k == "cli-gen":
            if st != "ok":
                if not hurt:
                    ctx.violate("fails-with-others", "%s fails: %s" % (who, v))
                return
            text = (ctx.read("w/gen%d" % self.i) or b"").decode("utf-8", "replace")
            privs = [x.strip() for x in text.split("\n") if x.upper().startswith("AGE-SECRET-KEY-")]
            sec = refage.unbech32(privs[0])[1] if len(privs) == 1 else None
            if not sec or refage.Age(sec).pub not in text:
                ctx.violate("mixed-up", "%s stored a damaged key pair" % who)
            return
        if k.endswith("dec"):
            if st == "ok":
                if self.want is None:
                    ctx.violate("opens-with-others", "%s must fail, it returns %s" % (who, short(v)))
                elif v != self.want:
                    ctx.violate("mixed-up", "%s returns %s instead of %s" % (who, short(v), short(self.want)))
                else:
                    ctx.probes["decrypted"] += 1
            elif self.want is not None and not self.either and not hurt:
                ctx.violate("fails-with-others", "%s fails: %s" % (who, v))
            else:
                ctx.probes["decrypt-failed"] += 1
            return
        out = bytes(self.dev.data) if self.dev else b""
        raw = refage.dearmor(out) if s["armored"] else out
        if st == "ok":
            if s["fail"] in ("abort", "bad"):
                return ctx.violate("failure-lost", "%s must fail, it succeeds" % who)
            p = refage.parse(raw) if raw else None
            if p is None:
                return ctx.violate("mixed-up", "%s wrote no age file" % who)
            if len(p.stanzas) != len(s["recips"]):
                return ctx.violate("mixed-up", "%s has %d recipients, named were %d" % (who, len(p.stanzas), len(s["recips"])))
            for d in s["recips"]:
                got = refage.decrypt(raw, [key(d)], world.kdf, legacy_empty=False)
                if got != self.data:
                    return ctx.violate("mixed-up", "%s: %r gets %s instead of %s" % (who, d, short(got), short(self.data)))
            ctx.probes["encrypted"] += 1
            return
        if s["fail"] is None and not hurt:
            return ctx.violate("fails-with-others", "%s fails: %s" % (who, v))
        ctx.probes["encrypt-failed"] += 1
        got = refage.decrypt(raw, [key(s["recips"][0])], world.kdf, legacy_empty=False) if raw else None
        if got is not None and got != self.data:
            ctx.violate("mixed-up", "%s failed, its output opens to %s" % (who, short(got)))


def process_state():
    """What the sessions of one process share besides the package."""
    um = os.umask(0)
    os.umask(um)
    return [
        ("standard input", sys.stdin), ("standard output", sys.stdout), ("standard error", sys.stderr), ("the umask", um),
        ("the working directory", os.getcwd()), ("the environment", dict(os.environ)), ("sys.argv", list(sys.argv)),
        ("a signal handler", [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP, signal.SIGALRM)]),
        ("the socket timeout", socket.getdefaulttimeout()), ("the recursion limit", sys.getrecursionlimit()),
        ("garbage collection", gc.isenabled()), ("an exception hook", sys.excepthook),
    ]


class State:
    """The process is afterwards as it was before."""

    def __init__(self, ctx):
        self.ctx = ctx

    def before(self, lib, p):
        self.was = process_state()
        return {}

    def after(self):
        for (what, a), (_, b) in zip(self.was, process_state()):
            if a is not b and (isinstance(a, io.IOBase) or a != b):
                self.ctx.violate("process-state", "the sessions leave %s changed" % what)
                return


def run(plan, ctx):
    ctx.write("w/.keep", b"")
    ssh = []
    for x in plan["sessions"]:
        if x["k"] == "cli-dec" and not plan.get("swap"):
            ssh += [d for d in x["ids"] if d[0] in ("rsa", "ed") and d not in ssh]
    sessions = [Session(i, s, plan, ctx, ssh) for i, s in enumerate(plan["sessions"])]
    ctx.home("home", ssh)
    s = ctx.sim({"entropy": plan["entropy"], "hashseed": plan["hashseed"], "sched": plan.get("sched")})
    pws = [PW]
    ctx.trivial = len(sessions) < 2
    state = State(ctx)
    if plan["mode"] == "threads":
        res = ctx.threads([x.run for x in sessions], sim=s, opcodes=plan["opcodes"], setup=state.before, done=state.after, passwords=pws)
        for x, r in zip(sessions, res):
            if ctx.violations:
                return
            x.check(r, False)
            if ctx.violations:
                return
        return
    res = []
    hurt = []

    def fn(lib, p):
        shared = state.before(lib, p)
        for f in plan["faults"]:
            p.dyn.append([f, 0])
        for x in sessions:
            before = len(p.fired)
            try:
                res.append(("ok", x.run(lib, p, shared)))
            except (kernel.SimCrash, kernel.StepCap):
                raise
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                e.__traceback__ = None
                e.__context__ = e.__cause__ = None
                res.append(("error", "%s: %s" % (type(e).__name__, e)))
                del e
            gc.collect()
            own = [w for _, w in p.fired[before:] if not (x.s.get("fail") == "sink" and w == "write:ENOSPC")]
            hurt.append(bool(own))
        state.after()

    ctx.library(fn, sim=s, passwords=pws)
    for x, r, h in zip(sessions, res, hurt):
        x.check(r, h)
        if ctx.violations:
            return


_ = (os, random)
