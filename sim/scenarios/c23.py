"""C23 - decryption streams deliver the plaintext once, streams handed in stay the caller's."""

import gc
import io
import random

from .. import damage, refage, seams, world
from ..world import key, lib_priv, lib_pub, payload, short

READS = [["read", 1], ["read", 7], ["read", 64], ["read", 1000], ["read", 4096], ["read", 8192], ["read", 65536], ["read", 200000], ["read", 0]]


def gen_read(r):
    x = r.random()
    if x < 0.35:
        return r.choice(READS)
    if x < 0.45:
        return ["read", r.randrange(0, 3000)]
    if x < 0.6:
        return ["into", r.choice([1, 5, 64, 1000, 70000])]
    if x < 0.7:
        return ["all"]
    if x < 0.75:
        return ["none"]
    if x < 0.83:
        return ["line"]
    if x < 0.87:
        return ["some"]
    if x < 0.9:
        return ["lines"]
    if x < 0.93:
        return ["next"]
    if x < 0.96:
        return ["gc"]
    return ["write"]


def gen_open(r, plan):
    f = r.randrange(len(plan["files"]))
    d = plan["files"][f]
    x = r.random()
    who = r.choice(d["recips"])
    if x < 0.7:
        ids = [who]
        for _ in range(r.choice([0, 0, 1, 2])):
            ids.append(r.choice([["age", 50 + r.randrange(8)], ["rsa", r.randrange(6)], ["ed", r.randrange(8)], ["pw", "wrong"]]))
        r.shuffle(ids)
    elif x < 0.95:
        ids = [["age", 60], ["age", 61]][: r.choice([1, 2])]
    else:
        ids = []
    s = {
        "op": r.choice(["dec", "dec", "dec", "dec", "armor-in" if d["armored"] else "dec", "cmd-dec"]),
        "file": f,
        "ids": ids,
        "wrap": r.choice([None, None, None, "buffered", "text", "bufftext"]),
        "bufsize": r.choice([1, 10, 100, 8192]),
        "reads": [gen_read(r) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))],
        "fault": None,
        "drop": r.choice(["now", "now", "later", "end", "cycle"]),
        "close": r.choice(["close", "close", "exit", "raise", "none", "none"]),
        "form": r.random() < 0.06,
        "nofiles": r.random() < 0.4,
    }
    if s["op"] == "cmd-dec":
        # the command asks for one passphrase
        pw = [i for i in ids if i[0] == "pw"]
        s["ids"] = [i for i in ids if i[0] != "pw"] + [i for i in pw if i in d["recips"]][:1] or [["age", 60]]
    if r.random() < 0.25:
        s["fault"] = {"on": "read", "nth": r.choice([1, 1, 2, 2, 3, 4, 6, 20, 50]), "do": r.choice(["err", "err", "int", "alloc"]), "errno": r.choice(world.ERRS_READ)}
        if s["fault"]["do"] != "err":
            s["fault"]["when"] = "before"
    elif r.random() < 0.07 and s["op"] != "armor-in":
        s["fault"] = {"on": "kdf", "nth": 1, "do": "alloc", "when": "before"}
    return s


def gen_enc(r):
    return {
        "op": r.choice(["enc", "enc", "cmd-enc"]),
        "recips": world.gen_recips(r, 2, pw=False),
        "data": {"n": r.choice([0, 1, 100, 3000, 65536]), "s": r.randrange(1 << 20)},
        "armored": r.random() < 0.4,
        "end": r.choice(["exit", "exit", "close", "raise"]),
        "bad": r.random() < 0.1,
        "only_pw": r.random() < 0.2,
        "wfault": {"on": "write", "nth": r.choice([1, 1, 2, 3, 4]), "do": r.choice(["err", "err", "torn", "int", "alloc"]), "errno": r.choice(world.ERRS_OUT), "frac": r.random()} if r.random() < 0.3 else None,
        "drop": r.choice(["now", "now", "later", "end", "cycle"]),
    }


def gen(r, tier):
    files = []
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice([0, 1, 20, 100, 1000, 3000, 8192, 8193, 20000] + [65535, 65536, 65537, 70000] * (r.random() < 0.4))
        files.append(
            {
                "recips": world.gen_recips(r, 2, pw=r.random() < 0.4),
                "data": {"n": n, "s": r.randrange(1 << 20), "k": r.choice(["rand", "text", "text", "hdr"])},
                "armored": r.random() < 0.45,
                "damage": damage.gen(r) if r.random() < 0.12 else None,
                "prefix": r.choice([None, None, "junk", "block", "long"]),
                "source": r.choice(["raw", "buffered", "file", "rawfile", "bytes", "small"]),
            }
        )
    plan = {
        "files": files,
        "sink": r.choice(["raw", "buffered", "file", "rawfile", "append", "rand", "slot"]),
        "seg": {
            "read": r.choice([None, None, "rand", 1, 7, 100]),
            "write": r.choice([None, None, "rand", 16, 100]),
            "seed": r.randrange(1 << 20),
        },
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
    }
    plan["ops"] = [gen_open(r, plan) if r.random() < 0.75 else gen_enc(r) for _ in range(r.choice([1, 2, 3, 3, 4, 6]))]
    return plan


TAIL = b"\xee" * (1 << 20)


class Bug(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class SeekIn(seams.SimIn):
    """A device that can be rewound."""

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        if self.closed:
            raise ValueError("seek of closed file")
        self._pos = pos if whence == 0 else self._pos + pos if whence == 1 else len(self._data) + pos
        return self._pos

    def tell(self):
        if self.closed:
            raise ValueError("tell of closed file")
        return self._pos


def clean(e):
    e.__traceback__ = None
    e.__context__ = e.__cause__ = None
    return "%s: %s" % (type(e).__name__, e)


def prefix_of(kind, seed):
    if kind is None:
        return b""
    if kind == "junk":
        return b"a line of the caller's\n\xc3\xa9 second one\n"
    if kind == "long":
        return b"x" * 9999 + b"\n"
    # a whole file that the caller has read already
    return refage.armor(world.ref_blob([["age", 60]], b"the other one", (seed, "prefix")))


class Source:
    """What the caller opened, and what is in it."""

    def __init__(self, i, d, plan, ctx):
        self.i, self.d = i, d
        data = payload(d["data"])
        raw = world.ref_blob(d["recips"], data, (plan["entropy"], i))
        good = refage.parse(raw)
        self.inner = raw
        if d["damage"]:
            other = world.ref_blob(d["recips"], b"other", (plan["entropy"], i, "o"))
            raw = damage.apply(raw, d["damage"], other)
        self.data = data
        self.same = refage.same_content(refage.parse(raw), good)
        self.intact = raw == self.inner
        self.blob = refage.armor(raw) if d["armored"] else raw
        self.raw = raw
        self.prefix = prefix_of(d["prefix"], plan["entropy"])
        self.path = ctx.write("w/source%d" % i, self.prefix + self.blob)
        self.f = None

    def open(self, p):
        k = self.d["source"]
        data = self.prefix + self.blob
        name = "source%d" % self.i
        if k == "raw":
            self.f = SeekIn(p, name, data=data)
        elif k == "buffered":
            self.f = io.BufferedReader(SeekIn(p, name, data=data), 4096)
        elif k == "small":
            self.f = io.BufferedReader(SeekIn(p, name, data=data), 7)
        elif k == "bytes":
            self.f = io.BytesIO(data)
        elif k == "rawfile":
            self.f = open(self.path, "rb", buffering=0)
        else:
            self.f = open(self.path, "rb")

    def ready(self):
        """The caller reads or skips what comes first."""
        self.f.seek(0)
        n = len(self.prefix)
        got = b""
        if self.i % 2:
            self.f.seek(n)
            return
        while len(got) < n:
            x = self.f.read(n - len(got))
            if not x:
                break
            got += x
        if got != self.prefix:
            raise Bug("source-changed", "the caller's source reads differently")


class Play:
    def __init__(self, plan, lib, p, ctx):
        self.plan, self.lib, self.p, self.ctx = plan, lib, p, ctx
        self.sources = [Source(i, d, plan, ctx) for i, d in enumerate(plan["files"])]
        for s in self.sources:
            s.open(p)
        self.dev = None
        k = plan["sink"]
        path = ctx.path("w", "sink")
        if k in ("raw", "buffered"):
            self.dev = seams.Dev("sink")
            self.sink = seams.SimOut(p, "sink", dev=self.dev)
            if k == "buffered":
                self.sink = io.BufferedWriter(self.sink, 64)
        elif k == "append":
            self.sink = open(path, "ab")
        elif k == "rand":
            self.sink = open(path, "w+b")
        elif k == "slot":
            # room was set aside; what is behind it stays
            ctx.write("w/sink", TAIL)
            self.sink = open(path, "r+b")
        else:
            self.sink = open(path, "wb", buffering=0 if k == "rawfile" else -1)
        self.parts = []  # what the sink must hold, in order
        self.old = []

    # -- the caller's streams
    def where(self):
        out = []
        for s in self.sources:
            out.append(None if s.f.closed else s.f.tell())
        out.append(None if self.sink.closed else self.size())
        return out

    def size(self):
        if self.dev is None:
            self.sink.flush()
            return self.sink.tell()
        if self.plan["sink"] == "buffered":
            self.sink.flush()
        return len(self.dev.data)

    def opened(self, what):
        for s in self.sources:
            if s.f.closed:
                raise Bug("source-closed", "%s closes the caller's source" % what)
        if self.sink.closed:
            raise Bug("sink-closed", "%s closes the caller's sink" % what)

    def still(self, what, fn, must_raise=False):
        """Something done to a finished session leaves the streams as they are."""
        before = self.where()
        err = None
        try:
            fn()
        except (Exception, KeyboardInterrupt, GeneratorExit) as e:
            if isinstance(e, Bug):
                raise
            err = clean(e)
        self.opened(what)
        after = self.where()
        if before != after:
            raise Bug("moved", "%s moves the caller's streams from %r to %r" % (what, before, after))
        return err

    def mark(self):
        m = b"[the caller's line %d]\n" % len(self.parts)
        self.put(m)
        self.parts.append(m)

    def put(self, m):
        view = memoryview(m)
        while len(view):
            n = self.sink.write(view)
            view = view[n or 0 :]

    def content(self):
        self.size()
        if self.dev is not None:
            return bytes(self.dev.data)
        return self.ctx.read("w/sink")

    # -- one history
    def run(self):
        self.mark()
        for i, op in enumerate(self.plan["ops"]):
            self.who = "session %d (%s)" % (i, op["op"])
            self.p.dyn.clear()
            self.p.sticky.clear()
            if op["op"] in ("enc", "cmd-enc"):
                self.encrypt(op)
                self.mark()
            else:
                self.decrypt(op)
            self.opened(self.who)
        while self.old:
            self.drop(self.old.pop(0))
        self.opened("the last of the sessions")
        self.check_sink()
        for s in self.sources:
            s.f.close()
        self.sink.close()

    def check_sink(self):
        got = self.content()
        pos = 0
        want = [x for x in self.parts]
        for x in want:
            if isinstance(x, bytes):
                if got[pos : pos + len(x)] != x:
                    raise Bug("sink-content", "what the caller wrote between the sessions is damaged")
                pos += len(x)
                continue
            n, op = x
            blob = got[pos : pos + n]
            pos += n
            if op is None:
                continue
            if op["armored"]:
                blob = refage.dearmor(blob) or b""
            if refage.decrypt(blob, [key(op["recips"][0])], world.kdf, legacy_empty=False) != payload(op["data"]):
                raise Bug("sink-content", "one of the files behind each other does not decrypt")
        if self.plan["sink"] == "slot":
            if got[pos:] != TAIL[pos:]:
                raise Bug("sink-content", "what lies behind the files in the caller's sink is damaged")
        elif pos != len(got):
            raise Bug("sink-content", "%d extra bytes in the caller's sink" % (len(got) - pos))

    def discard(self, op, *objs):
        objs = list(objs)
        if op["drop"] == "cycle":
            objs.append(objs)
            return self.still("discarding " + self.who, lambda: self.cycle(objs))
        self.old.append((self.who, objs))
        if op["drop"] == "now":
            self.drop(self.old.pop())
        elif op["drop"] == "later" and len(self.old) > 1:
            self.drop(self.old.pop(0))

    def cycle(self, objs):
        box = {"me": list(objs)}
        box["box"] = box
        objs.clear()
        del box
        gc.collect()

    def drop(self, ent):
        who, objs = ent

        def fn():
            objs.clear()
            gc.collect()

        self.still("discarding " + who, fn)

    # -- encryption
    def encrypt(self, op):
        lib = self.lib
        data = payload(op["data"])
        before = self.size()
        ok = False
        out = enc = None
        fired = len(self.p.fired)
        if op["wfault"] and self.plan["sink"] in ("raw", "buffered", "rawfile"):
            f = dict(op["wfault"], target="w/sink" if self.plan["sink"] == "rawfile" else "sink")
            if f["do"] in ("int", "alloc"):
                f["when"] = "before"
            self.p.dyn.append([f, 0])

        def hurt():
            return len(self.p.fired) > fired

        if op["op"] == "cmd-enc":
            args, _ = world.split_recips(op["recips"])
            more = {}
            if op["only_pw"] and not op["bad"]:
                # no recipient but a passphrase
                op = dict(op, recips=[["pw", "alone"]])
                args = None
                self.p.passwords[:] = ["alone"]
                more = {"ask_password": True}
            else:
                more = {"recipients": args}
            if op["bad"]:
                args.append("nosuchrecipient")
            src = io.BytesIO(data)
            try:
                lib.cli.encrypt(infile=src, outfile=self.sink, ascii_armored=op["armored"], **more)
                ok = True
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                err = clean(e)
                if not op["bad"] and not hurt():
                    raise Bug("outcome", "%s fails: %s" % (self.who, err))
            if src.closed:
                raise Bug("source-closed", "%s closes its input" % self.who)
            if ok == op["bad"] and not hurt():
                raise Bug("outcome", "%s: %s" % (self.who, "succeeds" if ok else "fails"))
        else:
            out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, self.sink) if op["armored"] else self.sink
            keys = [lib_pub(lib, d) for d in op["recips"]]
            if op["bad"]:
                keys.append(object())
            try:
                enc = lib.Encryptor(keys, out)
                if op["end"] == "close":
                    enc.write(data)
                    enc.close()
                else:
                    with enc:
                        enc.write(data)
                        if op["end"] == "raise":
                            raise LookupError("from the caller")
                ok = True
            except (Exception, KeyboardInterrupt) as e:
                clean(e)
            if ok != (op["end"] != "raise" and not op["bad"]) and not hurt():
                raise Bug("outcome", "%s: %s" % (self.who, "succeeds" if ok else "fails"))
            if op["armored"]:
                if out.closed:
                    raise Bug("sink-closed", "%s closes the armored stream below it" % self.who)
                try:
                    out.close()
                except (Exception, KeyboardInterrupt) as e:
                    ok = False
                    err = clean(e)
                    if not hurt():
                        raise Bug("outcome", "closing the armored stream of %s fails: %s" % (self.who, err))
        self.p.dyn.clear()
        self.p.sticky.clear()
        if hurt():
            self.ctx.probes["sink-failed"] += 1
        self.opened(self.who)
        self.ctx.probes["encrypted" if ok else "encrypt-failed"] += 1
        self.parts.append((self.size() - before, op if ok else None))
        if enc is not None:
            if out is self.sink:
                out = None
            self.still("closing %s again" % self.who, enc.close)
            self.discard(op, enc, out)
        else:
            del out
            self.still("discarding " + self.who, gc.collect)

    # -- decryption
    def expect(self, op, src):
        """("must", data), ("may", data) or ("no", None)."""
        if op["op"] == "armor-in":
            return "must", src.raw
        if op["form"]:
            return "no", None
        if not any(d in src.d["recips"] for d in op["ids"]):
            return "no", None
        if not src.same:
            return "no", None
        return ("must" if src.intact else "may"), src.data

    def decrypt(self, op):
        lib = self.lib
        src = self.sources[op["file"]]
        want, data = self.expect(op, src)
        for attempt in (1, 2):
            src.ready()
            fired = len(self.p.fired)
            if op["fault"] and attempt == 1:
                f = dict(op["fault"])
                if f["on"] == "read":
                    f["target"] = ("w/source%d" if "file" in src.d["source"] else "source%d") % src.i
                self.p.dyn.append([f, 0])
            armored = src.d["armored"] != (op["form"] and op["op"] != "armor-in")
            got, err = None, None
            pair = [None, None]
            try:
                got = self.open(op, src, armored, pair)
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                if isinstance(e, Bug):
                    raise
                err = clean(e)
                del e
            self.p.dyn.clear()
            self.p.sticky.clear()
            self.opened("opening " + self.who)
            hurt = len(self.p.fired) > fired
            if err is None:
                break
            self.ctx.probes["open-failed"] += 1
            if want == "must" and not hurt:
                raise Bug("fails", "%s, attempt %d, fails: %s" % (self.who, attempt, err))
            self.dead(pair)
            pair = [None, None]
            self.still("discarding the failed " + self.who, gc.collect)
            if not hurt:
                return
            # the fault is over: the same again, from the start
            self.ctx.probes["tried-again"] += 1
        if want == "no":
            raise Bug("opens", "%s must fail" % self.who)
        self.ctx.probes["opened"] += 1
        if op["op"] == "cmd-dec":
            if got != data:
                raise Bug("content", "%s delivers %s instead of %s" % (self.who, short(got), short(data)))
            return
        self.use(op, pair, data)

    def open(self, op, src, armored, pair):
        lib = self.lib
        if op["op"] == "cmd-dec":
            out = io.BytesIO()
            pw = [d[1] for d in op["ids"] if d[0] == "pw"]
            text = "".join(key(d).keyfile() for d in op["ids"] if d[0] == "age")
            # the identities are in the usual place or in a file that is named
            self.ctx.write("home/.config/age/keys.txt", text if op["nofiles"] else "")
            more = {} if op["nofiles"] else {"keyfiles": [self.ctx.write("w/keys.txt", text)]}
            for j, d in enumerate([["rsa", n] for n in range(10)] + [["ed", n] for n in range(8)]):
                path = self.ctx.path("home", ".ssh", "id_%02d" % j)
                if d in op["ids"]:
                    self.ctx.write("home/.ssh/id_%02d" % j, key(d).priv, 0o600)
                else:
                    try:
                        seams.REAL_UNLINK(path)
                    except OSError:
                        pass
            self.p.passwords[:] = pw
            lib.cli.decrypt(infile=src.f, outfile=out, ask_password=bool(pw), ascii_armored=armored, **more)
            if out.closed:
                raise Bug("sink-closed", "%s closes its output" % self.who)
            return out.getvalue()
        f = src.f
        if armored:
            f = pair[1] = lib.AsciiArmoredInput.__new__(lib.AsciiArmoredInput)
            f.__init__(lib.AGE_PEM_LABEL, src.f)
        if op["op"] == "armor-in":
            return None
        d = pair[0] = lib.Decryptor.__new__(lib.Decryptor)
        d.__init__([lib_priv(lib, x) for x in op["ids"]], f)
        return None

    def dead(self, pair):
        """A session that could not be opened delivers nothing."""
        d = pair[0]
        if d is None:
            return
        box = []
        for fn in (lambda: d.read(), lambda: d.read(5), lambda: d.readline(), lambda: d.readall()):
            try:
                x = fn()
            except Exception as e:
                clean(e)
            else:
                if x:
                    box.append(x)
        if box:
            raise Bug("failed-delivers", "%s failed and delivers %s" % (self.who, short(box[0])))

    def use(self, op, pair, data):
        dec, armor = pair
        top = dec if dec is not None else armor
        text = False
        if op["wrap"] == "buffered":
            top = io.BufferedReader(top, op["bufsize"])
        elif op["wrap"] == "text":
            top = io.TextIOWrapper(top, "latin-1", newline="\n")
            text = True
        elif op["wrap"] == "bufftext":
            top = io.TextIOWrapper(io.BufferedReader(top, op["bufsize"]), "latin-1", newline="\n")
            text = True
        pos = 0
        for x in op["reads"]:
            try:
                pos = self.one_read(x, top, text, data, pos)
            except Bug:
                raise
            except Exception as e:
                raise Bug("read-fails", "%s: %s fails after %d of %d bytes: %s" % (self.who, x[0], pos, len(data), clean(e)))
        self.opened("reading " + self.who)
        end = op["close"]
        plain_armor = dec is None
        if end == "none":
            self.discard(op, top, dec, armor)
            return
        if plain_armor and op["wrap"] is None and end != "close":
            # armored streams have no with-block
            end = "close"
        err = self.still("closing " + self.who, lambda: self.finish(top, end))
        if err and not (end == "raise" and err.startswith("LookupError")):
            raise Bug("close-fails", "%s cannot be closed: %s" % (self.who, err))
        base = dec if dec is not None else armor
        for name, fn in (
            ("read", lambda: top.read(1)),
            ("read", lambda: top.read()),
            ("read", lambda: base.read()),
            ("read", lambda: base.read(3)),
            ("readline", lambda: base.readline()),
            ("readline", lambda: top.readline()),
            ("readinto", lambda: base.readinto(bytearray(4))),
            ("close", lambda: top.close()),
        ):
            got = []
            self.still("%s after close" % name, lambda: got.append(fn()))
            if got and got[0]:
                raise Bug("read-after-close", "%s of the closed %s delivers data" % (name, self.who))
        self.discard(op, top, dec, armor)

    def finish(self, top, end):
        if end == "close":
            return top.close()
        with top:
            if end == "raise":
                raise LookupError("from the caller")

    def one_read(self, x, top, text, data, pos):
        k = x[0]
        rest = data[pos:]

        def same(got, n, exact=True):
            if text:
                got = got.encode("latin-1")
            if got != rest[: len(got)] or (len(got) > n >= 0) or (rest and n and not got) or (exact and len(got) != min(n, len(rest))):
                raise Bug("content", "%s: %s at %d of %d delivers %d bytes, not the %d that follow" % (self.who, k, pos, len(data), len(got), min(n, len(rest))))
            return pos + len(got)

        if k == "read":
            # raw streams may deliver less than was asked for
            return same(top.read(x[1]), x[1], exact=False)
        if k == "into":
            if text:
                return pos
            buf = bytearray(b"\xaa" * x[1])
            n = top.readinto(buf)
            if bytes(buf[n:]) != b"\xaa" * (x[1] - n):
                raise Bug("content", "%s: readinto writes beyond what it delivers" % self.who)
            return same(bytes(buf[:n]), x[1], exact=False)
        if k in ("all", "none"):
            return same(top.read() if k == "all" else top.read(None), len(rest))
        line = rest[: rest.find(b"\n") + 1] or rest
        if k == "line":
            if len(line) > 2000:
                return pos
            return same(top.readline(), len(line))
        if k == "some":
            return same(top.readline(11), min(11, len(line)))
        if k == "next":
            if not rest:
                return pos
            if len(line) > 2000:
                return pos
            return same(next(iter(top)), len(line)) if not text else same(top.readline(), len(line))
        if k == "lines":
            if len(rest) > 20000:
                return pos
            got = top.readlines()
            if got and any(not g.endswith("\n" if text else b"\n") for g in got[:-1]):
                raise Bug("content", "%s: readlines delivers something else than lines" % self.who)
            return same(("" if text else b"").join(got), len(rest))
        if k == "gc":
            gc.collect()
            return pos
        try:
            top.write("x" if text else b"x")
        except Exception as e:
            clean(e)
        else:
            raise Bug("writes", "%s accepts a write" % self.who)
        return pos


def run(plan, ctx):
    ctx.write("w/.keep", b"")
    ctx.home("home", [])
    ctx.trivial = False
    if plan["seg"]["read"] == 1 and sum(f["data"]["n"] for f in plan["files"]) > 5000:
        plan = dict(plan, seg=dict(plan["seg"], read="rand"))

    def body(lib, p):
        play = Play(plan, lib, p, ctx)
        try:
            play.run()
        except Bug as b:
            b.__traceback__ = None
            return (b.kind, b.msg)
        return None

    st, v = ctx.library(body, {"entropy": plan["entropy"], "hashseed": plan["hashseed"]}, seg=plan["seg"], home=ctx.path("home"))
    if st == "error":
        raise seams.kernel.HarnessError(v)
    if v:
        ctx.violate(*v)


_ = random
