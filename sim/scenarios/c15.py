"""C15 - encryption streams have file semantics over their whole life."""

import gc
import io
import random

from .. import refage, seams, world
from ..world import key, lib_priv, lib_pub, payload, short

RAISES = [ValueError, OSError, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError, BrokenPipeError]


def gen_op(r, kind):
    x = r.random()
    if x < 0.42:
        return ["w", r.choice([0, 1, 5, 16, 100, 1000, 1000, 65536, 65537, 130000]) if r.random() < 0.3 else r.randrange(0, 3000), r.choice(["b", "b", "b", "ba", "mv"])]
    if x < 0.47:
        return ["bad", r.randrange(4)]
    if x < 0.54:
        return ["flush"]
    if x < 0.57:
        return ["lines"]
    if x < 0.76:
        return ["close"]
    if x < 0.84:
        return ["exit"]
    if x < 0.93:
        return ["raise", r.randrange(len(RAISES))]
    return ["aclose"] if kind == "armored" else ["gc"]


def gen_fault(r):
    x = r.random()
    f = {"on": "write", "target": "sink", "nth": r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])}
    if x < 0.35:
        f.update(do="err", errno=r.choice(world.ERRS_OUT), sticky=r.random() < 0.6)
    elif x < 0.6:
        f.update(do="torn", errno=r.choice(world.ERRS_OUT), frac=r.choice([0.0, r.random(), 0.999]))
    elif x < 0.8:
        f.update(do="short", frac=r.choice([0.0, r.random()]))
        if r.random() < 0.4:
            f["full"] = r.choice(["none", "zero"])
    elif x < 0.88:
        f.update(do="int", when="before")
    elif x < 0.94:
        f.update(do="alloc", when="before")
    else:
        f = {"on": "entropy", "nth": r.choice([1, 2, 2, 3, 3, 4]), "do": "err", "errno": 5}
    return f


def gen_session(r):
    kind = r.choice(["plain", "plain", "plain", "armored", "armored", "armor"])
    s = {
        "kind": kind,
        "recips": world.gen_recips(r, 2, pw=False),
        "over": r.choice([None] * 6 + ["buffered", "text"]) if kind == "plain" else None,
        "bad": r.choice([None] * 7 + [["obj", 0], ["obj", 1], ["priv", 1], ["none", 1], ["iter", 1]]),
        "ops": [gen_op(r, kind) for _ in range(r.choice([1, 2, 3, 4, 6, 10]))],
        "fault": gen_fault(r) if r.random() < 0.5 else None,
        "drop": r.choice(["now", "now", "later", "end", "cycle"]),
        "seed": r.randrange(1 << 20),
    }
    if r.random() < 0.8 and not any(o[0] in ("close", "exit", "raise") for o in s["ops"]):
        s["ops"].append(r.choice([["close"], ["exit"], ["raise", r.randrange(len(RAISES))]]))
    if r.random() < 0.4:
        s["ops"] += [r.choice([["close"], ["w", 10, "b"], ["flush"], ["exit"], ["raise", 0], ["gc"]]) for _ in range(r.choice([1, 2]))]
    return s


def gen(r, tier):
    return {
        "sessions": [gen_session(r) for _ in range(r.choice([1, 2, 2, 3]))],
        "sink": r.choice(["raw", "raw", "raw", "duck", "ducknone", "buffered"]),
        "seg": {"write": r.choice([None, None, None, "rand", 1, 16, 100]), "seed": r.randrange(1 << 20)},
        "entropy": r.randrange(1 << 30),
    }


class Duck:
    """A sink that only knows write()."""

    def __init__(self, p, dev, ret):
        self.p, self.dev, self.ret = p, dev, ret

    def write(self, data):
        seams.simple_event("write", "sink", len(data))
        if "sink" in self.p.sticky:
            raise seams.oserr(self.p.sticky["sink"])
        self.dev.data += data
        return len(data) if self.ret else None


class Session:
    pass


class Bug(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


def clean(e):
    e.__traceback__ = None
    e.__context__ = e.__cause__ = None
    return "%s: %s" % (type(e).__name__, e)


class Play:
    """Executes the history in the simulated program and checks the model."""

    def __init__(self, plan, lib, p, ctx):
        self.plan, self.lib, self.p, self.ctx = plan, lib, p, ctx
        self.dev = seams.Dev("sink")
        k = plan["sink"]
        if k == "duck" or k == "ducknone":
            self.sink = Duck(p, self.dev, k == "duck")
        else:
            self.sink = seams.SimOut(p, "sink", dev=self.dev)
            if k == "buffered":
                self.sink = io.BufferedWriter(self.sink, 64)
        self.old = []

    def size(self):
        if self.plan["sink"] == "buffered":
            # the caller's own buffer belongs to the sink
            try:
                self.sink.flush()
            except (Exception, KeyboardInterrupt) as e:
                clean(e)
        return len(self.dev.data)

    def quiet(self, what, fn, must_raise=False):
        """An operation on a finished session: nothing may reach the sink."""
        before = self.size()
        err = None
        try:
            fn()
        except Exception as e:
            err = clean(e)
        except (KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            err = clean(e)
        grown = self.size() - before
        if grown:
            raise Bug("late-output", "%s of a finished session puts %d bytes into the sink" % (what, grown))
        if must_raise and err is None:
            raise Bug("late-write", "%s is accepted" % what)

    def keys(self, s):
        lib = self.lib
        out = [lib_pub(lib, d) for d in s["recips"]]
        if s["bad"]:
            what, where = s["bad"]
            if what == "iter":

                def it():
                    yield out[0]
                    raise ValueError("no more keys")

                return it()
            v = {"obj": object(), "none": None, "priv": lib_priv(lib, ["age", 3])}[what]
            out.insert(where, v)
        return out

    def run(self):
        for i, plan in enumerate(self.plan["sessions"]):
            s = Session()
            s.name = "session %d" % i
            self.p.dyn.clear()
            self.p.sticky.clear()
            s.start = self.size()
            if plan["fault"]:
                self.p.dyn.append([dict(plan["fault"]), 0])
            self.fired0 = len(self.p.fired)
            self.session(plan, s)
            self.heal()
            self.leave(plan, s)
        for s in self.old:
            self.finish(s, "discarding")
        self.old = []

    def harmed(self):
        """Did anything but a short write happen to this session?"""
        return any("short" not in w for _, w in self.p.fired[self.fired0 :])

    def heal(self):
        self.p.dyn.clear()
        self.p.sticky.clear()

    # -- one session ---------------------------------------------------------
    def session(self, plan, s):
        lib = self.lib
        s.acked = b""
        s.state = "open"  # open, done, dead
        s.sealed = False  # may not write to the sink any more
        s.enc = s.armor = s.top = None
        s.tainted = s.aborted = False
        s.plan = plan
        target = self.sink
        if plan["kind"] in ("armored", "armor"):
            s.armor = target = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, self.sink)
        if plan["kind"] == "armor":
            s.top = s.armor
        else:
            try:
                s.enc = lib.Encryptor(self.keys(plan), target)
            except BaseException as e:
                if isinstance(e, seams.kernel.SimCrash):
                    raise
                # the traceback keeps the object alive that could not be constructed
                text = "%s: %s" % (type(e).__name__, e)
                if plan["bad"] is None and not self.harmed():
                    clean(e)
                    raise Bug("construct", "a session cannot be opened: %s" % text)
                self.ctx.probes["construct-failed"] += 1
                self.heal()
                s.state = "dead"
                if s.armor is None:
                    self.quiet("discarding", lambda: clean(e))
                else:
                    clean(e)
                del e
                if s.armor is None:
                    s.sealed = True
                    self.quiet("garbage collection", gc.collect)
                else:
                    s.aborted = True
                    gc.collect()
                s.enc = None
                return
            s.top = s.enc
            if plan["bad"] is not None and plan["bad"][0] != "priv":
                raise Bug("bad-key", "an unsupported key is accepted")
        if plan["over"] == "buffered":
            s.top = io.BufferedWriter(s.enc, 1000)
        elif plan["over"] == "text":
            s.top = io.TextIOWrapper(io.BufferedWriter(s.enc, 1000), "latin-1", newline="", write_through=False)
        rnd = random.Random("ops:%s" % plan["seed"])
        for op in plan["ops"]:
            self.step(plan, s, op, rnd)

    def step(self, plan, s, op, rnd):
        k = op[0]
        top = s.top
        if s.state != "open":
            return self.after(plan, s, op, rnd)
        if k in ("w", "lines"):
            data = rnd.randbytes(op[1]) if k == "w" else b"line one\nline two\n"
            try:
                if k == "lines":
                    try:
                        top.writelines([data[:9].decode(), data[9:].decode()] if plan["over"] == "text" else [data[:9], data[9:]])
                    except NotImplementedError:
                        return
                elif plan["over"] == "text":
                    top.write(data.decode("latin-1"))
                else:
                    self.write(top, data, op[2], plan)
            except (Exception, KeyboardInterrupt) as e:
                err = clean(e)
                if not self.harmed() and not (s.armor is not None and s.armor.closed):
                    raise Bug("write-fails", "a write of %d bytes fails: %s" % (len(data), err))
                s.tainted = True
                return
            s.acked += data
        elif k == "bad":
            v = ["text", None, 5, object()][op[1]]
            if plan["over"] == "text" and op[1] == 0:
                v = b"bytes"
            try:
                top.write(v)
            except Exception as e:
                clean(e)
            else:
                raise Bug("bad-write", "a write of %r is accepted" % type(v).__name__)
        elif k == "flush":
            try:
                top.flush()
            except (Exception, KeyboardInterrupt) as e:
                err = clean(e)
                if not self.harmed() and not (s.armor is not None and s.armor.closed):
                    raise Bug("flush-fails", "flush of an open stream fails: %s" % err)
                s.tainted = True
        elif k == "gc":
            gc.collect()
        elif k in ("close", "exit"):
            self.end(plan, s, top.close if k == "close" or plan["kind"] == "armor" else lambda: self.leave_with(top))
        elif k == "raise":
            if plan["kind"] == "armor":
                return self.end(plan, s, top.close)
            self.abort(plan, s, top, RAISES[op[1]])
        elif k == "aclose":
            self.aclose(s)

    def write(self, top, data, how, plan):
        if how == "ba":
            buf = bytearray(data)
            n = top.write(buf)
            for i in range(len(buf)):
                buf[i] = 0xEE
        else:
            n = top.write(memoryview(data) if how == "mv" else data)
        if n != len(data):
            raise Bug("short-write", "write of %d bytes returns %r" % (len(data), n))

    def leave_with(self, top):
        with top:
            pass

    def end(self, plan, s, fn):
        """close() or a with-block that ends normally."""
        armor_gone = plan["kind"] == "armored" and s.armor.closed
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            err = clean(e)
            if not self.harmed() and not armor_gone:
                raise Bug("close-fails", "close fails: %s" % err)
            self.ctx.probes["close-failed"] += 1
            s.state = "dead"
        else:
            if armor_gone:
                raise Bug("lost", "close succeeds although the armored stream below was closed before")
            s.state = "done"
            self.ctx.probes["closed"] += 1
        self.heal_after(s)
        if plan["kind"] != "armored":
            s.sealed = True
            if s.state == "done":
                self.content(plan, s)
        elif s.state == "dead" and armor_gone:
            s.sealed = True

    def heal_after(self, s):
        # from here on the sink works again
        if not (s.state == "done" and s.armor is not None and not s.armor.closed):
            self.heal()

    def abort(self, plan, s, top, exc):
        armor_gone = plan["kind"] == "armored" and s.armor.closed
        try:
            with top:
                raise exc("in the with-block")
        except BaseException as e:
            if isinstance(e, seams.kernel.SimCrash):
                raise
            clean(e)
        else:
            raise Bug("swallowed", "the exception of a with-block disappears")
        self.ctx.probes["aborted"] += 1
        s.state = "dead"
        s.aborted = True
        self.heal()
        # through a buffer of the caller's, closing it is all the stream is told
        if plan["over"] is None and plan["kind"] == "plain":
            s.sealed = True
            return self.rejects(plan, s)
        if plan["over"] is not None:
            s.sealed = True
        elif armor_gone:
            s.sealed = True

    def rejects(self, plan, s):
        """What an aborted session left must not pass for a complete file."""
        got = bytes(self.dev.data[s.start : self.size()])
        if plan["kind"] == "armored":
            got = refage.dearmor(got) or b""
        if refage.decrypt(got, [key(plan["recips"][0])], world.kdf, legacy_empty=False) is not None:
            raise Bug("aborted-complete", "a session whose with-block raised leaves a valid file")

    def aclose(self, s):
        if s.sealed:
            return self.quiet("repeated close of the armored stream", s.armor.close)
        if s.armor.closed:
            return
        try:
            s.armor.close()
        except (Exception, KeyboardInterrupt) as e:
            err = clean(e)
            if not self.harmed():
                raise Bug("close-fails", "close of the armored stream fails: %s" % err)
            s.sealed = True
            self.heal()
        else:
            self.heal()
            if s.state == "done":
                s.sealed = True
                self.content(s.plan, s)
            elif s.aborted:
                self.rejects(s.plan, s)
        # an encryption stream still open above it can no longer deliver
        if s.state != "open":
            s.sealed = True

    def content(self, plan, s):
        if s.tainted:
            return
        got = bytes(self.dev.data[s.start : self.size()])
        if plan["kind"] in ("armored", "armor"):
            got = refage.dearmor(got)
            if got is None:
                raise Bug("content", "the armored output is not one complete block")
        if plan["kind"] != "armor":
            got = refage.decrypt(got, [key(plan["recips"][0])], world.kdf, legacy_empty=False)
        if got != s.acked:
            raise Bug("content", "%s written and closed, the output holds %s" % (short(s.acked), short(got)))

    def after(self, plan, s, op, rnd):
        """Operations on a session that is over."""
        k = op[0]
        top = s.top
        if k == "aclose" and s.armor is not None:
            return self.aclose(s)
        if top is None:
            return
        calls = {
            "w": (lambda: top.write("late" if plan["over"] == "text" else b"late"), True),
            "lines": (lambda: top.writelines(["late"] if plan["over"] == "text" else [b"late"]), False),
            "bad": (lambda: top.write(5), True),
            "flush": (top.flush, False),
            "close": (top.close, False),
            "exit": (top.close if plan["kind"] == "armor" else lambda: top.__exit__(None, None, None), False),
            "raise": (top.close if plan["kind"] == "armor" else lambda: top.__exit__(ValueError, ValueError("x"), None), False),
            "gc": (gc.collect, False),
        }
        fn, must = calls.get(k, (gc.collect, False))
        names = {"w": "a write after close", "bad": "a write after close", "exit": "leaving the with-block", "raise": "leaving the with-block", "close": "a repeated close"}
        self.ctx.probes["after-" + k] += 1
        self.quiet(names.get(k, k), fn, must)

    # -- discarding ------------------------------------------------------------
    def leave(self, plan, s):
        """The program lets go of a session."""
        # an armored stream is closed by its owner before it is let go
        if s.armor is not None and not s.armor.closed:
            try:
                s.armor.close()
            except (Exception, KeyboardInterrupt) as e:
                err = clean(e)
                raise Bug("close-fails", "close of the armored stream fails: %s" % err)
            if s.state == "done" and plan["kind"] == "armored":
                self.content(plan, s)
            elif s.aborted:
                self.rejects(plan, s)
            s.sealed = s.state != "open"
        if s.state == "open":
            # never closed: what happens to the output is not specified
            if s.top is not None:
                try:
                    s.top.close()
                except (Exception, KeyboardInterrupt) as e:
                    clean(e)
            s.sealed = True
        if plan["drop"] == "now":
            self.finish(s, "discarding")
        elif plan["drop"] == "cycle":
            loop = [s.top, s.enc, s.armor]
            loop.append(loop)
            s.top = s.enc = s.armor = None
            del loop
            self.quiet("discarding", gc.collect)
        else:
            self.old.append(s)
            if plan["drop"] == "later" and len(self.old) > 1:
                self.finish(self.old.pop(0), "discarding")

    def finish(self, s, what):
        def drop():
            s.top = None
            s.enc = None
            s.armor = None
            gc.collect()

        self.quiet(what, drop)


def run(plan, ctx):
    ctx.write("w/.keep", b"")
    ctx.trivial = False
    for s in plan["sessions"]:
        n = sum(o[1] for o in s["ops"] if o[0] == "w")
        if n > 5000 and plan["seg"]["write"] in (1, 16):
            plan = dict(plan, seg=dict(plan["seg"], write="rand"))

    def body(lib, p):
        play = Play(plan, lib, p, ctx)
        try:
            play.run()
        except Bug as b:
            b.__traceback__ = None
            return (b.kind, b.msg)
        return None

    st, v = ctx.library(body, {"entropy": plan["entropy"]}, seg=plan["seg"])
    if st == "error":
        raise seams.kernel.HarnessError(v)
    if v:
        ctx.violate(*v)


_ = (payload,)
