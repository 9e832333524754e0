"""Shared vocabulary of the scenarios: keys, homes, data, plans, runs."""

import collections
import errno
import hashlib
import io
import json
import os
import random
import shutil

from . import kernel, proc, refage, seams

HERE = os.path.dirname(os.path.abspath(__file__))
_pool = None


def pool():
    global _pool
    if _pool is None:
        with seams.REAL_OPEN(os.path.join(HERE, "fixtures", "keys.json")) as f:
            _pool = json.load(f)
        for kind in ("ssh-rsa", "ssh-ed25519"):
            _pool[kind + "/keys"] = [refage.Ssh(kind, e["pub"], e["priv"]) for e in _pool[kind]]
    return _pool


_age = {}


def key(desc):
    """Key object of a descriptor such as ["age", 3], ["rsa", 0], ["pw", "text"]."""
    k, v = desc[0], desc[1]
    if k == "age":
        if v not in _age:
            sec = bytearray(hashlib.sha256(b"age key %d" % (v if v < 1000 else v // 10)).digest())
            if v >= 1000 and v % 10:
                # near twins: all but one byte in common
                sec[(0, 1, 4, 8, 16, 24, 29, 30, 31, 15)[v % 10]] ^= 0x28
            _age[v] = refage.Age(bytes(sec))
        return _age[v]
    if k == "rsa":
        return pool()["ssh-rsa/keys"][v]
    if k == "ed":
        return pool()["ssh-ed25519/keys"][v]
    if k == "pw":
        return refage.Password(v)
    raise kernel.HarnessError("key %r" % (desc,))


def kdf(password, salt, n):
    """What the simulated scrypt computes, for the reference implementation."""
    return seams._standin(password, salt, n, 8, 1, 32)


def payload(d):
    """Plaintext of a data descriptor {"n": size, "s": seed, "k": kind}."""
    n, s, kind = d["n"], d["s"], d.get("k", "rand")
    if kind == "rand":
        return random.Random("data:%s" % s).randbytes(n)
    if kind == "zero":
        return bytes(n)
    if kind == "text":
        r = random.Random("text:%s" % s)
        line = b"".join(b"line %06d %s\n" % (i, r.randbytes(8).hex().encode()) for i in range(64))
        return (line * (n // len(line) + 1))[:n]
    if kind == "hdr":
        return (b"age-encryption.org/v1\n-> X25519 AAAA\n--- AAAA\n" * (n // 40 + 1))[:n]
    if kind == "edge":
        # begins and ends with something that could be taken for more than data
        r = random.Random("edge:%s" % s)
        head, tail = r.choice(EDGES), r.choice(EDGES)
        return (head + r.randbytes(max(0, n - len(head) - len(tail))) + tail)[:n]
    if kind == "armor":
        r = random.Random("armor:%s" % s)
        return (r.choice([b"", b"hello\n"]) + refage.armor(r.randbytes(n * 3 // 4)))[:n]
    raise kernel.HarnessError("data %r" % (d,))


EDGES = [
    b"", b"\n", b"\n\n\n", b"\r\n", b" ", b"\t \n", b"\0", b"\0" * 17, b"\x1a", b"\x04", b"\xef\xbb\xbf", b"\xff\xfe", b"\x1f\x8b\x08", b"PK\x03\x04",
    b"BZh9", b"# ", b"-----BEGIN AGE ENCRYPTED FILE-----\n", b"\n-----END AGE ENCRYPTED FILE-----\n", b"-----BEGIN", b"age-encryption.org/v1\n", b"--- ",
    b"AGE-SECRET-KEY-1", b"x\x9c", b"=", b"\x80\0\0", b"\x01",
]
SMALL = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 255, 256, 1000]
MID = [4095, 4096, 4097, 8191, 8192, 8193, 12000]
CH = 65536
BIG = [CH - 17, CH - 16, CH - 1, CH, CH + 1, CH + 16, 2 * CH - 1, 2 * CH, 2 * CH + 1, 3 * CH, 5 * CH + 7]


HUGE = [16 * CH, 16 * CH + 1, 17 * CH - 3, (1 << 20) + 16, 33 * CH + 11, 50 * CH]


def gen_size(r, big=0.35):
    x = r.random()
    if x > 1 - big / 40:
        return r.choice(HUGE)
    if x < 0.5 - big / 2:
        return r.choice(SMALL)
    if x < 1 - big:
        return r.choice(MID) if r.random() < 0.5 else r.randrange(0, 20000)
    return r.choice(BIG) if r.random() < 0.7 else r.randrange(CH // 2, 6 * CH)


def gen_data(r, big=0.35):
    return {"n": gen_size(r, big), "s": r.randrange(1 << 30), "k": r.choice(["rand"] * 5 + ["zero", "text", "hdr", "edge", "edge", "armor"])}


PASSWORDS = [
    "correct horse",
    "x",
    " leading and trailing ",
    "p\u00e4ssw\u00f6rd \u2603",
    "a" * 200,
    "tab\tinside",
    "#hash",
    "-dash",
    "0",
    "e\u0301 is not \u00e9, \ufb01 is not fi",
    "\u00a0no\u2003break\u00a0",
    "Case MATTERS",
    "long " * 300,
    "back\\slash %s $HOME `x` 'q' \"q\"",
]


def gen_recips(r, maxn=4, pw=True, kinds=("age", "age", "rsa", "ed")):
    out = []
    n = 1 if r.random() < 0.4 else r.randrange(1, maxn + 1)
    for _ in range(n):
        k = r.choice(kinds)
        d = {"age": ["age", r.randrange(40)], "rsa": ["rsa", r.randrange(10)], "ed": ["ed", r.randrange(8)]}[k]
        if d not in out:
            out.append(d)
    if pw and r.random() < 0.25:
        p = ["pw", r.choice(PASSWORDS)]
        if r.random() < 0.5:
            out = [p]
        else:
            out.append(p)
    return out


def gen_crowd(r, n=None):
    """Many recipients: the header outgrows every buffer size that comes to mind."""
    n = n or r.choice([20, 21, 33, 40, 64, 100])
    out = []
    while len(out) < n:
        x = r.random()
        d = ["rsa", r.randrange(10)] if x < 0.1 else ["ed", r.randrange(8)] if x < 0.15 else ["age", r.randrange(400)]
        if d not in out:
            out.append(d)
    return out


def split_recips(recips):
    """(argument list, password or None) for the command line."""
    args, pw = [], None
    for d in recips:
        k = key(d)
        if d[0] == "pw":
            pw = d[1]
        else:
            args.append(k.pub)
    return args, pw


ERRS_OUT = [errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE]
ERRS_CLOSE = [errno.EIO, errno.ENOSPC, errno.EDQUOT]
ERRS_OPEN = [errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EIO, errno.EROFS]
ERRS_READ = [errno.EIO, errno.ESTALE, errno.ETIMEDOUT]


def gen_out_fault(r):
    """A fault on some output event."""
    x = r.random()
    u = r.random()
    if x < 0.30:
        return {"on": "write", "u": u, "do": "err", "errno": r.choice(ERRS_OUT), "sticky": r.random() < 0.7}
    if x < 0.60:
        return {"on": "write", "u": u, "do": "torn", "errno": r.choice(ERRS_OUT), "frac": r.choice([0.0, r.random(), r.random(), 0.999])}
    if x < 0.75:
        f = {"on": "write", "u": u, "do": "short", "frac": r.choice([0.0, r.random(), 0.999])}
        if r.random() < 0.45:
            f["full"] = r.choice(["none", "none", "zero"])
        return f
    if x < 0.9:
        return {"on": "close", "u": u, "do": "err", "errno": r.choice(ERRS_CLOSE)}
    return {"on": "open", "u": u, "do": "err", "errno": r.choice(ERRS_OPEN)}


def matches(f, ev):
    idx, kind, target = ev
    on = f["on"]
    if on != "any" and kind != on:
        return False
    t = f.get("target")
    if t and not target.startswith(t):
        return False
    if f.get("not_target") and target.startswith(f["not_target"]):
        return False
    return True


def resolve(faults, events):
    """Turn symbolic fault positions into event numbers, using a dry run."""
    out = []
    used = set()
    for f in faults:
        c = [e for e in events if matches(f, e)]
        if not c:
            continue
        e = c[min(int(f["u"] * len(c)), len(c) - 1)]
        if e[0] in used:
            continue
        used.add(e[0])
        g = dict(f)
        g["at"] = e[0]
        out.append(g)
    return out


class Ctx:
    """One run of one scenario."""

    def __init__(self, root):
        self.root = root
        self.dir = os.path.join(root, "r")
        self.reset()

    def reset(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, ".tmp"))
        self.sims = []
        self.violations = []
        self.probes = collections.Counter()
        self.nprocs = 0
        self.trivial = True
        self.h = hashlib.sha256()

    # -- files
    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, path, data, mode=None):
        if isinstance(data, str):
            data = data.encode()
        p = self.path(path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with seams.REAL_OPEN(p, "wb") as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def read(self, path):
        try:
            with seams.REAL_OPEN(self.path(path), "rb") as f:
                return f.read()
        except OSError:
            return None

    def home(self, name="home", ids=(), aliases=None, extra_keys=""):
        """A home directory holding the given identities."""
        h = self.path(name)
        os.makedirs(os.path.join(h, ".config", "age"), exist_ok=True)
        os.makedirs(os.path.join(h, ".ssh"), exist_ok=True)
        text = extra_keys
        n = 0
        for d in ids:
            k = key(d)
            if d[0] == "age":
                text += k.keyfile()
            elif d[0] in ("rsa", "ed"):
                n += 1
                self.write(os.path.join(name, ".ssh", "id_%s_%02d" % (d[0], n)), k.priv, 0o600)
        if text:
            self.write(os.path.join(name, ".config", "age", "keys.txt"), text)
        if aliases is not None:
            self.write(os.path.join(name, ".config", "age", "aliases.txt"), aliases)
        return h

    # -- simulations
    def sim(self, plan=None, **kw):
        p = dict(plan or {})
        p.update(kw)
        s = kernel.Sim(p, self.dir)
        self.sims.append(s)
        return s

    def cli(self, argv, home, plan=None, sim=None, line=None, near=False, **kw):
        """One command; `line` = 0 counts package lines, n interrupts at the nth.

        near: in the directory of its files, which it is told by their bare names.
        """
        if near:
            d = self.path("w")
            os.makedirs(d, exist_ok=True)
            argv = [a[len(d) + 1 :] if a.startswith(d + "/") else a for a in argv]
            back = os.getcwd()
            os.chdir(d)
            try:
                return self.cli(argv, home, plan, sim, line, **kw)
            finally:
                os.chdir(back)
        s = sim or self.sim(plan)
        if line is not None:
            kw["trace"] = s.interrupter(line)
        self.nprocs += 1
        r = proc.run_cli(s, argv, home, **kw)
        r.sim = s
        if s.deadlock:
            self.violate("no-progress", "a process blocked forever: %s" % " ".join(argv[:3]))
        if s.capped:
            self.violate("no-progress", "step cap reached: %s" % " ".join(argv[:3]))
        return r

    def body(self, fn, home=None, plan=None, sim=None, **kw):
        s = sim or self.sim(plan)
        self.nprocs += 1
        p, v = proc.run_body(s, fn, home or self.path("home"), **kw)
        if s.deadlock or s.capped:
            self.violate("no-progress", "a program blocked forever")
        return p, v

    def library(self, fn, plan=None, **kw):
        """Run fn(lib, proc) as a program; returns ("ok", value) or ("error", text)."""
        from .image import Lib

        box = []

        def body(p):
            try:
                box.append(("ok", fn(Lib(), p)))
            except (kernel.SimCrash, kernel.StepCap):
                raise
            except (Exception, KeyboardInterrupt) as e:
                e.__traceback__ = None
                e.__context__ = e.__cause__ = None
                box.append(("error", "%s: %s" % (type(e).__name__, e)))

        p, _ = self.body(body, plan=plan, **kw)
        self.last = p
        return box[0] if box else ("dead", None)

    def encrypt(self, recips, data, armored=False, plan=None, **kw):
        """Encrypt with the library under study; bytes or None."""

        def fn(lib, p):
            sink = io.BytesIO()
            sink.close = lambda: None
            out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if armored else sink
            with lib.Encryptor([lib_pub(lib, d) for d in recips], out) as e:
                e.write(data)
            if armored:
                out.close()
            return sink.getvalue()

        st, v = self.library(fn, plan=plan, **kw)
        return v if st == "ok" else None

    def decrypt(self, blob, ids, armored=False, plan=None, **kw):
        """Decrypt with the library under study; ("ok", bytes) or ("error", text)."""

        def fn(lib, p):
            src = io.BytesIO(blob)
            if armored:
                src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
            with lib.Decryptor([lib_priv(lib, d) for d in ids], src) as d:
                return d.read()

        return self.library(fn, plan=plan, **kw)

    def threads(self, fns, plan=None, opcodes=False, sim=None, setup=None, done=None, **kw):
        """Run fns concurrently as threads of one program.

        setup(lib, proc) runs first, alone; each fn(lib, proc, shared) returns its
        result; done() runs last, alone.  Returns a list of ("ok", value) or
        ("error", text).
        """
        from . import image
        from .image import Lib

        s = sim or self.sim(plan)
        res = [("dead", None)] * len(fns)

        def one(i, fn, lib, p, shared):
            def body():
                try:
                    res[i] = ("ok", fn(lib, p, shared))
                except (kernel.SimCrash, kernel.StepCap):
                    raise
                except (Exception, KeyboardInterrupt, SystemExit) as e:
                    e.__traceback__ = None
                    e.__context__ = e.__cause__ = None
                    res[i] = ("error", "%s: %s" % (type(e).__name__, e))

            return body

        def main(p):
            image.load_rest()
            p.noyield = ("stdin", "stdout", "stderr")
            lib = Lib()
            shared = setup(lib, p) if setup else None
            trace = s.tracer(opcodes)
            tasks = [s.spawn("t%d" % i, one(i, f, lib, p, shared), p, trace) for i, f in enumerate(fns)]
            s.block(lambda: all(t.state == "done" for t in tasks))
            if done:
                done()

        p, _ = self.body(main, sim=s, **kw)
        self.last = p
        return res

    def violate(self, kind, msg):
        self.violations.append((kind, msg))

    def digest(self):
        h = hashlib.sha256()
        for s in self.sims:
            h.update(s.digest().encode())
        h.update(repr(self.violations).encode())
        return h.hexdigest()[:32]

    def kinds(self):
        h = hashlib.sha256()
        for s in self.sims:
            h.update(s.kinds.digest())
            h.update(repr(s.switches).encode())
        return h.hexdigest()[:16]

    # -- judges: the real command, alone, without faults
    def judge(self, blob, ids, armored=False, pw=None, stdin=True):
        """Decrypt `blob` with a fresh process holding `ids`; bytes or None."""
        h = self.home("judge", ids)
        argv = ["decrypt"]
        if armored:
            argv.append("-a")
        if pw is not None:
            argv.append("-p")
        self.write("judge.in", blob)
        argv += ["-i", self.path("judge.in"), "-o", self.path("judge.out")]
        try:
            os.unlink(self.path("judge.out"))
        except OSError:
            pass
        r = self.cli(argv, h, name="judge", passwords=[pw] if pw is not None else ())
        shutil.rmtree(h, ignore_errors=True)
        if r.code != 0:
            return None
        return self.read("judge.out")


def ref_blob(recips, data, seed, armored=False, **kw):
    """A file made by the reference implementation."""
    rnd = random.Random("ref:%s" % (seed,)).randbytes
    b = refage.build([key(d) for d in recips], data, rnd, kdf, **kw)
    return refage.armor(b) if armored else b


def short(x, n=60):
    if x is None:
        return "nothing"
    return "%d bytes %s" % (len(x), hashlib.sha256(x).hexdigest()[:8])


def lib_pub(lib, d):
    k = key(d)
    if d[0] == "age":
        return lib.AgePublicKey.from_public_string(k.pub)
    if d[0] == "rsa":
        return lib.RSAPublicKey.from_ssh_public_key(k.pub.encode())
    if d[0] == "ed":
        return lib.Ed25519PublicKey.from_ssh_public_key(k.pub.encode())
    return lib.PasswordKey(k.value)


def lib_priv(lib, d):
    k = key(d)
    if d[0] == "age":
        return lib.AgePrivateKey.from_private_string(k.priv)
    if d[0] == "rsa":
        return lib.RSAPrivateKey.from_pem(k.priv.encode())
    if d[0] == "ed":
        return lib.Ed25519PrivateKey.from_pem(k.priv.encode())
    return lib.PasswordKey(k.value)
