"""C16 - stored files outlive upgrades and rollbacks.

A fleet shares a disk.  Its nodes run the package under study, a frozen copy of
the verified version, or the independent reference implementation, and change
version at any time.  Files written by the original release are on the disk too.
"""

import base64
import hashlib
import io
import json
import os
import random
import zlib

from .. import refage, seams, world
from ..world import key, lib_priv, lib_pub, payload, short
from .c01 import gen_seg

TYPES = [
    "grease", "x25519", "X25519-v2", "ssh-rsa2", "ssh-RSA", "scrypt2", "argon2id", "piv-p256", "yubikey", "tlock", "ssh-ed448", "a",
    "mlkem768x25519", "-", "--", "->", "!~", "X", "SCRYPT", "ssh", "age1abc", "123", "ssh-ed25519-cert-v01@openssh.com",
]
INTROS = [
    "age-encryption.org/v2", "age-encryption.org/v10", "age-encryption.org/v1.1", "age-encryption.org/v0", "age-encryption.org/v", "age-encryption.org/",
    "AGE-ENCRYPTION.ORG/V1", "age-tool.com/v1", "age-encryption.org/v11", "age-encryption.org/v1 beta", "", "-----", "salted__", "xage-encryption.org/v1",
]
VERS = ["study", "study", "frozen", "ref"]
_golden = None


def golden():
    global _golden
    if _golden is None:
        with seams.REAL_OPEN(os.path.join(world.HERE, "fixtures", "golden.json")) as f:
            _golden = json.load(f)
    return _golden


def gen_unknown(r):
    n = r.choice([0, 0, 1, 1, 2, 3, 8])
    alphabet = [chr(c) for c in range(33, 127)]
    return {
        "t": r.choice(TYPES),
        "a": ["".join(r.choice(alphabet) for _ in range(r.choice([1, 3, 11, 43, 100]))) for _ in range(n)],
        "n": r.choice([0, 1, 15, 16, 31, 32, 33, 47, 48, 49, 95, 96, 97, 100, 1000, 5000]),
        "s": r.randrange(1 << 20),
        "at": r.random(),
    }


def gen_event(r, nodes):
    x = r.random()
    if x < 0.45:
        n = world.gen_size(r, 0.2)
        return {
            "op": "write",
            "node": r.randrange(nodes),
            "recips": world.gen_recips(r, 4),
            "data": {"n": n, "s": r.randrange(1 << 30), "k": r.choice(["rand", "rand", "zero", "text", "hdr"])},
            "armored": r.random() < 0.25,
            "cost": r.choice(list(range(1, 23)) + [18] * 10),
            "unknown": [gen_unknown(r) for _ in range(r.choice([0, 0, 1, 1, 2, 5]))],
            "kill": r.randrange(1, 40) if r.random() < 0.15 else 0,
            "seg": gen_seg(r),
        }
    if x < 0.75:
        return {"op": "read", "node": r.randrange(nodes), "file": r.random(), "who": r.random(), "seg": gen_seg(r)}
    if x < 0.92:
        return {"op": "swap", "node": r.randrange(nodes), "ver": r.choice(VERS)}
    if r.random() < 0.5:
        return {
            "op": "foreign", "node": r.randrange(nodes), "recips": world.gen_recips(r, 3), "data": {"n": r.choice([0, 1, 100, 70000]), "s": r.randrange(1 << 30)},
            "armored": r.random() < 0.25, "intro": r.choice(INTROS), "mac": r.random() < 0.5, "who": r.random(),
        }
    return {"op": "golden", "node": r.randrange(nodes), "file": r.random(), "who": r.random()}


def wide(ctx, plan, n):
    """The nonces with which a file of n chunks is written and read, or an error."""
    box = []

    def fn(lib, p):
        out = io.BytesIO()
        out.close = lambda: None
        with seams.tiny_chunks() as t, lib.Encryptor([lib_pub(lib, ["age", 1])], out) as e:
            e.write(seams.tiny_data(n))
        box.append(t.chunks)
        # the content of the chunks was left out
        blob = out.getvalue() + b"".join(i.to_bytes(seams.TINY, "big") + bytes(16) for i in range(n))
        with seams.tiny_chunks() as t, lib.Decryptor([lib_priv(lib, ["age", 1])], io.BytesIO(blob)) as d:
            d.read()
        box.append(t.chunks)

    st, err = ctx.library(fn, {"entropy": plan["entropy"]})
    return ([], err) if st != "ok" else (box, None)


def run_wide(plan, ctx):
    """Files of more chunks than any other run has: each chunk has its number as nonce."""
    def wrong(seqs, n):
        for what, seq in zip(("writing", "reading"), seqs):
            if len(seq) != n:
                return what, "%d chunks" % len(seq)
            for nonce, i in seq:
                if nonce != i.to_bytes(11, "big") + bytes([i == n - 1]):
                    return what, "chunk %d has nonce %s" % (i, nonce.hex())

    few, err = wide(ctx, plan, 300)
    ctx.trivial = bool(err) or wrong(few, 300) is not None
    if ctx.trivial:
        return  # the size of the chunks is not kept where it is looked for
    many, err = wide(ctx, plan, plan["wide"])
    bad = err or wrong(many, plan["wide"])
    ctx.probes["wide-chunks"] += plan["wide"]
    if bad:
        return ctx.violate("wide", "a file of %d chunks is not written and read as other versions do: %s" % (plan["wide"], bad))


def gen(r, tier):
    if r.random() < 0.003:
        return {"wide": r.choice([65536, 65537, 65600, 131073]), "entropy": r.randrange(1 << 30)}
    nodes = r.choice([1, 2, 3])
    plan = {
        "nodes": [{"ver": r.choice(VERS), "ids": [["age", r.randrange(40)] for _ in range(r.choice([0, 1, 2]))], "cli": r.random() < 0.5} for _ in range(nodes)],
        "events": [gen_event(r, nodes) for _ in range(r.choice([2, 3, 4, 6, 9]))],
        "long": r.random() < 0.25,  # one process of the package under study lives through the whole history
        "real": r.random() < 0.02,
        "entropy": r.randrange(1 << 30),
        "hashseed": r.randrange(1 << 16),
        "bufsize": r.choice([None, None, 100, 65536]),
        "t0": r.choice([1573380000.0, 0.0, 2147483648.0, 4102444800.0]),
    }
    if not any(e["op"] == "write" for e in plan["events"]):
        plan["events"].insert(0, dict(gen_event(random.Random(1), nodes), recips=world.gen_recips(r, 3)))
    for e in plan["events"]:
        if e["op"] == "write":
            for k in ("read", "write"):
                v = e["seg"][k]
                if isinstance(v, int) and e["data"]["n"] // v > 500:
                    e["seg"][k] = "rand"
            if plan["bufsize"] == 100 and e["data"]["n"] > 20000:
                plan["bufsize"] = None
    if r.random() < 0.02:
        w = r.choice([e for e in plan["events"] if e["op"] == "write"])
        w["recips"] = world.gen_crowd(r)
        w["data"]["n"] = min(w["data"]["n"], 1000)
    if plan["real"]:
        for e in plan["events"]:
            if e["op"] == "write":
                e["cost"] = 1 + e["cost"] % 14
    if r.random() < (0.003 if tier == "quick" else 0.002):
        # more chunks than fit into one byte of the counter
        w = [e for e in plan["events"] if e["op"] == "write"][0]
        w["data"]["n"] = 65536 * r.choice([256, 257, 258]) + r.choice([0, 1, 777])
        w["seg"] = {}
        w["armored"] = False
        w["kill"] = 0
        plan["events"] = [w]
        plan["bufsize"] = 1 << 20
    return plan


def real_scrypt(password, salt, n):
    f = hashlib.scrypt
    return f(password, salt=salt, n=n, r=8, p=1, maxmem=(1 << 31) - 1, dklen=32)


def unknown(u):
    r = random.Random("unk:%s" % u["s"])
    return (u["t"], u["a"], refage.b64(r.randbytes(u["n"])))


class Fleet:
    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        self.kdf = real_scrypt if plan["real"] else world.kdf
        self.vers = [n["ver"] for n in plan["nodes"]]
        self.files = []
        self.rnd = random.Random("fleet:%s" % plan["entropy"])
        self.lib = None  # of a process that lives through the history
        self.n = 0

    def sim(self, real=None):
        self.n += 1
        p = self.plan
        return {
            "entropy": "%s/%d" % (p["entropy"], self.n),
            "hashseed": p["hashseed"] + self.n,
            "bufsize": p["bufsize"],
            "t0": p["t0"] + 1000 * self.n,
            "real_kdf": p["real"] if real is None else real,
        }

    # -- writing
    def write(self, e):
        i = e["node"] % len(self.vers)
        node, ver = self.plan["nodes"][i], self.vers[i]
        if self.lib is not None and ver == "frozen":
            ver = "ref"
        data = payload(e["data"])
        if ver != "ref" and self.plan["real"] and any(d[0] == "pw" for d in e["recips"]) and e["data"]["s"] % 4:
            ver = "ref"  # hashing at the default cost takes long
        if ver == "ref":
            extra = [(int(u["at"] * (len(e["recips"]) + 1)), unknown(u)) for u in e["unknown"]]
            blob = refage.build([key(d) for d in e["recips"]], data, self.rnd.randbytes, self.kdf, extra=extra, log_cost=e["cost"])
            text = refage.armor(blob) if e["armored"] else blob
        elif self.lib is not None:
            text = self.lib_write(self.lib, e, data)
        elif node["cli"]:
            text = self.cli_write(e, data, ver, "node%d" % i)
        else:
            st, text = self.ctx.library(lambda lib, p: self.lib_write(lib, e, data), self.sim(), seg=e["seg"], version=ver)
            if st != "ok":
                return self.ctx.violate("write", "writing a file fails: %s" % text)
        if text is None:
            return
        self.ctx.probes["write-" + ver] += 1
        self.files.append({"text": text, "data": data, "armored": e["armored"], "recips": e["recips"], "by": ver, "real": None, "odd": bool(e["unknown"]) and ver == "ref", "cost": e["cost"]})

    def lib_write(self, lib, e, data):
        sink = io.BytesIO()
        sink.close = lambda: None
        out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink) if e["armored"] else sink
        with lib.Encryptor([lib_pub(lib, d) for d in e["recips"]], out) as enc:
            enc.write(data)
        if e["armored"]:
            out.close()
        return sink.getvalue()

    def cli_write(self, e, data, ver, home):
        args, pw = world.split_recips(e["recips"])
        argv = ["encrypt"] + (["-a"] if e["armored"] else []) + (["-p"] if pw else []) + ["-o", self.ctx.path("w", "f")] + args
        h = self.ctx.home(home)
        kw = dict(stdin=data, seg=e["seg"], version=ver, passwords=[pw] if pw else ())
        if e["kill"]:
            # the node dies while writing, is restarted and writes the file again
            self.ctx.cli(argv, h, self.sim(), faults=[{"at": e["kill"], "do": "kill"}], **kw)
        r = self.ctx.cli(argv, h, self.sim(), **kw)
        if r.code != 0:
            self.ctx.violate("write", "encrypt exits with %r: %s" % (r.code, r.exc))
            return None
        return self.ctx.read("w/f")

    # -- reading
    def read(self, f, who, i, seg, ver=None, cli=None):
        ver = ver or self.vers[i]
        node = self.plan["nodes"][i]
        if self.lib is not None and ver == "frozen":
            ver = "ref"
        if self.ctx.violations:
            return
        if ver == "ref":
            blob = refage.dearmor(f["text"]) if f["armored"] else f["text"]
            kdf = real_scrypt if f["real"] else self.kdf
            got = None if blob is None else refage.decrypt(blob, [key(who)], kdf, legacy_empty=False)
            err = "it is not in the format"
        elif self.lib is not None and f["real"] in (None, self.plan["real"]):
            try:
                got = self.lib_read(self.lib, f, who, node)
                err = ""
            except Exception as e:
                e.__traceback__ = None
                got, err = None, "%s: %s" % (type(e).__name__, e)
        elif node["cli"] if cli is None else cli:
            got, err = self.cli_read(f, who, node, ver, seg, "node%d" % i)
        elif self.lib is None:
            st, v = self.ctx.library(lambda lib, p: self.lib_read(lib, f, who, node), self.sim(f["real"]), seg=seg, version=ver)
            got, err = (v, "") if st == "ok" else (None, v)
        else:
            return
        self.ctx.probes["read-%s-by-%s" % (f["by"], ver)] += 1
        if f.get("refuse"):
            if got is not None:
                self.ctx.violate("other-version", "a file that starts with %r is read as %s" % (f["refuse"], short(got)))
            return
        if got != f["data"]:
            kinds = ",".join(d[0] for d in f["recips"])
            self.ctx.violate(
                "unreadable" if got is None else "wrong-bytes",
                "a file of %d bytes for %s written by %s%s, read by %s as %s: %s %s"
                % (len(f["data"]), kinds, f["by"], " with unknown entries" if f["odd"] else "", ver, who[0], short(got), err),
            )

    def lib_read(self, lib, f, who, node):
        src = io.BytesIO(f["text"])
        if f["armored"]:
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        with lib.Decryptor([lib_priv(lib, d) for d in node["ids"] + [who]], src) as d:
            return d.read()

    def cli_read(self, f, who, node, ver, seg, home):
        self.ctx.write("w/g", f["text"])
        h = self.ctx.home(home + "r", node["ids"] + ([who] if who[0] != "pw" else []))
        pw = who[1] if who[0] == "pw" else None
        argv = ["decrypt", "-i", self.ctx.path("w", "g")] + (["-a"] if f["armored"] else []) + (["-p"] if pw else [])
        r = self.ctx.cli(argv, h, self.sim(f["real"]), seg=seg, version=ver, passwords=[pw] if pw else ())
        import shutil

        shutil.rmtree(h, ignore_errors=True)
        return (r.out, "") if r.code == 0 else (None, r.exc)

    # -- history
    def play(self):
        for e in self.plan["events"]:
            if self.ctx.violations:
                return
            if e["op"] == "swap":
                self.vers[e["node"] % len(self.vers)] = e["ver"]
            elif e["op"] == "write":
                self.write(e)
            elif e["op"] == "read" and self.files:
                f = self.files[int(e["file"] * len(self.files))]
                seg = dict(e["seg"])
                if len(f["text"]) > 5000:
                    seg = {"read": "rand", "seed": seg["seed"]}
                self.read(f, pick(f, e["who"]), e["node"] % len(self.vers), seg)
            elif e["op"] == "foreign":
                # what another format version means by the same bytes is unknown
                blob = refage.build(
                    [key(d) for d in e["recips"]], payload(e["data"]), self.rnd.randbytes, self.kdf,
                    intro=e["intro"].encode(), mac_intro=e["intro"].encode() if e["mac"] else refage.INTRO,
                )
                f = {
                    "text": refage.armor(blob) if e["armored"] else blob, "data": None, "armored": e["armored"], "recips": e["recips"],
                    "by": "another release", "real": self.plan["real"], "odd": False, "cost": 18, "refuse": e["intro"] or "an empty line",
                }
                self.read(f, pick(f, e["who"]), e["node"] % len(self.vers), {}, "study")
            elif e["op"] == "golden":
                g = golden()
                g = g[int(e["file"] * len(g))]
                f = {
                    "text": zlib.decompress(base64.b64decode(g["blob"])), "data": payload(g["data"]), "armored": g["armored"],
                    "recips": g["recips"], "by": "the original release", "real": True, "odd": False, "cost": 18,
                }
                who = pick(f, e["who"])
                if who[0] == "pw" and e["who"] > 0.3:
                    who = [d for d in f["recips"] if d[0] != "pw"]
                    if not who:
                        continue
                    who = who[0]
                i = e["node"] % len(self.vers)
                if self.lib is None:
                    self.read(f, who, i, {}, "study")

    def sweep(self):
        """In the end every version reads every file."""
        for n, f in enumerate(self.files):
            for ver in ("study", "frozen", "ref"):
                if ver == f["by"] != "study":
                    continue
                who = f["recips"][(n + self.plan["entropy"]) % len(f["recips"])]
                self.read(f, who, n % len(self.vers), {}, ver)


def pick(f, u):
    return f["recips"][int(u * len(f["recips"]))]


def run(plan, ctx):
    ctx.write("w/.keep", b"")
    if "wide" in plan:
        return run_wide(plan, ctx)
    ctx.trivial = False
    fleet = Fleet(plan, ctx)
    if plan["long"]:

        def body(lib, p):
            fleet.lib = lib
            fleet.play()
            fleet.lib = None

        st, v = ctx.library(body, fleet.sim())
        fleet.lib = None
        if st == "error":
            return ctx.violate("write", "writing a file fails: %s" % v)
    else:
        fleet.play()
    fleet.sweep()
