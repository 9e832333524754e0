"""C12 - private keys, passphrases and plaintext go only where they belong."""

import base64
import os
import random
import re

from .. import damage, refage, seams, world
from ..world import key, short

PWS = ["correct horse battery staple", "Tr0ub4dor-and-3-more", "p\u00e4ssw\u00f6rd w\u00efth \u00fcmlauts", "passphrase-of-the-vault", "   spaces inside   and around   "]
W = 16  # characters of a secret that count as a leak


# entries that no sender makes, with which an attacker provokes errors
FORGED = ["cost", "cost", "negcost", "shortsalt", "scrypt-body", "x-body", "x-share", "ed-tag", "ed-body", "rsa-tag", "rsa-body", "noargs"]


def forged(kind, r, ids):
    b = refage.b64
    tags = {k: [key(d).tag for d in ids if d[0] == k] or [r.randbytes(4)] for k in ("ed", "rsa")}
    tag = {k: b(r.choice(v)) for k, v in tags.items()}
    return {
        "cost": ("scrypt", [b(r.randbytes(16)), r.choice(["23", "63", "99", "1000"])], b(r.randbytes(32))),
        "negcost": ("scrypt", [b(r.randbytes(16)), "-1"], b(r.randbytes(32))),
        "shortsalt": ("scrypt", [b(r.randbytes(3)), "5"], b(r.randbytes(32))),
        "scrypt-body": ("scrypt", [b(r.randbytes(16)), "5"], b(r.randbytes(r.choice([3, 15, 31, 64])))),
        "x-body": ("X25519", [b(r.randbytes(32))], b(r.randbytes(r.choice([3, 15, 31, 64])))),
        "x-share": ("X25519", [b(r.randbytes(r.choice([31, 33])))], b(r.randbytes(32))),
        "ed-tag": ("ssh-ed25519", [b(r.randbytes(4)), b(r.randbytes(32))], b(r.randbytes(32))),
        "ed-body": ("ssh-ed25519", [tag["ed"], b(r.randbytes(32))], b(r.randbytes(r.choice([3, 32])))),
        "rsa-tag": ("ssh-rsa", [b(r.randbytes(4))], b(r.randbytes(256))),
        "rsa-body": ("ssh-rsa", [tag["rsa"]], b(r.randbytes(r.choice([3, 128, 256, 257, 512])))),
        "noargs": (r.choice(["X25519", "scrypt", "ssh-rsa", "ssh-ed25519"]), [], b(r.randbytes(32))),
    }[kind]


def gen(r, tier):
    cmd = r.choice(["enc", "enc", "dec", "dec", "dec", "dec", "gen", "tty", "lib"])
    plan = {
        "cmd": cmd,
        "n": r.choice([40, 100, 1000, 1000, 66000]) if r.random() < 0.98 else 1100000,
        "s": r.randrange(1 << 20),
        "recips": world.gen_recips(r, 3),
        "armored": r.random() < 0.3,
        "pw": r.choice(PWS),
        "who": r.random(),
        "unbuffered": r.random() < 0.3,
        "infile": r.random() < 0.6,
        "out": r.choice(["file", "file", "stdout", "capture"]),
        "term": r.random() < 0.4,
        "near": r.random() < 0.3,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 64]),
        "ids": [r.choice([["age", r.randrange(40)], ["rsa", r.randrange(6)], ["ed", r.randrange(8)]]) for _ in range(r.choice([0, 1, 2, 4]))],
        "mess": r.choice([None, None, None, None, None, None, "badline", "badline", "cutkey", "lowkey", "torn-ssh", "enc-ssh", "dupkeys"]),
        "damage": damage.gen(r) if r.random() < 0.25 else None,
        "armordmg": r.random() if r.random() < 0.15 else None,
        "nomatch": r.random() < 0.15,
        "badpw": r.random() < 0.15,
        "unknown": r.random() < 0.2,
        "extra": None if r.random() < 0.75 else r.choice([ "nosuchname", "age1qqqqqqqqqq", "ssh-rsa AAAA", "@privkey", "@privssh", "@secretfile", "@privlit"]),
        "forged": [r.choice(FORGED) for _ in range(r.choice([1, 1, 2, 4]))] if r.random() < 0.3 else [],
        "offer": r.random() < 0.3,
        "faults": [],
    }
    if r.random() < 0.6:
        f = {"on": r.choice(["any", "any", "read", "write", "open", "close", "entropy", "kdf", "prompt", "scandir"]), "u": r.random(), "do": r.choice(["err", "err", "int", "alloc"]), "errno": r.choice([5, 28, 13, 32]), "when": "before"}
        if f["on"] == "write" and r.random() < 0.5:
            f.update(do="torn", frac=r.random())
        if f["on"] == "prompt" and r.random() < 0.5:
            f["do"] = "eof"
        if r.random() < 0.8:
            f["not_target"] = "stderr"
        plan["faults"] = [f]
    elif r.random() < 0.2:
        plan["line"] = [r.random(), r.random()]  # interrupt at a line of the package
    if cmd == "lib":
        plan["faults"] = []
        plan["what"] = r.choice(["repr", "repr", "enc", "dec"])
    return plan


def plaintext(plan):
    r = random.Random("c12:%s" % plan["s"])
    out = "".join("secret record %s;\n" % r.randbytes(12).hex() for _ in range(plan["n"] // 40 + 1))
    return out.encode()


class Secrets:
    """What must not be seen, as sets of short windows."""

    def __init__(self):
        self.win = {}
        self.public = ""

    def text(self, label, s):
        if isinstance(s, bytes):
            s = s.decode("latin-1")
        n = min(W, len(s))
        if len(s) < 8:
            return
        for i in range(0, len(s) - n + 1):
            w = s[i : i + n]
            if len(set(w)) < 5 or w in self.public:
                continue
            self.win.setdefault(n, {}).setdefault(w, label)

    def raw(self, label, b):
        if len(b) < 12:
            return
        self.text(label, b)
        self.text(label, b.hex())
        self.text(label, b.hex().upper())
        for i in range(3):
            # the text differs with the position in a longer one
            self.text(label, refage.b64(bytes(i) + b)[4 if i else 0 : -2])
        self.text(label, base64.urlsafe_b64encode(b).rstrip(b"="))
        self.text(label, repr(bytes(b))[2:-1])
        self.text(label, str(int.from_bytes(b, "big")))
        self.text(label, str(int.from_bytes(b, "little")))

    def find(self, data):
        """Label of the first secret seen in data, or None."""
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        s = data.decode("latin-1")
        for n, wins in self.win.items():
            for i in range(0, len(s) - n + 1):
                lab = wins.get(s[i : i + n])
                if lab is not None:
                    return "%s (%r)" % (lab, s[max(0, i - 10) : i + n + 4])
        return None

    def password(self, label, pw):
        for v in (pw, pw.encode().decode("latin-1")):
            self.win.setdefault(len(v), {})[v] = label
        self.raw(label, pw.encode())

    def age(self, label, k):
        s = k.priv[len("AGE-SECRET-KEY-1") :]
        self.text(label, s)
        self.text(label, s.lower())
        self.raw(label, k.secret)

    def ssh(self, label, k):
        priv = "".join(x for x in k.priv.split("\n") if not x.startswith("-----"))
        pub = k.pub.split()[1]
        # the private file contains the public key, too
        public = {pub[i : i + W] for i in range(len(pub) - W + 1)}
        blob = base64.b64decode(priv)
        for i in range(0, len(priv) - W + 1):
            w = priv[i : i + W]
            if w not in public and not covers_public(blob, i, k.blob) and len(set(w)) > 4:
                self.win.setdefault(W, {}).setdefault(w, label)
        pn = k.key.private_numbers() if hasattr(k.key, "private_numbers") else None
        if pn is not None:
            for v in (pn.d, pn.p, pn.q):
                self.raw(label, v.to_bytes((v.bit_length() + 7) // 8, "big"))
        else:
            from cryptography.hazmat.primitives import serialization as ser

            self.raw(label, k.key.private_bytes(ser.Encoding.Raw, ser.PrivateFormat.Raw, ser.NoEncryption()))


def covers_public(blob, i, pubblob):
    """Does window i of the base64 text lie in a public part of the file?"""
    a, b = i * 3 // 4, (i + W) * 3 // 4 + 1
    if b <= len(pubblob) + 120 and blob.startswith(b"openssh-key-v1"):
        return True
    part = blob[a + 1 : b - 1]
    return len(part) > 4 and part in pubblob


BADKEY = "AGE-SECRET-KEY-1"


def setup(plan, ctx):
    sec = Secrets()
    recips = [[d[0], plan["pw"]] if d[0] == "pw" else d for d in plan["recips"]]
    pt = plaintext(plan)
    who = recips[min(int(plan["who"] * len(recips)), len(recips) - 1)]
    ids = [d for d in plan["ids"] if d not in recips]
    if not plan["nomatch"] and who[0] != "pw":
        ids.insert(len(ids) // 2, who)
    sec.public = " ".join(key(d).pub for d in ids + recips if d[0] != "pw")
    for d in ids:
        k = key(d)
        (sec.age if d[0] == "age" else sec.ssh)("private key %r" % (d,), k)
    sec.password("passphrase", plan["pw"])
    wrong = "an entirely different phrase"
    sec.password("offered passphrase", wrong)
    sec.text("plaintext", pt[:200])
    sec.raw("plaintext", pt[:48])
    sec.text("plaintext", pt[-100:])
    sec.text("plaintext", pt[65500:65600])
    # a further key whose line in the key file is damaged
    mess = plan["mess"]
    extra = ""
    k = key(["age", 50])
    line = k.priv
    if mess == "badline":
        i = 20 + plan["s"] % 40
        c = "Q" if line[i] != "Q" else "P"
        line = line[:i] + c + line[i + 1 :]
    elif mess == "cutkey":
        line = line[: 30 + plan["s"] % 40]
    elif mess == "lowkey":
        line = "key: " + line
    if mess in ("badline", "cutkey", "lowkey"):
        extra = "# mine\n%s\n" % line
        sec.age("damaged private key", k)
        sec.text("damaged private key", line[16:])
    elif mess == "dupkeys":
        extra = k.keyfile() * 2
        sec.age("private key", k)
    home = ctx.home("home", ids, extra_keys=extra if plan["s"] % 2 else "")
    keyfiles = []
    if extra and not plan["s"] % 2:
        keyfiles = [ctx.write("w/mykeys.txt", extra)]
    if mess == "torn-ssh":
        k = key(["ed", 7])
        sec.ssh("torn SSH key", k)
        ctx.write("home/.ssh/id_torn", k.priv[: int(len(k.priv) * 0.8)])
    elif mess == "enc-ssh":
        k = key(["rsa", 3])
        ctx.write("home/.ssh/id_prot", k.priv.replace("RSA PRIVATE", "ENCRYPTED PRIVATE"))
        sec.ssh("odd SSH key", k)
    return sec, recips, pt, who, ids, home, keyfiles, wrong


def run(plan, ctx):
    if plan["cmd"] == "lib":
        return run_lib(plan, ctx)
    sec, recips, pt, who, ids, home, keyfiles, wrong = setup(plan, ctx)
    cmd = plan["cmd"]
    argv, stdin, pws, source = [], b"", [], None
    private = []  # names of files that may hold secrets
    if cmd in ("enc", "tty"):
        args, pw = world.split_recips(recips)
        argv = ["encrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw else [])
        pws = [pw] if pw else []
        x = plan["extra"]
        if x and cmd == "enc":
            if x[0] == "@":
                # the user names the wrong thing: a private key where a public one belongs
                kk = key(["age", 51])
                sec.age("mistaken private key", kk)
                if x == "@privkey":
                    x = ctx.write("w/mistake", kk.keyfile())
                elif x == "@privlit":
                    x = ctx.write("w/mistake", "x\n" + kk.priv + "\n")
                elif x == "@privssh":
                    k2 = key(["ed", 6])
                    sec.ssh("mistaken private key", k2)
                    x = ctx.write("w/mistake", k2.priv)
                else:
                    x = ctx.write("w/mistake", b"\xff\xfe" + pt[:300])
                private.append("w/mistake")
            args.insert(0, x)
        argv += args
        source = pt
    elif cmd == "dec":
        blob = world.ref_blob(recips, pt, plan["s"], extra=extras(plan, ids))
        fk = refage.file_key_of(blob, [key(d) for d in recips], world.kdf)[1]
        sec.raw("file key", fk)
        if plan["damage"]:
            blob = damage.apply(blob, plan["damage"], world.ref_blob(recips, b"x", 1))
        if plan["armored"]:
            blob = refage.armor(blob)
            if plan["armordmg"] is not None:
                i = int(plan["armordmg"] * len(blob))
                blob = blob[:i] + b"*" + blob[i + 1 :]
        source = blob
        argv = ["decrypt"] + (["-a"] if plan["armored"] else [])
        if who[0] == "pw" or plan["offer"]:
            argv.append("-p")
            pws = [wrong if plan["badpw"] else plan["pw"]]
        argv += keyfiles
    else:
        argv = ["generate"]

    def once(faults, name, line=None):
        a = list(argv)
        si = b""
        if source is not None:
            if plan["infile"]:
                a[1:1] = ["-i", ctx.write("w/in", source)]
            else:
                si = source
        sout = ("capture",)
        if cmd == "tty":
            sout = ("tty",)
        elif plan["out"] == "file":
            a[1:1] = ["-o", ctx.write("w/out", b"")]
            if plan["term"]:
                sout = ("tty",)
        elif plan["out"] == "stdout":
            sout = ("file", ctx.write("w/out", b""))
        # other secrets in the second run, so that a shifted draw is not taken for a leak
        s = ctx.sim({"entropy": plan["entropy"] + len(faults) + (line or 0), "bufsize": plan["bufsize"], "record": True})
        r = ctx.cli(a, home, sim=s, name=name, stdin=si, stdout=sout, passwords=pws, unbuffered=plan["unbuffered"], faults=faults, line=line, near=plan["near"])
        r.echoed = s.world.get("echoed")
        r.net = s.net
        return r

    before = files(ctx)
    line = plan.get("line")
    r = once((), "dry", 0 if line else None)
    if judge(plan, ctx, sec, r, cmd, before, private, recips):
        return
    if line:
        r = once((), "f", r.sim.pick_line(*line))
    else:
        faults = world.resolve(plan["faults"], r.events)
        if not faults:
            return
        r = once(faults, "f")
    if not r.fired:
        return
    ctx.trivial = False
    judge(plan, ctx, sec, r, cmd, before, private, recips)


def extras(plan, ids):
    r = random.Random("forged:%s" % plan["s"])
    out = [(0, ("future", ["a"], refage.b64(bytes(30))))] if plan["unknown"] else []
    return out + [(0, forged(k, r, ids)) for k in plan["forged"]]


def files(ctx):
    out = set()
    for d, _, names in os.walk(ctx.dir):
        for n in names:
            out.add(os.path.relpath(os.path.join(d, n), ctx.dir))
    return out


def judge(plan, ctx, sec, r, cmd, before, private, recips):
    why = " after %s" % [w for _, w in r.fired] if r.fired else ""
    if r.code != 0:
        ctx.trivial = False
        ctx.probes["failed"] += 1
    else:
        ctx.probes["succeeded"] += 1
    if cmd == "gen":
        for text in (r.out, ctx.read("w/out") or b""):
            for m in re.findall(rb"AGE-SECRET-KEY-1([0-9A-Z]{20,})", text.upper()):
                sec.text("generated key", m.decode())
                sec.text("generated key", m.decode().lower())
                s = refage.unbech32("AGE-SECRET-KEY-1" + m.decode())[1]
                if s and len(s) == 32:
                    sec.raw("generated key", s)
        for d in r_draws(ctx):
            if len(d) == 32:
                sec.raw("generated key", d)
                sec.age("generated key", refage.Age(d))
    if cmd in ("enc", "tty"):
        raw = ctx.read("w/out") if plan["out"] != "capture" and cmd != "tty" else r.out
        b = refage.dearmor(raw) if plan["armored"] and raw else raw
        if b:
            p, fk = refage.file_key_of(b, [key(d) for d in recips], world.kdf)
            if fk:
                sec.raw("file key", fk)
        hit = sec.find(raw or b"")
        if hit:
            ctx.violate("leak-output", "the output of encrypt holds %s%s" % (hit, why))
            return True
    hit = sec.find(r.err)
    if hit:
        ctx.violate("leak-stderr", "standard error shows %s%s" % (hit, why))
        return True
    if r.echoed:
        ctx.violate("echo", "the passphrase is typed visibly")
        return True
    if plan["out"] == "file" and cmd != "tty":
        hit = sec.find(r.out)
        if hit:
            ctx.violate("leak-stdout", "standard output shows %s although the output is a file%s" % (hit, why))
            return True
    for e in r.net:
        hit = sec.find(str(e))
        if hit:
            ctx.violate("leak-net", "a request shows %s" % hit)
            return True
    ok = {"w/out", "w/in"} | set(private)
    for f in sorted(files(ctx) - before - ok):
        hit = sec.find((ctx.read(f) or b"")[:200000])
        if hit:
            ctx.violate("leak-file", "%s holds %s%s" % (f, hit, why))
            return True
    # files that are gone by now, such as temporary ones
    for f, d in sorted(r.sim.wrote.items()):
        if f not in ok and f not in ("stdout", "stderr"):
            hit = sec.find(bytes(d))
            if hit:
                ctx.violate("leak-temporary", "%s held %s for a while%s" % (f, hit, why))
                return True
    if cmd == "tty":
        if r.code == 0 or r.out:
            ctx.violate("tty", "encrypt to a terminal exits %r and writes %s" % (r.code, short(r.out)))
            return True
        ctx.trivial = False
    if cmd == "dec" and r.code == 0 and plan["out"] == "file":
        pass
    return False


def r_draws(ctx):
    return ctx.sims[-1].drawn


def run_lib(plan, ctx):
    """What a program that logs key objects and errors would print."""
    sec, recips, pt, who, ids, home, keyfiles, wrong = setup(plan, ctx)
    ctx.trivial = False
    texts = []

    def fn(lib, p):
        keys = [world.lib_priv(lib, d) for d in ids + [["pw", plan["pw"]]]]
        if plan["what"] == "repr":
            for k in keys:
                texts.append(repr(k))
            return
        try:
            if plan["what"] == "enc":
                dev = seams.Dev("sink")
                with lib.Encryptor([world.lib_pub(lib, d) for d in recips], seams.SimOut(p, "sink", dev=dev)) as e:
                    e.write(pt)
                texts.append(repr(e))
            else:
                import io

                blob = world.ref_blob(recips, pt, plan["s"], extra=extras(plan, ids))
                if plan["damage"]:
                    blob = damage.apply(blob, plan["damage"], world.ref_blob(recips, b"x", 1))
                with lib.Decryptor(keys, io.BytesIO(blob)) as d:
                    texts.append(repr(d))
        except Exception as e:
            texts.append("%s %r" % (e, e))
            e.__traceback__ = None

    ctx.library(fn, {"entropy": plan["entropy"]}, home=home)
    for t in texts + [bytes(ctx.last.err.data).decode("utf-8", "replace")]:
        hit = sec.find(t)
        if hit:
            return ctx.violate("leak-text", "a printed object or error shows %s" % hit)


_ = BADKEY
