"""C08 - encryption addresses exactly the recipients that were named."""

import random

from .. import refage, world
from ..world import key, payload, short

ECDSA = "ecdsa-sha2-nistp256 AAAAE2VjZHNhLXNoYTItbmlzdHAyNTYAAAAIbmlzdHAyNTYAAABBBGvmc7e3hPsnRSqvSyVOjwnVnjSTZ2XlR0VnPz2Vh2eE0pvVRqrTjFoBrVLfbgoDyWVlEOhE0dV1kbp0Ww0TqgM= c"
MALFORMED = [
    "age1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
    "age1", "age1zzz", "ssh-rsa", "ssh-rsa AAAA", "ssh-rsa !!!!", "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5", "ssh-ed25519 xyz",
    "@flip-age", "@flip-age", "@cut-ssh", "@cut-age",
]


NAMES = ["friend%d"] * 6 + ["Friend%d", "FRIEND%d", "my friend %d", "fr.iend%d@host.example", "friend%d#2", "\u00e9l\u00e8ve%d", "-friend%d", "age-%d", "github%d", "ssh%d", "friend-%d_x", "0%d", "AGE1%d", "Age1x%d"]
PATHS = ["k%d"] * 5 + ["K%d.TXT", "key list %d", "keys#%d", "k%d:x", "cl\u00e9s%d", "age1k%d", "k%d.pub", "github-k%d", "ssh-rsa.k%d", "https-k%d", ".k%d", "k%d.age"]
STYLES = [None] * 6 + ["hash", "words", "tab", "bare"]


def gen_lit(r, ssh=True):
    if r.random() < 0.06:
        # all but one byte in common
        return ["age", 1000 + r.randrange(10)]
    k = r.choice(["age", "age", "age", "rsa", "ed"] if ssh else ["age"])
    return [k, {"age": r.randrange(40), "rsa": r.randrange(6), "ed": r.randrange(8)}[k]]


HOSTS = ["host%d.example"] * 6 + ["github.com/user%d", "gist.github.com/user%d", "github.com.host%d.example", "127.0.0.%d", "user%d@host.example", "w.keys%d.example."]
USERS = ["user%d"] * 4 + ["User%d", "OctoCat%d", "user-%d", "%d", "a-%d-Z", "age1%d", "user%d.keys"]


def gen_lines(r, bad):
    """Contents of a key list: keys and what may stand around them."""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if bad else r.choice([1, 1, 2, 3, 5] * 5 + [7, 12, 35])):
        out.append({"k": "key", "key": gen_lit(r), "style": r.choice(STYLES)})
    for _ in range(r.choice([0, 0, 1, 2])):
        out.insert(r.randrange(len(out) + 1), {"k": r.choice(["comment", "blank", "ecdsa", "word", "utf8"])})
    if bad == "malformed":
        out.insert(r.randrange(len(out) + 1), {"k": "bad", "text": r.choice(MALFORMED), "s": r.randrange(999)})
    elif bad == "empty":
        out = [x for x in out if x["k"] != "key"]
    return {"lines": out, "eol": r.choice(["\n", "\n", "\n", "\r\n"]), "last": r.random() < 0.8, "pad": r.random() < 0.2}


def gen_source(r, bad, kinds):
    k = r.choice(kinds)
    if k in ("lit", "litage"):
        if bad:
            return {"k": "raw", "text": r.choice(MALFORMED + ["nosuchname", "", "x y", "age", "github", "/nonexistent/file", "ecdsa"]), "s": r.randrange(999)}
        return {"k": k, "key": gen_lit(r, k == "lit"), "pad": k == "lit" and r.random() < 0.1}
    if k == "file":
        b = r.choice(["malformed", "empty", "missing"]) if bad else None
        return {"k": "file", "name": r.choice(PATHS), "missing": b == "missing", "list": gen_lines(r, b)}
    s = {"k": k, "status": 200, "list": None, "te": r.choice(["length", "length", "chunked", "close"]), "hops": r.choice([0, 0, 0, 1, 2]), "path": r.choice(["/keys"] * 4 + ["/Keys?user=1&x=2", "/a;b/keys", "/~bob/keys.txt", ":8080/keys"]), "host": r.choice(HOSTS), "user": r.choice(USERS), "seed": r.randrange(999)}
    b = None
    if bad:
        b = r.choice(["malformed", "empty", "status", "status", "cut", "cut", "refuse", "hang", "unknown", "html"])
        if b == "status":
            s["status"] = r.choice([404, 404, 403, 500, 503, 410])
        elif b == "cut":
            s["te"] = r.choice(["length", "length", "chunked"])
            s["cut"] = r.random()
            s["how"] = r.choice(["fin", "fin", "reset", "stall"])
        elif b in ("refuse", "hang", "unknown", "html"):
            s[b] = True
    s["list"] = gen_lines(r, b if b in ("malformed", "empty") else None)
    return s


def gen_arg(r, bad):
    if r.random() < 0.3:
        # an alias with several values
        n = r.choice([1, 1, 2, 3])
        vals = [gen_source(r, False, ["litage", "litage", "file", "url", "github"]) for _ in range(n)]
        how = None
        if bad:
            how = r.choice(["value", "value", "novalues", "nested"])
            if how == "value":
                vals[r.randrange(n)] = gen_source(r, True, ["lit", "file", "url", "github"])
            elif how == "novalues":
                vals = []
        return {"k": "alias", "name": r.choice(NAMES), "vals": vals, "split": r.random() < 0.25, "how": how}
    return gen_source(r, bad, ["lit", "lit", "lit", "file", "file", "url", "github"])


def gen(r, tier):
    n = r.choice([1, 1, 2, 2, 3, 5])
    if r.random() < 0.02:
        n = r.choice([20, 33, 60])
    plan = {
        "args": [gen_arg(r, False) for _ in range(n)],
        "pw": r.choice([None, None, None, r.choice(world.PASSWORDS)]),
        "data": {"n": r.choice([0, 1, 100, 66000]), "s": r.randrange(99)},
        "armored": r.random() < 0.2,
        "out": r.choice(["file", "capture"]),
        "near": r.random() < 0.4,
        "entropy": r.randrange(1 << 30),
        "bufsize": r.choice([None, None, 32, 4096]),
        "seg": {"read": r.choice([None, "rand", 3, 100]), "seed": r.randrange(1 << 16)},
        "other": r.random() < 0.4,
        "decoys": r.random() < 0.4,
        "dup": r.random() < 0.15,
        "faults": [],
        "pad": None,
    }
    if r.random() < 0.06:
        # long lists: comments before or between the keys
        plan["pad"] = {"n": r.choice([500, 5000, 9000, 70000, 140000]), "u": r.random()}
        plan["seg"]["read"] = None
    if r.random() < 0.4:
        plan["args"][r.randrange(n)] = gen_arg(r, True)
    elif r.random() < 0.5:
        f = {"on": r.choice(["open", "read", "read", "connect", "net-read", "net-read", "prompt"]), "u": r.random(), "do": "err", "errno": r.choice(world.ERRS_READ + [13, 104])}
        if f["on"] in ("open", "read"):
            f["target"] = r.choice(["w/k", "w/k", "home/.config/age/aliases.txt"])
        elif f["on"] == "prompt":
            f["do"] = "eof"
        plan["faults"] = [f]
    return plan


def malformed(text, seed):
    r = random.Random(seed)
    if text == "@flip-age":
        t = list(key(["age", seed % 40]).pub)
        i = 4 + r.randrange(len(t) - 4)
        t[i] = r.choice([c for c in refage.CH if c != t[i]])
        return "".join(t)
    if text == "@cut-age":
        t = key(["age", seed % 40]).pub
        return t[: 10 + r.randrange(len(t) - 11)]
    if text == "@cut-ssh":
        t = key(["ed", seed % 8]).pub.split()
        return t[0] + " " + t[1][: 4 * r.randrange(1, 11)]
    return text


class World:
    """Builds files, URLs and aliases; computes what every argument means."""

    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.plan = plan
        self.http = {}
        self.aliases = ""
        self.names, self.decoys = [], []
        self.n = 0

    def text(self, spec):
        """(text, keys or None when malformed)."""
        out, keys, ok = [], [], True
        for x in spec["lines"]:
            k = x["k"]
            if k == "key":
                t = key(x["key"]).pub
                if x["key"][0] != "age":
                    if x["key"][1] % 2:
                        t = " ".join(t.split()[:2])
                    t = {"hash": t + " #1 of bob", "words": t + " a b: c, d", "tab": t + "\tx", "bare": " ".join(t.split()[:2])}.get(x.get("style"), t)
                keys.append(x["key"])
            elif k == "bad":
                t = malformed(x["text"], x["s"])
                ok = False
            else:
                t = {"comment": "# age comment", "blank": "", "ecdsa": ECDSA, "word": "hello world", "utf8": "# cl\u00e9 de Zo\u00eb \u2603"}[k]
            out.append("  %s\t" % t if spec["pad"] and k == "key" else t)
        pad = self.plan.get("pad")
        if pad:
            at = int(pad["u"] * (len(out) + 1))
            out[at:at] = ["# " + "%06d " % i * 8 for i in range(pad["n"] // 60)]
        text = spec["eol"].join(out) + (spec["eol"] if spec["last"] else "")
        return text, (keys if ok else None)

    def source(self, s):
        """(argument string, list of keys or None if it must fail)."""
        k = s["k"]
        self.n += 1
        if k in ("lit", "litage"):
            t = key(s["key"]).pub
            return (" %s " % t if s.get("pad") else t), [s["key"]]
        if k == "raw":
            return malformed(s["text"], s["s"]), None
        if k == "file":
            name = "w/" + s.get("name", "k%d") % self.n
            if self.plan.get("decoys"):
                for other in (name + ".pub", name + ".txt", name + "~", "w/" + name[2:].swapcase()):
                    if self.ctx.read(other) is None:
                        self.ctx.write(other, key(["age", 45]).pub + "\n")
            if s["missing"]:
                return self.ctx.path(name), None
            text, keys = self.text(s["list"])
            self.ctx.write(name, text)
            return self.ctx.path(name), keys or None
        if k == "github":
            user = s.get("user", "user%d") % self.n
            arg, url = "github:" + user, "https://github.com/%s.keys" % user
        else:
            arg = url = ["https", "http"][self.n % 2] + "://" + s.get("host", "host%d.example") % self.n + s.get("path", "/keys")
        return arg, self.url(url, s)

    def url(self, url, s):
        text, keys = self.text(s["list"])
        for h in range(s["hops"]):
            nxt = "https://hop%d-%d.example/k" % (self.n, h)
            self.http[url] = {"wire": ("HTTP/1.1 %d Moved\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n" % ([301, 302, 307][h % 3], nxt)).encode()}
            url = nxt
        if s.get("unknown"):
            return None
        if s.get("refuse") or s.get("hang"):
            self.http[url] = {"wire": b"", "refuse": s.get("refuse"), "hang": s.get("hang")}
            return None
        if s.get("html"):
            text, keys = "<html><body>ssh-rsa keys</body></html>\n", None
        body = text.encode()
        head = "HTTP/1.1 %d X\r\nContent-Type: text/plain; charset=utf-8\r\n" % s["status"]
        cut = None
        if s["te"] == "chunked":
            r = random.Random(s["seed"])
            pieces = b""
            pos = 0
            while pos < len(body):
                k = r.randrange(1, 200)
                c = body[pos : pos + k]
                pieces += b"%x\r\n" % len(c) + c + b"\r\n"
                pos += k
            wire_body = pieces + b"0\r\n\r\n"
            head += "Transfer-Encoding: chunked\r\n\r\n"
            last = len(pieces) - 2
        elif s["te"] == "length":
            head += "Content-Length: %d\r\n\r\n" % len(body)
            wire_body = body
            last = len(body)
        else:
            head += "Connection: close\r\n\r\n"
            wire_body = body
            last = 0
        wire = head.encode() + wire_body
        spec = {"wire": wire}
        if "cut" in s and last > 0:
            cut = len(head) + int(s["cut"] * last) if s["seed"] % 5 else int(s["cut"] * len(head))
            spec["cut"] = cut
            spec["how"] = s["how"]
            keys = None
        self.http[url] = spec
        if s["status"] != 200:
            return None
        return keys or None

    def arg(self, a):
        if a["k"] != "alias":
            return self.source(a)
        self.n += 1
        name = a.get("name", "friend%d") % self.n
        if self.plan.get("decoys"):
            for other in (name.lower(), name.upper(), name.swapcase(), name + "x", name[:-1], name.split()[0]):
                self.decoys.append(other.strip())
        self.names.append(name)
        keys = []
        vals = []
        for v in a["vals"]:
            t, ks = self.source(v)
            if len(t.split()) != 1:
                # not expressible as an alias value; it becomes several words
                ks = None
                t = t.replace(" ", "_") or "_"
            vals.append(t)
            keys = None if ks is None or keys is None else keys + ks
        if a["how"] == "nested":
            self.aliases += "inner%d: %s\n" % (self.n, key(["age", 1]).pub)
            vals.append("inner%d" % self.n)
            keys = None
        if a["split"] and len(vals) > 1:
            self.aliases += "%s: %s\n# comment\n%s: %s\n" % (name, vals[0], name, " ".join(vals[1:]))
        else:
            self.aliases += "%s: %s\n" % (name, " ".join(vals))
        return name, (keys or None)


def run(plan, ctx):
    data = payload(plan["data"])
    w = World(plan, ctx)
    args, expect = [], []
    for a in plan["args"]:
        t, ks = w.arg(a)
        args.append(t)
        expect = None if ks is None or expect is None else expect + ks
    if plan["dup"] and args:
        args.append(args[0])
        if expect is not None:
            expect = expect + w_keys(plan, ctx)
    if plan["pad"] and w.aliases:
        w.aliases = "".join("pad%d: %s\n" % (i, key(["age", 46]).pub) for i in range(plan["pad"]["n"] // 75)) + w.aliases
    for name in w.decoys:
        if name and name not in w.names and "inner" not in name and name not in ("github", "age", "ecdsa"):
            w.aliases += "%s: %s\n" % (name, key(["age", 45]).pub)
    if plan["other"]:
        w.aliases += "stranger: %s\nempty:\n" % key(["age", 45]).pub
    pw = plan["pw"]
    if expect is not None and pw is not None:
        expect = expect + [["pw", pw]]
    ctx.write("w/in", data)
    home = ctx.home("home", aliases=w.aliases or None)
    old = b"previous"

    def once(faults, name):
        argv = ["encrypt"] + (["-a"] if plan["armored"] else []) + (["-p"] if pw is not None else [])
        argv += ["-i", ctx.path("w", "in")]
        if plan["out"] == "file":
            argv += ["-o", ctx.write("w/out", old)]
        argv.append("--")
        s = ctx.sim({"entropy": plan["entropy"], "bufsize": plan["bufsize"]})
        s.world["http"] = w.http
        r = ctx.cli(argv + args, home, sim=s, name=name, seg=plan["seg"], faults=faults, passwords=[pw] if pw is not None else (), near=plan["near"])
        return r, (r.out if plan["out"] == "capture" else ctx.read("w/out"))

    r, out = once((), "dry")
    ctx.trivial = len(plan["args"]) < 2 and expect is not None and plan["args"][0]["k"] == "lit"
    if check(plan, ctx, data, args, expect, r, out, "") or not plan["faults"]:
        return
    faults = world.resolve(plan["faults"], r.events)
    if not faults:
        return
    r, out = once(faults, "f")
    if not r.fired:
        return
    ctx.trivial = False
    # the failing source is one that a named recipient needs, except the alias file
    needed = not faults[0].get("target", "").startswith("home/")
    if faults[0]["on"] == "close":
        needed = False
    if r.code == 0 and needed and not retried(r):
        return ctx.violate("ignored-failure", "%s while resolving %r is ignored, exit 0" % ([x for _, x in r.fired], args))
    check(plan, ctx, data, args, expect if r.code == 0 else None, r, out, " after %s" % [x for _, x in r.fired])


def retried(r):
    """The same source was asked again after the fault."""
    at = r.fired[0][0]
    _, kind, target = [e for e in r.events if e[0] == at][0]
    opener = {"read": "open", "net-read": "connect"}.get(kind, kind)
    return any(e[0] > at and e[1] == opener and e[2].split(":r")[0] == target.split(":r")[0] for e in r.events)


def w_keys(plan, ctx):
    w = World(plan, ctx)
    return w.arg(plan["args"][0])[1] or []


def opens(ctx, raw, stanza, k):
    return refage.unwrap(stanza, k, world.kdf) is not None


def check(plan, ctx, data, args, expect, r, out, why):
    arm = plan["armored"]
    raw = out
    if arm and out:
        raw = refage.dearmor(out)
    if expect is None:
        if r.code == 0:
            ctx.violate("accepted", "recipients %r%s should fail, but encrypt exits 0" % (args, why))
            return True
        ctx.probes["refused"] += 1
        if out and out != b"previous":
            for d in everyone(plan):
                got = ctx.judge(out, [d], arm, d[1] if d[0] == "pw" else None)
                if got is not None:
                    ctx.violate("output-left", "encrypt to %r%s fails but leaves a file that %r opens" % (args, why, d))
                    return True
        return False
    ctx.probes["accepted"] += 1
    if r.code != 0:
        ctx.violate("refused", "encrypt to %r%s exits %r: %s" % (args, why, r.code, r.exc))
        return True
    p = refage.parse(raw) if raw else None
    if p is None:
        ctx.violate("no-output", "encrypt exits 0 but its output is no age file: %s" % short(out))
        return True
    distinct = []
    for d in expect:
        if d not in distinct:
            distinct.append(d)
    left = list(p.stanzas)
    for d in expect:
        for s in left:
            if refage.unwrap(s, key(d), world.kdf) is not None:
                left.remove(s)
                break
        else:
            if expect.count(d) > 1 and any(refage.unwrap(s, key(d), world.kdf) is not None for s in p.stanzas):
                continue  # named twice, one entry
            if ctx.judge(out, [d], arm, d[1] if d[0] == "pw" else None) != data:
                ctx.violate("missing", "%r names %r%s, but that key cannot open the output" % (args, d, why))
                return True
    if left:
        ctx.violate("extra", "the output has %d entries, the arguments %r%s name %d keys" % (len(p.stanzas), args, why, len(expect)))
        return True
    for d in distinct[:2]:
        if ctx.judge(out, [d], arm, d[1] if d[0] == "pw" else None) != data:
            ctx.violate("missing", "%r names %r%s, but that key does not decrypt the output" % (args, d, why))
            return True
    return False


def everyone(plan):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "key" in x:
                out.append(x["key"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(plan["args"])
    if plan["pw"] is not None:
        out.append(["pw", plan["pw"]])
    uniq = []
    for d in out:
        if d not in uniq:
            uniq.append(d)
    return uniq
