"""C14 - armored files survive text transport."""

import io
import random

from .. import proc, refage, seams, world
from ..world import lib_priv, lib_pub, payload, short
from .c01 import gen_seg, sink_of, source_of

TEXTS = [
    "Hello,\n\nplease find the file below.\n",
    "> quoted\n> text\n",
    "-- \nAlice\n",
    "-----\nrule\n-----\n",
    "----- forwarded message -----\n",
    "\n",
    "\n\n\n\n",
    " \t \n",
    "Gr\u00fc\u00dfe \u2603 \U0001f600\n",
    "SGVsbG8gV29ybGQ=\nSGVsbG8gV29ybGQ=\n",
    "Content-Type: text/plain; charset=utf-8\nX-Y: z\n\n",
    "=" * 76 + "\n",
    "begin 644 file\nend\n",
    "a" * 9000 + "\n",
    ("lorem ipsum \u00e4\u2603 " * 40 + "\n") * 30,
    "age-encryption.org/v1\n-> X25519 abc\n--- x\n",
    "-----\tBEGIN\n",
    "null\0byte\n",
    "Gr\udcfc\udcdfe in Latin-1 \udcff\udcfe\n",
    "Shift-JIS \udc83e\udc83X\udc83g and a stray \udce2\udc82\n",
    "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA512\n\n",
    "-----BEGIN PGP SIGNATURE-----\n\niQEzBAEBCgAdFiEE\n=abcd\n-----END PGP SIGNATURE-----\n",
    "-----BEGIN PGP PUBLIC KEY BLOCK-----\nVersion: GnuPG v2\n\nmQEN\n=abcd\n-----END PGP PUBLIC KEY BLOCK-----\n",
    "-----BEGIN CERTIFICATE-----\nMIIB\n-----END CERTIFICATE-----\n",
    "-----BEGIN CERTIFICATE-----\n" + "QUJD" * 19 + "\nQQ==\n-----END CERTIFICATE-----\n",
    "-----BEGIN PGP MESSAGE-----\n[...]\n",
    "-----BEGIN AGE ENCRYPTED FILES-----\n",
    "-----BEGIN  FORWARDED-----\n-----BEGIN -----\n-----BEGIN original message-----\n",
    "-----END PGP MESSAGE-----\n-----END AGE ENCRYPTED FIL-----\n",
    "form\x0cfeed\x0bvt\x1cfs\x85nel\u2028ls\n",
]

OPS = (
    ["drop", "drop", "dropmany", "dup", "dup", "swap", "swap", "move", "reverse", "truncbyte", "truncbyte", "truncline", "cutline"]
    + ["sub", "sub", "sub", "flip", "flip", "delbyte", "delbyte", "insbyte", "insbyte", "insspace", "merge", "merge", "split", "split"]
    + ["refold", "upper", "quote", "indent", "trail", "blank", "blankend", "urlsafe", "pad", "pad", "dashes", "dropend", "dropbegin", "dupend", "dupbegin"]
    + ["splice", "splice", "twice", "twoAB", "twoAB", "twoBA", "twoBA", "nest", "endlessAB", "otherlabel", "relabel", "cr", "nul", "bom", "nonascii", "garble", "hexline", "shuffle"]
)


WORDS = ["see", "below:", "-", "--", "-----", "-----BEGIN", "BEGIN", "X-----", "-----END", "KEY-----", "=", "==", "QUJD", "Gr\u00fc\u00dfe", "->", "---", "#", ":", "age1", "\udcff", "0", "..."]


def gen_text(r):
    # numbers beyond the list stand for drawn text
    return [r.choice([r.randrange(len(TEXTS)), 1000 + r.randrange(1 << 20)]) for _ in range(r.choice([1, 1, 2, 4]))] if r.random() < 0.5 else []


def text_of(i):
    if i < len(TEXTS):
        return TEXTS[i]
    r = random.Random("text:%d" % i)
    out = ""
    for _ in range(r.choice([1, 1, 2, 5])):
        words = [r.choice(WORDS) for _ in range(r.choice([0, 1, 2, 3, 8]))]
        line = r.choice(["", "", " ", "    ", "\t", "> ", "> > ", "| ", "* ", "- ", "# ", "// "]) + r.choice([" ", " ", "", "\t"]).join(words) + r.choice(["", "", "", " ", "\t", "\\", "-", "="])
        out += line + "\n"
    return out


def gen(r, tier):
    recips = [["age", r.randrange(40)]] if r.random() < 0.5 else world.gen_recips(r, 3)
    plan = {
        "mode": r.choice(["clean", "clean", "damage", "damage", "damage", "layer"]),
        "data": world.gen_data(r, 0.12),
        "recips": recips,
        "who": r.random(),
        "maker": r.choice(["lib", "lib", "cli", "ref"]),
        "reader": r.choice(["lib", "lib", "lib", "cli", "clifile", "pipe"]),
        "pre": gen_text(r),
        "post": gen_text(r),
        "crlf": r.choice(["no", "no", "all", "all", "block", "around"]),
        "eseg": gen_seg(r),
        "dseg": gen_seg(r),
        "sink": r.choice(["raw", "raw", "buffered", "bytesio", "file", "rawfile"]),
        "source": r.choice(["raw", "raw", "buffered", "bytesio", "file", "rawfile"]),
        "bufsize": r.choice([None, None, 16, 100, 4096, 65536]),
        "entropy": r.randrange(1 << 30),
        "cap": r.choice([1, 16, 100, 4096, 65536]),
        "unbuffered": r.random() < 0.3,
        "sched": {"seed": r.randrange(1 << 30), "p_io": r.choice([0.1, 0.5])},
        "reads": r.choice([0, 0, 1, 10, 1000]),
        "ops": [],
        "faults": [],
    }
    if r.random() < 0.3:
        # sizes around the lines of the text: 48 bytes make one full line
        plan["data"]["n"] = r.randrange(0, 200)
    if plan["mode"] == "damage":
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            plan["ops"].append({"op": r.choice(OPS), "u": r.random(), "v": r.random(), "seed": r.randrange(1 << 20)})
        if r.random() < 0.1:
            plan["faults"].append({"on": "read", "nth": r.choice([1, 2, 3, 5]), "do": "err", "errno": r.choice(world.ERRS_READ)})
    n = plan["data"]["n"]
    if min(plan["cap"], plan["bufsize"] or 4096) < 101 and n > 15000:
        plan["data"]["n"] = n % 15000
    if plan["reader"] == "pipe" and plan["cap"] < 101 and plan["data"]["n"] > 3000:
        plan["data"]["n"] %= 3000
    n = plan["data"]["n"]
    for k in ("eseg", "dseg"):
        for d in ("read", "write"):
            v = plan[k].get(d)
            if isinstance(v, int) and n // max(v, 1) > 300:
                plan[k][d] = "rand"
    return plan


# -- transport ------------------------------------------------------------------


def damage_lines(lines, op, other, r):
    """One act of damage to a list of lines; lines[0] and lines[-1] are the markers."""
    k, u, v = op["op"], op["u"], op["v"]
    n = len(lines)
    if n < 2:
        return lines
    body = range(1, n - 1)
    i = 1 + int(u * max(n - 2, 1)) if n > 2 else 0
    j = 1 + int(v * max(n - 2, 1)) if n > 2 else 0
    anyl = int(u * n)
    out = list(lines)
    if k == "drop":
        del out[i]
    elif k == "dropmany":
        del out[min(i, j) : max(i, j) + 1]
    elif k == "dup":
        out.insert(j, out[i])
    elif k == "swap":
        if i == j:
            j = i - 1 if i > 1 else min(i + 1, n - 2)
        out[i], out[j] = out[j], out[i]
    elif k == "move":
        out.insert(j, out.pop(i))
    elif k == "reverse":
        out[1:-1] = out[-2:0:-1]
    elif k == "shuffle":
        m = out[1:-1]
        r.shuffle(m)
        out[1:-1] = m
    elif k == "truncline":
        del out[max(anyl, 1) :]
    elif k == "cutline":
        out[anyl] = out[anyl][: int(v * len(out[anyl]))]
    elif k == "dropend":
        out.pop()
    elif k == "dropbegin":
        out.pop(0)
    elif k == "dupend":
        out.insert(max(i, 1), out[-1])
    elif k == "dupbegin":
        out.insert(max(i, 1), out[0])
    elif k == "merge":
        a = min(anyl, n - 2)
        out[a : a + 2] = [out[a] + out[a + 1]]
    elif k == "split":
        c = int(v * (len(out[anyl]) + 1))
        out[anyl : anyl + 1] = [out[anyl][:c], out[anyl][c:]]
    elif k == "refold":
        w = r.choice([1, 3, 60, 63, 65, 72, 76, 80, 128, 10000])
        t = "".join(out[1:-1])
        out[1:-1] = [t[x : x + w] for x in range(0, len(t), w)]
    elif k == "upper":
        out[i] = out[i].swapcase()
    elif k == "quote":
        if u < 0.5:
            out = ["> " + x for x in out]
        else:
            out[anyl] = "> " + out[anyl]
    elif k == "indent":
        out = [" " * r.randrange(1, 4) + x if r.random() < v else x for x in out]
    elif k == "trail":
        out = [x + r.choice([" ", "\t", "  "]) if r.random() < v else x for x in out]
    elif k == "blank":
        out.insert(max(1, i), "")
    elif k == "blankend":
        out.insert(len(out) - 1, "")
    elif k == "urlsafe":
        out[1:-1] = [x.replace("+", "-").replace("/", "_") for x in out[1:-1]]
    elif k == "pad":
        out[i] += r.choice(["=", "==", "A", "AAAA", "====", "A===", "-"])
    elif k == "dashes":
        m = r.choice([0, -1])
        out[m] = r.choice([out[m][1:], out[m][:-1], "-" + out[m], out[m] + "-", out[m].replace("-----", "- - -"), out[m].lower(), out[m].replace(" ", "  ")])
    elif k == "splice":
        out[i] = other[min(i, len(other) - 1)]
    elif k == "twice":
        out = out + out
    elif k == "twoAB":
        out = out + other
    elif k == "twoBA":
        out = other + out
    elif k == "nest":
        out = out[: max(i, 1)] + other + out[max(i, 1) :]
    elif k == "endlessAB":
        out = out[:-1] + other
    elif k == "otherlabel":
        lab = r.choice(["CERTIFICATE", "AGE ENCRYPTED FIL", "AGE ENCRYPTED FILES", "PGP MESSAGE", "AGE"])
        o = ["-----BEGIN %s-----" % lab] + other[1:-1] + ["-----END %s-----" % lab]
        out = out + o if v < 0.5 else o + out
    elif k == "relabel":
        m = r.choice([0, -1])
        out[m] = out[m].replace("AGE ENCRYPTED FILE", r.choice(["AGE", "AGE ENCRYPTED FILES", "CERTIFICATE", "", "age encrypted file"]))
    elif k == "hexline":
        out[i] = out[i].encode("utf-8", "surrogateescape").hex()[:64]
    _ = body
    return out


def damage_bytes(b, op, r):
    k = op["op"]
    if not b:
        return b
    at = min(int(op["u"] * len(b)), len(b) - 1)
    out = bytearray(b)
    if k == "truncbyte":
        del out[at:]
    elif k == "sub":
        out[at] = r.choice(b"ABCabc019+/=-_ \n\r\t.>\0")
    elif k == "flip":
        out[at] ^= 1 << int(op["v"] * 8)
    elif k == "delbyte":
        del out[at : at + r.choice([1, 1, 2, 4, 4, 8, 64, 65])]
    elif k == "insbyte":
        out[at:at] = r.choice([b"A", b"AAAA", b"=", b"==", b"-", b"\n", b"\r", b"\x00", b"\x1a", b"%", b"=20", b"=\n"])
    elif k == "insspace":
        out[at:at] = r.choice([b" ", b"\t", b"    ", b"\x0b", b"\x0c", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbb\xbf"])
    elif k == "cr":
        # every line ending becomes a lone carriage return or a doubled one
        out = bytearray(bytes(out).replace(b"\n", r.choice([b"\r", b"\r\r\n", b"\n\r", b"\n\n"])))
    elif k == "nul":
        out = bytearray(bytes(out).replace(b"\n", b"\n\0", 1 if op["v"] < 0.5 else -1))
    elif k == "bom":
        out[0:0] = r.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff"])
    elif k == "nonascii":
        out[at] = r.choice([0x80, 0xC3, 0xFF, 0xE2])
    elif k == "garble":
        for _ in range(r.choice([2, 5, 30])):
            out[r.randrange(len(out))] = r.randrange(256)
    return bytes(out)


BYTE_OPS = {"truncbyte", "sub", "flip", "delbyte", "insbyte", "insspace", "cr", "nul", "bom", "nonascii", "garble"}


def transport(plan, text, other):
    """What arrives after the text went through mail, paste bins and bad disks."""
    late = []
    ops = list(plan["ops"])
    if ops:
        lines = text.decode("ascii").split("\n")[:-1]
        olines = other.decode("ascii").split("\n")[:-1]
        for op in ops:
            if op["op"] in BYTE_OPS:
                late.append(op)
                continue
            lines = damage_lines(lines, op, olines, random.Random("op:%s" % op["seed"]))
        text = ("\n".join(lines) + "\n").encode("utf-8", "surrogateescape")
    for op in late:
        text = damage_bytes(text, op, random.Random("op:%s" % op["seed"]))
    pre = "".join(text_of(i) for i in plan["pre"]).encode("utf-8", "surrogateescape")
    post = "".join(text_of(i) for i in plan["post"]).encode("utf-8", "surrogateescape")
    crlf = plan["crlf"]
    if crlf in ("all", "block"):
        text = text.replace(b"\n", b"\r\n")
    if crlf in ("all", "around"):
        pre, post = pre.replace(b"\n", b"\r\n"), post.replace(b"\n", b"\r\n")
    if text and post and not text.endswith(b"\n"):
        post = b"\n" + post
    return pre + text + post


# -- the run ----------------------------------------------------------------------


def check_format(ctx, text):
    """Statement 1: exactly one block, short ASCII lines, nothing around it."""
    try:
        lines = text.decode("ascii").split("\n")
    except UnicodeDecodeError:
        ctx.violate("format", "armored output is not ASCII")
        return None
    if lines[-1] == "":
        lines.pop()
    lines = [x[:-1] if x.endswith("\r") else x for x in lines]
    if len(lines) < 2 or lines[0] != refage.BEGIN or lines[-1] != refage.END:
        ctx.violate("format", "armored output does not begin and end with the marker lines")
        return None
    for x in lines[1:-1]:
        if len(x) > 64:
            ctx.violate("format", "armored line of %d characters" % len(x))
            return None
        if x.startswith("-----"):
            ctx.violate("format", "a marker inside the armored block")
            return None
    try:
        return refage.base64.b64decode("".join(lines[1:-1]), validate=True)
    except ValueError:
        ctx.violate("format", "armored text is not base64")
        return None


def simplan(plan, **kw):
    d = {"entropy": plan["entropy"], "bufsize": plan["bufsize"]}
    d.update(kw)
    return d


def make(plan, ctx, data):
    """The armored file, or None after a violation."""
    if plan["maker"] == "ref":
        return world.ref_blob(plan["recips"], data, plan["entropy"], armored=True)
    if plan["maker"] == "cli":
        args, pw = world.split_recips(plan["recips"])
        argv = ["encrypt", "-a"] + (["-p"] if pw else []) + args
        r = ctx.cli(
            argv, ctx.home("h1"), simplan(plan), name="enc", stdin=data, seg=plan["eseg"], unbuffered=plan["unbuffered"],
            passwords=[pw] if pw else (),
        )
        if r.code != 0:
            ctx.violate("encrypt-fails", "encrypt -a exits with %r: %s" % (r.code, r.exc))
            return None
        return r.out
    st, text = write_armored(plan, ctx, data, True)
    if st != "ok":
        ctx.violate("encrypt-fails", "writing armored output fails: %s" % text)
        return None
    return text


def write_armored(plan, ctx, data, encrypt):
    path = ctx.path("w", "sink")

    def enc(lib, p):
        dev = seams.Dev("sink")
        sink = sink_of(plan["sink"], p, dev, path, plan["bufsize"])
        out = lib.AsciiArmoredOutput(lib.AGE_PEM_LABEL, sink)
        if encrypt:
            with lib.Encryptor([lib_pub(lib, d) for d in plan["recips"]], out) as e:
                e.write(data)
        else:
            rr = random.Random(plan["entropy"])
            pos = 0
            while pos < len(data):
                k = rr.choice([1, 47, 48, 49, 1000, 1 << 30])
                if out.write(data[pos : pos + k]) != len(data[pos : pos + k]):
                    raise AssertionError("short write")
                pos += k
        out.close()
        if plan["sink"] == "bytesio":
            return sink.getvalue()
        if not sink.closed:
            sink.flush()
            sink.close()
        if plan["sink"] in ("file", "rawfile"):
            return None
        return bytes(dev.data)

    st, text = ctx.library(enc, simplan(plan), seg=plan["eseg"], name="enc")
    return st, ctx.read("w/sink") if st == "ok" and text is None else text


def receive(plan, ctx, text, who):
    """(True, plaintext) or (False, reason)."""
    ctx.write("w/source", text)
    if plan["reader"] == "lib":

        def dec(lib, p):
            src = source_of(plan["source"], p, text, ctx.path("w", "source"), plan["bufsize"])
            src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
            with lib.Decryptor([lib_priv(lib, who)], src) as d:
                return d.read()

        st, v = ctx.library(dec, simplan(plan), seg=plan["dseg"], name="dec", faults=plan["faults"])
        return st == "ok", v
    home = ctx.home("h2", [who])
    pw = who[1] if who[0] == "pw" else None
    argv = ["decrypt", "-a"] + (["-p"] if pw else [])
    kw = {"seg": plan["dseg"], "unbuffered": plan["unbuffered"], "passwords": [pw] if pw else (), "name": "dec"}
    if plan["reader"] == "pipe":
        s = ctx.sim(simplan(plan, sched=plan["sched"]))
        pipe = seams.Pipe("mid", plan["cap"])
        fp = s.proc("feeder", home)
        proc.open_std(fp, proc.Std(b"", ("pipe", pipe)))
        p2 = s.proc("dec", home, seg=plan["dseg"], unbuffered=plan["unbuffered"], passwords=kw["passwords"], faults=plan["faults"])
        proc.open_std(p2, proc.Std(("pipe", pipe), ("capture",)))
        ctx.nprocs += 2

        def write():
            import sys

            rr = random.Random(plan["entropy"])
            pos = 0
            while pos < len(text):
                k = rr.choice([1, 30, 65, 1000, 20000])
                sys.stdout.buffer.write(text[pos : pos + k])
                sys.stdout.buffer.flush()
                pos += k

        s.spawn("feeder", lambda: proc.interpret(fp, write), fp)
        s.spawn("dec", proc.cli(p2, argv), p2)
        s.run()
        if s.deadlock or s.capped:
            ctx.violate("no-progress", "decrypt -a blocks forever")
        return p2.code == 0, bytes(p2.out.data) if p2.code == 0 else getattr(p2, "exc", None)
    if plan["reader"] == "clifile":
        argv += ["-i", ctx.path("w", "source"), "-o", ctx.path("w", "out")]
        r = ctx.cli(argv, home, simplan(plan), faults=plan["faults"], **kw)
        return r.code == 0, (ctx.read("w/out") if r.code == 0 else r.exc)
    r = ctx.cli(argv, home, simplan(plan), stdin=text, faults=plan["faults"], **kw)
    return r.code == 0, (r.out if r.code == 0 else r.exc)


def run_layer(plan, ctx, data):
    """The armor alone, for every kind of data."""
    st, text = write_armored(plan, ctx, data, False)
    if st != "ok":
        return ctx.violate("encrypt-fails", "writing armored output fails: %s" % text)
    got = check_format(ctx, text)
    if got is None:
        return
    if got != data:
        return ctx.violate("wrong-armor", "armored text carries %s instead of %s" % (short(got), short(data)))
    moved = transport(plan, text, b"")
    ctx.write("w/source", moved)

    def dec(lib, p):
        src = source_of(plan["source"], p, moved, ctx.path("w", "source"), plan["bufsize"])
        a = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
        k = plan["reads"]
        if not k:
            return a.read()
        if k < 100 and len(data) > 3000:
            k = 500
        parts = []
        while True:
            x = a.read(k)
            if not x:
                return b"".join(parts)
            parts.append(x)

    st, got = ctx.library(dec, simplan(plan), seg=plan["dseg"], name="dec")
    if st != "ok":
        return ctx.violate("transported", "armored text cannot be read after transport: %s" % got)
    if got != data:
        ctx.violate("wrong-armor", "armored text reads as %s instead of %s" % (short(got), short(data)))


def run(plan, ctx):
    data = payload(plan["data"])
    ctx.write("w/.keep", b"")
    ctx.trivial = not (plan["ops"] or plan["pre"] or plan["post"] or plan["crlf"] != "no")
    if plan["mode"] == "layer":
        return run_layer(plan, ctx, data)
    rec = plan["recips"]
    who = rec[min(int(plan["who"] * len(rec)), len(rec) - 1)]
    text = make(plan, ctx, data)
    if text is None:
        return
    blob = check_format(ctx, text)
    if blob is None:
        return
    if refage.decrypt(blob, [world.key(who)], world.kdf) != data:
        return ctx.violate("wrong-armor", "the armored file does not carry the encrypted data")
    odata = b"another message" * (1 + plan["data"]["n"] // 17)
    other = world.ref_blob([who], odata, 7, armored=True)
    moved = transport(plan, text, other)
    ok, got = receive(plan, ctx, moved, who)
    if ok:
        # when the begin line of the file itself is lost, the other block is all there is
        gone = sum(1 for x in moved.replace(b"\r", b"\n").split(b"\n") if x == refage.BEGIN.encode()) < 2
        if got != data and not (gone and got == odata):
            kinds = ",".join(o["op"] for o in plan["ops"]) or "harmless transport"
            return ctx.violate("wrong-bytes", "after %s decryption returns %s instead of %s" % (kinds, short(got), short(data)))
        ctx.probes["opened"] += 1
    elif not plan["ops"] and not plan["faults"]:
        return ctx.violate("transported", "the file does not open after CRLF conversion or added text: %s" % (got,))
    else:
        ctx.probes["refused"] += 1
