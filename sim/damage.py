"""Storage damage to age files: what a bad disk or an attacker in the middle does."""

import random

from . import refage

CT = refage.CHUNK + 16


def layout(blob):
    """Offsets of the parts: header lines, payload nonce and chunks."""
    pos = 0
    recs = []
    lines = []
    while True:
        end = blob.find(b"\n", pos)
        if end < 0:
            return None
        line = blob[pos:end]
        lines.append((pos, end))
        if line.startswith(b"->"):
            recs.append([pos, end + 1])
        elif line.startswith(b"---"):
            mac = (pos, end)
            pay = end + 1
            break
        elif recs:
            recs[-1][1] = end + 1
        pos = end + 1
    chunks = []
    p = pay + 16
    while p < len(blob):
        chunks.append((p, min(p + CT, len(blob))))
        p += CT
    return {"recs": recs, "mac": mac, "pay": pay, "chunks": chunks, "lines": lines}


def gen(r):
    op = r.choice(
        ["flip"] * 6 + ["sub"] * 3 + ["trunc"] * 5 + ["append"] * 3 + ["insert", "delete", "zero", "zero"]
        + ["chunkdrop", "chunkdrop", "chunkdup", "chunkswap", "chunkswap", "chunksplice", "chunksplice"]
        + ["recdrop", "recdup", "recswap", "recsplice", "recinsert", "recmove"]
        + ["macsplice", "maccut", "macdel", "noncesplice", "paysplice", "paysplice", "hdrsplice", "space", "space", "final"]
        + ["argadd", "argadd", "argdrop", "argswap", "argset", "case", "case", "retype", "bodymove", "bodyadd"]
    )
    return {
        "op": op,
        "region": r.choice(["any", "header", "recs", "rec", "mac", "nonce", "chunk", "chunk", "tag", "tag", "lastchunk", "body", "args"]),
        "u": r.random(),
        "v": r.random(),
        "bit": r.randrange(8),
        "n": r.choice([1, 1, 2, 15, 16, 17, 32, 100, 512, CT]),
        "seed": r.randrange(1 << 20),
    }


def span(blob, lay, region, r):
    """A byte range of the named part."""
    if lay is None:
        return 0, len(blob)
    if region == "header":
        return 0, lay["pay"]
    if region in ("recs", "rec", "body", "args") and lay["recs"]:
        if region == "recs":
            return lay["recs"][0][0], lay["recs"][-1][1]
        a, b = r.choice(lay["recs"])
        nl = blob.find(b"\n", a) + 1
        if region == "args":
            return a, nl
        if region == "body" and nl < b:
            return nl, b
        return a, b
    if region == "mac":
        return lay["mac"]
    if region == "nonce":
        return lay["pay"], min(lay["pay"] + 16, len(blob))
    if region in ("chunk", "tag", "lastchunk") and lay["chunks"]:
        a, b = lay["chunks"][-1] if region == "lastchunk" else r.choice(lay["chunks"])
        if region == "tag":
            return max(a, b - 16), b
        return a, b
    return 0, len(blob)


def edges(blob, lay):
    """Interesting lengths to cut a file to."""
    out = [0, 1, len(blob) - 1, len(blob) - 16]
    if lay:
        for a, b in lay["lines"]:
            out += [a, b, b + 1]
        out += [lay["pay"] + i for i in (0, 1, 8, 15, 16, 17, 31, 32)]
        for a, b in lay["chunks"]:
            out += [a, a + 1, a + 15, a + 16, b - 1, b - 16, b]
    return sorted({x for x in out if 0 <= x < len(blob)})


WORDS = ("argadd", "argdrop", "argswap", "argset", "case", "retype", "bodymove", "bodyadd")


def words(op, w, lines, r, rec, i):
    """Change the words of one recipient entry: "->", kind, arguments and body."""
    if len(w) < 2:
        w.append(b"x")
        return
    if op == "argadd":
        for _ in range(r.choice([1, 1, 2, 3])):
            at = len(w) if r.random() < 0.7 else r.randrange(2, len(w) + 1)
            w.insert(at, r.choice([b"x", b"0", b"AAAA", r.choice(w[1:]), b"%d" % r.randrange(100)]))
    elif op == "argdrop":
        if len(w) > 2:
            del w[r.choice([len(w) - 1, r.randrange(2, len(w))])]
    elif op == "argswap":
        if len(w) > 3:
            a, b = r.sample(range(2, len(w)), 2)
            w[a], w[b] = w[b], w[a]
    elif op == "argset":
        if len(w) > 2:
            w[r.randrange(2, len(w))] = r.choice([b"x", b"0", b"18", b"A" * 43])
    elif op == "case":
        k = r.randrange(4)
        if k == 0:
            w[1] = w[1].swapcase()
        elif k == 1 and len(w) > 2:
            j = r.randrange(2, len(w))
            w[j] = w[j].swapcase()
        else:
            j = r.randrange(1, len(w))
            at = r.randrange(len(w[j]) or 1)
            w[j] = w[j][:at] + w[j][at : at + 1].swapcase() + w[j][at + 1 :]
    elif op == "retype":
        w[1] = r.choice([b"X25519", b"scrypt", b"ssh-rsa", b"ssh-ed25519", b"grease", w[1] + b"2", w[1][:-1] or b"y"])
    elif op == "bodymove":
        # a word of the arguments becomes the body, or the other way round
        if r.random() < 0.5 and len(w) > 2:
            lines.insert(0, w.pop())
        elif lines:
            w.append(lines.pop(0))
    elif lines:
        lines.append(r.choice([b"AAAA", b"A" * 64, b"=", lines[0]]))
    else:
        lines.append(b"AAAA")


def apply(blob, d, other):
    """Damaged copy of `blob`; `other` is another file for splicing."""
    r = random.Random("dmg:%s" % d["seed"])
    lay = layout(blob)
    lo = layout(other)
    op = d["op"]
    if not blob:
        return blob
    a, b = span(blob, lay, d["region"], r)
    if b <= a:
        a, b = 0, len(blob)
    at = min(a + int(d["u"] * (b - a)), b - 1)
    out = bytearray(blob)
    if op == "flip":
        out[at] ^= 1 << d["bit"]
    elif op == "sub":
        out[at] = r.choice(b"\n\r \0+/=-_.>AZaz09\xff") if r.random() < 0.5 else r.randrange(256)
    elif op == "trunc":
        if d["v"] < 0.7:
            del out[r.choice(edges(blob, lay) or [0]) :]
        else:
            del out[at:]
    elif op == "append":
        kind = r.randrange(4)
        if kind == 0:
            out += bytes(d["n"])
        elif kind == 1:
            out += r.randbytes(d["n"])
        elif kind == 2:
            out += b"\n"
        elif lay and lay["chunks"]:
            x, y = lay["chunks"][-1]
            out += blob[x:y]
        else:
            out += b"\0"
    elif op == "insert":
        out[at:at] = r.choice([b"\n", b" ", b"\0", b"A", r.randbytes(d["n"])])
    elif op == "delete":
        del out[at : at + min(d["n"], 600)]
    elif op == "zero":
        k = r.choice([1, 16, 512, 4096])
        x = at // k * k
        out[x : x + k] = bytes(len(out[x : x + k]))
    elif lay is None:
        out[at] ^= 1
    elif op.startswith("chunk") or op == "final":
        ch = [bytes(blob[x:y]) for x, y in lay["chunks"]]
        if ch:
            i, j = int(d["u"] * len(ch)), int(d["v"] * len(ch))
            if op == "chunkdrop":
                del ch[i]
            elif op == "chunkdup":
                ch.insert(j, ch[i])
            elif op == "chunkswap" and len(ch) > d.get("step", len(ch)) + 1:
                # chunks whose numbers have the same last byte
                i = int(d["u"] * (len(ch) - d["step"] - 1))
                j = i + d["step"]
                ch[i], ch[j] = ch[j], ch[i] if d["v"] < 0.7 else ch[j]
            elif op == "chunkswap":
                if i == j:
                    j = (i + 1) % len(ch)
                ch[i], ch[j] = ch[j], ch[i]
            elif op == "final":
                # drop a number of last chunks, as an interrupted transfer does
                ch = ch[: max(0, int(d["u"] * len(ch)))]
            elif lo and lo["chunks"]:
                x, y = r.choice(lo["chunks"])
                ch[i] = bytes(other[x:y])
        out = bytearray(blob[: lay["pay"] + 16] + b"".join(ch))
    elif op.startswith("rec"):
        rec = [bytes(blob[x:y]) for x, y in lay["recs"]]
        if rec:
            i, j = int(d["u"] * len(rec)), int(d["v"] * len(rec))
            if op == "recdrop":
                del rec[i]
            elif op == "recdup":
                rec.insert(j, rec[i])
            elif op == "recswap" and len(rec) > 1:
                if i == j:
                    j = (i + 1) % len(rec)
                rec[i], rec[j] = rec[j], rec[i]
            elif op == "recmove" and len(rec) > 1:
                rec.append(rec.pop(i))
            elif op == "recsplice" and lo and lo["recs"]:
                x, y = r.choice(lo["recs"])
                if r.random() < 0.5:
                    rec[i] = bytes(other[x:y])
                else:
                    rec.insert(j, bytes(other[x:y]))
            else:
                rec.insert(j, r.choice([b"-> grease\nAAAA\n", b"-> X\n", b"-> unknown a b c\n" + b"QUFB" * 16 + b"\nQUFB\n"]))
        x = lay["recs"][0][0] if lay["recs"] else lay["mac"][0]
        out = bytearray(blob[:x] + b"".join(rec) + blob[lay["mac"][0] :])
    elif op in WORDS:
        rec = [bytes(blob[x:y]) for x, y in lay["recs"]]
        if rec:
            i = int(d["u"] * len(rec))
            head, _, body = rec[i].partition(b"\n")
            w = head.split(b" ")
            lines = body.split(b"\n")[:-1]
            words(op, w, lines, r, rec, i)
            rec[i] = b" ".join(w) + b"\n" + b"".join(x + b"\n" for x in lines)
            x, y = lay["recs"][0][0], lay["recs"][-1][1]
            out = bytearray(blob[:x] + b"".join(rec) + blob[y:])
    elif op == "macsplice" and lo:
        x, y = lo["mac"]
        out = bytearray(blob[: lay["mac"][0]] + other[x:y] + blob[lay["mac"][1] :])
    elif op == "maccut":
        x, y = lay["mac"]
        k = 1 + int(d["u"] * (y - x - 4))
        out = bytearray(blob[: y - k] + blob[y:])
    elif op == "macdel":
        x, y = lay["mac"]
        out = bytearray(blob[:x] + r.choice([b"---", b"--- ", b"--- A", b"", b"--- " + b"A" * 43]) + blob[y:])
    elif op == "noncesplice" and lo:
        p, q = lay["pay"], lo["pay"]
        out = bytearray(blob[:p] + other[q : q + 16] + blob[p + 16 :])
    elif op == "paysplice" and lo:
        out = bytearray(blob[: lay["pay"]] + other[lo["pay"] :])
    elif op == "hdrsplice" and lo:
        out = bytearray(other[: lo["pay"]] + blob[lay["pay"] :])
    elif op == "space":
        x, y = r.choice(lay["lines"])
        k = r.randrange(5)
        if k == 0:
            out[y:y] = b" "
        elif k == 1:
            out[y:y] = b"\r"
        elif k == 2:
            out[y:y] = b"\n"
        elif k == 3:
            sp = blob.find(b" ", x, y)
            if sp >= 0:
                out[sp:sp] = b" "
        else:
            out[x:x] = b" "
    else:
        out[at] ^= 1 << d["bit"]
    return bytes(out)


def material(orig, damaged):
    """True: content differs.  False: same content.  None: cannot be told."""
    a, b = refage.parse(orig), refage.parse(damaged)
    if a is None or b is None:
        return None
    return not refage.same_content(a, b)
