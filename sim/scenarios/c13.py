"""C13 - a hostile header cannot command unbounded key-derivation work."""

import io
import random

from .. import damage, refage, world
from ..world import key, lib_priv, payload, short

LIMIT = (1 << 22) * 8
LEGIT = list(range(1, 23))
BAD = [
    "23", "24", "25", "30", "31", "32", "33", "40", "48", "63", "64", "65", "100", "128", "255", "256", "1000", "65536",
    "4294967296", "4294967318", "18446744073709551616", "9" * 30, "-1", "-22", "-64", "-0", "+23", "+64", "023", "0023",
    "00000000000000000000000000000030", "2_3", "6_4", "1e2", "1e1", "0x17", "0x40", "0b11111", "0o33", "\u0662\u0663", "\u0666\u0664", "\uff12\uff13", "23.0",
    "22.9", "64.0", "", "x", "NaN", "inf", "23\x00", "True", "22 23", "23 18", "18 23", "18 64 1",
]
EDGE = ["22", "+22", "022", "2_2", "\u0662\u0662", "0", "00", "+0", "1", "01", "18"]


def gen_entry(r):
    x = r.random()
    if x < 0.45:
        return {"k": "bad", "cost": r.choice(BAD) if r.random() < 0.8 else str(r.randrange(23, 1 << r.choice([5, 8, 16, 40]))), "salt": r.choice([16, 16, 16, 0, 8, 32, 1000]), "s": r.randrange(999)}
    if x < 0.6:
        return {"k": "bad", "cost": r.choice(EDGE), "salt": 16, "s": r.randrange(999)}
    if x < 0.8:
        return {"k": "noise", "cost": str(r.choice(LEGIT)), "salt": 16, "s": r.randrange(999)}
    if x < 0.9:
        return {"k": "dup"}
    return {"k": "other", "key": r.choice([["age", r.randrange(40)], ["ed", r.randrange(8)], ["rsa", r.randrange(6)]])}


def gen(r, tier):
    n = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < 0.93 else r.choice([50, 300])
    plan = {
        "pw": r.choice(world.PASSWORDS),
        "offer": r.choice(["right", "right", "wrong"]),
        "cost": r.choice(LEGIT + [18, 18, 18, 18, 22, 22, 1]),
        "entries": [gen_entry(r) for _ in range(n)],
        "has": r.random() < 0.75,  # does the file contain a real password entry?
        "at": r.random(),
        "resign": r.random() < 0.7,  # the forger knows the password and signs the header again
        "data": {"n": r.choice([0, 10, 100]), "s": r.randrange(99)},
        "armored": r.random() < 0.2,
        "ids": [["age", r.randrange(40)] for _ in range(r.choice([0, 0, 1]))],
        "lib": r.random() < 0.4,
        "pws": r.choice([1, 1, 1, 2, 3]),
        "damage": damage.gen(r) if r.random() < 0.15 else None,
        "raw": r.random() < 0.1,
        "hashseed": r.randrange(999),
        "bigbody": r.random() < 0.05,
    }
    if plan["damage"]:
        plan["damage"]["region"] = r.choice(["header", "recs", "args", "args"])
    return plan


def build(plan):
    """(blob, index of the stanza that must open it or None)"""
    r = random.Random(repr(plan["entries"]))
    fk = r.randbytes(16)
    stanzas = []
    k = refage.Password(plan["pw"])
    real = refage.wrap(k, fk, r.randbytes, world.kdf, plan["cost"]) if plan["has"] else None
    for e in plan["entries"]:
        if e["k"] == "other":
            stanzas.append(refage.wrap(key(e["key"]), fk, r.randbytes, world.kdf))
        elif e["k"] == "dup":
            if real:
                stanzas.append(real)
        else:
            rr = random.Random(e["s"])
            body = refage.b64(rr.randbytes(32 if not plan["bigbody"] else 3000))
            args = [refage.b64(rr.randbytes(e["salt"]))] + ([e["cost"]] if e["cost"] else [])
            stanzas.append(("scrypt", [a for a in args if a], body))
    if real:
        stanzas.insert(int(plan["at"] * (len(stanzas) + 1)), real)
    data = payload(plan["data"])
    text = refage.header_text(stanzas).decode().encode("utf-8", "surrogatepass")
    import hashlib
    import hmac

    mac = hmac.new(refage.hkdf(b"", b"header", fk, 32), text, hashlib.sha256).digest() if plan["resign"] else r.randbytes(32)
    blob = text + b" " + refage.b64(mac).encode() + b"\n" + refage.seal_payload(fk, r.randbytes(16), data)
    return blob, stanzas, real, data


def in_range(cost):
    try:
        return 0 <= int(cost) <= 22
    except ValueError:
        return False


def run(plan, ctx):
    blob, stanzas, real, data = build(plan)
    if plan["damage"]:
        blob = damage.apply(blob, plan["damage"], world.ref_blob([["pw", "other"]], b"x", 3))
    text = refage.armor(blob) if plan["armored"] else blob
    ctx.trivial = not plan["entries"] and not plan["damage"]
    ctx.write("w/in", text)
    good = plan["offer"] == "right"
    pw = plan["pw"] if good else "not that one"
    s = ctx.sim({"hashseed": plan["hashseed"]})
    if plan["lib"]:
        offered = [["pw", "phrase %d" % i] for i in range(plan["pws"] - 1)] + [["pw", pw]]

        def fn(lib, p):
            src = io.BytesIO(text)
            if plan["armored"]:
                src = lib.AsciiArmoredInput(lib.AGE_PEM_LABEL, src)
            with lib.Decryptor([lib_priv(lib, d) for d in plan["ids"] + offered], src) as d:
                return d.read()

        st, out = ctx.library(fn, sim=s)
        ok = st == "ok"
        phrases = len(offered)
    else:
        home = ctx.home("home", plan["ids"])
        argv = ["decrypt", "-p", "-i", ctx.path("w/in")] + (["-a"] if plan["armored"] else [])
        r = ctx.cli(argv, home, sim=s, passwords=[pw])
        ok, out = r.code == 0, r.out
        phrases = 1
    entries = sum(1 for t in stanzas if t[0] == "scrypt")
    if plan["damage"]:
        # count what the damaged text can be read as
        entries = max(entries, blob.count(b"scrypt"))
    ctx.probes["hashings"] += len(s.kdf)
    for name, n, rr, pp in s.kdf:
        if n * rr * pp > LIMIT:
            return ctx.violate("cost", "password hashing with cost N=%d r=%d p=%d" % (n, rr, pp))
    if len(s.kdf) > entries * phrases:
        return ctx.violate("count", "%d password hashings for %d password entries and %d passphrases" % (len(s.kdf), entries, phrases))
    if plan["damage"]:
        if ok and out != data:
            ctx.violate("wrong-bytes", "damaged header, decrypted %s" % short(out))
        return
    # entries that are out of range cause no hashing at all
    legal = sum(1 for t in stanzas if t[0] == "scrypt" and any(in_range(a) for w in t[1] for a in w.split(" ")))
    if len(s.kdf) > legal * phrases:
        return ctx.violate("refused-late", "%d password hashings, only %d entries have an admissible cost" % (len(s.kdf), legal))
    if len(s.kdf) < legal:
        ctx.probes["stopped-early"] += 1
    if ok:
        if out != data:
            return ctx.violate("wrong-bytes", "decrypted %s instead of %s" % (short(out), short(data)))
        if not plan["resign"]:
            return ctx.violate("unsigned", "a header with a wrong authentication code is accepted")
        ctx.probes["opened"] += 1
        return
    # legitimate costs still work
    strange = [e for e in plan["entries"] if e["k"] == "bad"]
    if plan["has"] and good and plan["resign"] and not strange:
        return ctx.violate("legit-refused", "a file with cost %d does not open: %s" % (plan["cost"], out if plan["lib"] else r.exc))
    ctx.probes["refused"] += 1
