"""Appends pairs of SSH keys whose 4-byte tags are equal to sim/fixtures/keys.json (run once)."""

import hashlib
import json
import os
import random
import struct

from cryptography.hazmat.primitives import serialization as S
from cryptography.hazmat.primitives.asymmetric import ed25519, rsa

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "fixtures", "keys.json")
out = json.load(open(path))
out["ssh-ed25519"] = out["ssh-ed25519"][:8]
out["ssh-rsa"] = out["ssh-rsa"][:10]
F = S.PrivateFormat


def text(k):
    priv = k.private_bytes(S.Encoding.PEM, F.OpenSSH, S.NoEncryption()).decode()
    pub = k.public_key().public_bytes(S.Encoding.OpenSSH, S.PublicFormat.OpenSSH).decode()
    return pub, priv


def s(b):
    return struct.pack(">I", len(b)) + b


def tag(blob):
    return hashlib.sha256(blob).digest()[:4]


r = random.Random(7)
seen = {}
while True:
    seed = r.randbytes(32)
    k = ed25519.Ed25519PrivateKey.from_private_bytes(seed)
    p = k.public_key().public_bytes(S.Encoding.Raw, S.PublicFormat.Raw)
    t = tag(s(b"ssh-ed25519") + s(p))
    if t in seen:
        pair = [seen[t], seed]
        break
    seen[t] = seed
for seed in pair:
    pub, priv = text(ed25519.Ed25519PrivateKey.from_private_bytes(seed))
    out["ssh-ed25519"].append({"pub": pub, "priv": priv, "fmt": "OpenSSH"})


def mpint(x):
    b = x.to_bytes(x.bit_length() // 8 + 1, "big")
    return s(b)


ks = [rsa.generate_private_key(65537, 1024).private_numbers() for _ in range(2)]
seen = {}
found = None
for e in range(65537, 1 << 24, 2):
    for i, k in enumerate(ks):
        t = tag(s(b"ssh-rsa") + mpint(e) + mpint(k.public_numbers.n))
        if t in seen and seen[t][0] != i:
            try:
                for j, f in (seen[t], (i, e)):
                    pow(f, -1, (ks[j].p - 1) * (ks[j].q - 1))
                found = [seen[t], (i, e)]
                break
            except ValueError:
                continue
        seen[t] = (i, e)
    if found:
        break
for i, e in found:
    k = ks[i]
    d = pow(e, -1, (k.p - 1) * (k.q - 1))
    key = rsa.RSAPrivateNumbers(
        k.p, k.q, d, d % (k.p - 1), d % (k.q - 1), k.iqmp, rsa.RSAPublicNumbers(e, k.public_numbers.n)
    ).private_key()
    pub, priv = text(key)
    out["ssh-rsa"].append({"pub": pub, "priv": priv, "fmt": "OpenSSH", "bits": 1024})
with open(path, "w") as f:
    json.dump(out, f, indent=1)
