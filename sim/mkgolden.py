"""Creates sim/fixtures/golden.json: files written by the original, unrepaired version.

Run once with PYTHONPATH=<base>/src:/verif; real entropy, real password hashing.
The private keys are those of fixtures/keys.json and world.key(["age", n]).
"""

import base64
import hashlib
import io
import json
import os
import zlib

from age.file import Encryptor
from age.keys.agekey import AgePublicKey
from age.keys.ed25519 import Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPublicKey
from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredOutput

from . import refage, world


def pub(d):
    k = world.key(d)
    if d[0] == "age":
        return AgePublicKey.from_public_string(k.pub)
    if d[0] == "rsa":
        return RSAPublicKey.from_ssh_public_key(k.pub.encode())
    if d[0] == "ed":
        return Ed25519PublicKey.from_ssh_public_key(k.pub.encode())
    return PasswordKey(k.value)


def real_scrypt(password, salt, n):
    return hashlib.scrypt(password, salt=salt, n=n, r=8, p=1, maxmem=(1 << 31) - 1, dklen=32)


def main():
    out = []
    cases = []
    for i, recips in enumerate(
        [[["age", n]] for n in range(4)] + [[["rsa", n]] for n in range(10)] + [[["ed", n]] for n in range(8)]
        + [[["pw", p]] for p in world.PASSWORDS[:4]]
        + [[["age", 1], ["rsa", 2], ["ed", 3]], [["ed", 1], ["pw", "x"], ["rsa", 9]], [["age", 5], ["age", 6], ["age", 7], ["rsa", 0], ["rsa", 1]]]
    ):
        cases.append((recips, [1, 12, 100, 1000, 15, 16, 17][i % 7], i % 5 == 4))
    for n in (65535, 65536, 65537, 131072, 140000):
        cases.append(([["age", 8]], n, n == 65537))
    for recips, n, arm in cases:
        data = {"n": n, "s": 77, "k": "text"}
        plain = world.payload(data)
        sink = io.BytesIO()
        close = sink.close
        sink.close = lambda: None
        o = AsciiArmoredOutput(AGE_PEM_LABEL, sink) if arm else sink
        with Encryptor([pub(d) for d in recips], o) as e:
            e.write(plain)
        if arm:
            o.close()
            del o, e  # the original flushes the text only when it is collected
        blob = sink.getvalue()
        close()
        raw = refage.dearmor(blob) if arm else blob
        for d in recips:
            assert refage.decrypt(raw, [world.key(d)], real_scrypt) == plain, (recips, n)
        out.append({"recips": recips, "data": data, "armored": arm, "blob": base64.b64encode(zlib.compress(blob)).decode()})
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "fixtures", "golden.json"), "w") as f:
        json.dump(out, f, indent=0)


main()
