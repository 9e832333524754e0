"""Frozen, independent implementation of the file format pyage uses.

Used as the "other version" of a fleet, to forge files, and to classify damage.
It shares no code with the package under study; only the cryptographic
libraries below it are the same.
"""

import base64
import hashlib
import hmac
import math

from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ed25519, padding, rsa
from cryptography.hazmat.primitives.ciphers import aead as _aead
from nacl.bindings import (
    crypto_core_ed25519_scalar_reduce,
    crypto_scalarmult,
    crypto_scalarmult_base,
    crypto_sign_ed25519_pk_to_curve25519,
    crypto_sign_ed25519_sk_to_curve25519,
)

INTRO = b"age-encryption.org/v1"
CHUNK = 65536
LABEL_X = b"age-encryption.org/v1/X25519"
LABEL_S = b"age-encryption.org/v1/scrypt"
LABEL_R = b"age-encryption.org/v1/ssh-rsa"
LABEL_E = b"age-encryption.org/v1/ssh-ed25519"


def _aead_cls():
    c = _aead.ChaCha20Poly1305
    # the recording subclass adds nothing outside a simulation
    return c


def seal(key, nonce, data):
    return _aead_cls()(key).encrypt(nonce, data, None)


def unseal(key, nonce, data):
    return _aead_cls()(key).decrypt(nonce, data, None)


def hkdf(salt, info, ikm, n):
    prk = hmac.new(salt or b"\0" * 32, ikm, hashlib.sha256).digest()
    out = t = b""
    i = 1
    while len(out) < n:
        t = hmac.new(prk, t + info + bytes([i]), hashlib.sha256).digest()
        out += t
        i += 1
    return out[:n]


def b64(data):
    return base64.b64encode(data).decode().rstrip("=")


def unb64(text):
    return base64.b64decode(text + "=" * (-len(text) % 4))


# -- bech32 -----------------------------------------------------------------

CH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def _polymod(values):
    gen = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]
    chk = 1
    for v in values:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ v
        for i in range(5):
            chk ^= gen[i] if (top >> i) & 1 else 0
    return chk


def _expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech32(hrp, data):
    acc = bits = 0
    five = []
    for b in data:
        acc = acc << 8 | b
        bits += 8
        while bits >= 5:
            bits -= 5
            five.append(acc >> bits & 31)
    if bits:
        five.append(acc << (5 - bits) & 31)
    pm = _polymod(_expand(hrp) + five + [0] * 6) ^ 1
    five += [pm >> 5 * (5 - i) & 31 for i in range(6)]
    return hrp + "1" + "".join(CH[v] for v in five)


def unbech32(text):
    text = text.lower()
    pos = text.rfind("1")
    hrp, rest = text[:pos], [CH.find(c) for c in text[pos + 1 :]]
    if pos < 1 or len(rest) < 6 or -1 in rest or _polymod(_expand(hrp) + rest) != 1:
        return None, None
    acc = bits = 0
    out = bytearray()
    for v in rest[:-6]:
        acc = acc << 5 | v
        bits += 5
        if bits >= 8:
            bits -= 8
            out.append(acc >> bits & 255)
    return hrp, bytes(out)


# -- keys ---------------------------------------------------------------------


class Age:
    kind = "X25519"

    def __init__(self, secret):
        self.secret = bytes(secret)
        self.public = crypto_scalarmult_base(self.secret)
        self.pub = bech32("age", self.public)
        self.priv = bech32("age-secret-key-", self.secret).upper()

    def keyfile(self):
        return "# created: 2019-11-10T10:00:00\n# %s\n%s\n" % (self.pub, self.priv)


class Password:
    kind = "scrypt"

    def __init__(self, text):
        self.text = text
        self.value = text.encode("utf-8")


class Ssh:
    """An ssh-rsa or ssh-ed25519 key pair loaded from fixture text."""

    def __init__(self, kind, pub, priv):
        self.kind = kind
        self.pub = pub
        self.priv = priv
        self._k = None
        self.blob = base64.b64decode(pub.split()[1])

    @property
    def key(self):
        if self._k is None:
            data = self.priv.encode()
            try:
                self._k = serialization.load_ssh_private_key(data, None)
            except ValueError:
                self._k = serialization.load_pem_private_key(data, None)
        return self._k

    @property
    def tag(self):
        return hashlib.sha256(self.blob).digest()[:4]


# -- stanzas ------------------------------------------------------------------


def _wrap_x(eph, pub, file_key, info=LABEL_X):
    share = crypto_scalarmult_base(eph)
    key = hkdf(share + pub, info, crypto_scalarmult(eph, pub), 32)
    return share, seal(key, bytes(12), file_key)


def _tweak(blob):
    return crypto_core_ed25519_scalar_reduce(hkdf(blob, LABEL_E, b"", 64))


def _oaep():
    return padding.OAEP(padding.MGF1(hashes.SHA256()), hashes.SHA256(), LABEL_R)


def wrap(key, file_key, rnd, scrypt, log_cost=18):
    """(type, args, body) for one recipient."""
    if key.kind == "X25519":
        share, body = _wrap_x(rnd(32), key.public, file_key)
        return ("X25519", [b64(share)], b64(body))
    if key.kind == "scrypt":
        salt = rnd(16)
        k = scrypt(key.value, LABEL_S + salt, 1 << log_cost)
        return ("scrypt", [b64(salt), str(log_cost)], b64(seal(k, bytes(12), file_key)))
    if key.kind == "ssh-rsa":
        body = key.key.public_key().encrypt(file_key, _oaep())
        return ("ssh-rsa", [b64(key.tag)], b64(body))
    if key.kind == "ssh-ed25519":
        raw = key.key.public_key().public_bytes(
            serialization.Encoding.Raw, serialization.PublicFormat.Raw
        )
        conv = crypto_sign_ed25519_pk_to_curve25519(raw)
        tw = crypto_scalarmult(_tweak(key.blob), conv)
        share, body = _wrap_x(rnd(32), tw, file_key)
        return ("ssh-ed25519", [b64(key.tag), b64(share)], b64(body))
    raise ValueError(key.kind)


def unwrap(stanza, key, scrypt):
    """File key, or None when the entry is not for this key."""
    typ, args, body = stanza
    if typ != key.kind:
        return None
    try:
        body = unb64(body)
        if typ == "X25519":
            share = unb64(args[0])
            k = hkdf(share + key.public, LABEL_X, crypto_scalarmult(key.secret, share), 32)
            return unseal(k, bytes(12), body)
        if typ == "scrypt":
            lc = int(args[1])
            if not 0 <= lc <= 22:
                return None
            k = scrypt(key.value, LABEL_S + unb64(args[0]), 1 << lc)
            return unseal(k, bytes(12), body)
        if unb64(args[0]) != key.tag:
            return None
        if typ == "ssh-rsa":
            return key.key.decrypt(body, _oaep())
        share = unb64(args[1])
        raw = key.key.public_key().public_bytes(
            serialization.Encoding.Raw, serialization.PublicFormat.Raw
        )
        seed = key.key.private_bytes(
            serialization.Encoding.Raw,
            serialization.PrivateFormat.Raw,
            serialization.NoEncryption(),
        )
        sk = crypto_sign_ed25519_sk_to_curve25519(seed + raw)
        tw = _tweak(key.blob)
        conv = crypto_scalarmult(tw, crypto_scalarmult_base(sk))
        k = hkdf(
            share + conv, LABEL_X, crypto_scalarmult(sk, crypto_scalarmult(tw, share)), 32
        )
        return unseal(k, bytes(12), body)
    except Exception:
        return None


# -- files --------------------------------------------------------------------


def header_text(stanzas, mac=None, intro=INTRO):
    out = intro.decode() + "\n"
    for typ, args, body in stanzas:
        out += " ".join(["->", typ] + list(args)) + "\n"
        for i in range(0, len(body), 64):
            out += body[i : i + 64] + "\n"
    out += "---"
    if mac is not None:
        out += " " + b64(mac) + "\n"
    return out.encode()


def header_mac(stanzas, file_key, intro=INTRO):
    return hmac.new(
        hkdf(b"", b"header", file_key, 32), header_text(stanzas, None, intro), hashlib.sha256
    ).digest()


def seal_payload(file_key, nonce, data, empty_chunk=True):
    key = hkdf(nonce, b"payload", file_key, 32)
    n = max(1 if empty_chunk else 0, math.ceil(len(data) / CHUNK))
    out = nonce
    for i in range(n):
        last = b"\x01" if i == n - 1 else b"\0"
        out += seal(key, i.to_bytes(11, "big") + last, data[i * CHUNK : (i + 1) * CHUNK])
    return out


def build(keys, data, rnd, scrypt, extra=(), log_cost=18, empty_chunk=True, file_key=None, intro=INTRO, mac_intro=INTRO):
    """A complete file.  extra: list of (position, stanza)."""
    fk = file_key or rnd(16)
    st = [wrap(k, fk, rnd, scrypt, log_cost) for k in keys]
    for pos, s in extra:
        st.insert(min(pos, len(st)), s)
    return (
        header_text(st, header_mac(st, fk, mac_intro), intro) + seal_payload(fk, rnd(16), data, empty_chunk)
    )


class Parsed:
    pass


def parse(blob):
    """Lenient reading of the three authenticated parts, or None."""
    lines = []
    pos = 0
    p = Parsed()
    p.stanzas = []
    end = blob.find(b"\n")
    if end < 0:
        return None
    p.intro = blob[:end].strip()
    pos = end + 1
    body = []
    try:
        while True:
            end = blob.find(b"\n", pos)
            raw = blob[pos:] if end < 0 else blob[pos:end]
            nxt = len(blob) if end < 0 else end + 1
            if pos >= len(blob):
                return None
            text = raw.decode("utf-8")
            if text.startswith("->"):
                tok = text[2:].split()
                if not tok:
                    return None
                body = []
                p.stanzas.append((tok[0], tok[1:], body))
            elif text.startswith("---"):
                tok = text.split()
                if len(tok) != 2:
                    return None
                p.mac = base64.b64decode(tok[1].replace("-", "+").replace("_", "/") + "===")
                p.payload = blob[nxt:]
                break
            elif p.stanzas:
                body.append(text)
            pos = nxt
            if end < 0:
                return None
    except (UnicodeDecodeError, ValueError):
        return None
    p.stanzas = [(t, a, "".join("".join(b).split())) for t, a, b in p.stanzas]
    _ = lines
    return p


def same_content(a, b):
    """Do two parsed files carry the same recipients, MAC and payload?"""
    return (
        a is not None
        and b is not None
        and a.stanzas == b.stanzas
        and a.mac == b.mac
        and a.payload == b.payload
    )


def open_payload(file_key, payload, legacy_empty=True):
    nonce, ct = payload[:16], payload[16:]
    if len(nonce) != 16:
        return None
    key = hkdf(nonce, b"payload", file_key, 32)
    if not ct:
        return b"" if legacy_empty else None
    n = math.ceil(len(ct) / (CHUNK + 16))
    out = []
    try:
        for i in range(n):
            last = b"\x01" if i == n - 1 else b"\0"
            blk = ct[i * (CHUNK + 16) : (i + 1) * (CHUNK + 16)]
            out.append(unseal(key, i.to_bytes(11, "big") + last, blk))
    except Exception:
        return None
    return b"".join(out)


def file_key_of(blob, keys, scrypt):
    p = parse(blob)
    if p is None or p.intro != INTRO:
        return None, None
    for s in p.stanzas:
        for k in keys:
            fk = unwrap(s, k, scrypt)
            if fk is not None:
                if hmac.compare_digest(header_mac(p.stanzas, fk), p.mac):
                    return p, fk
    return p, None


def decrypt(blob, keys, scrypt, legacy_empty=True):
    p, fk = file_key_of(blob, keys, scrypt)
    if fk is None:
        return None
    return open_payload(fk, p.payload, legacy_empty)


# -- armor --------------------------------------------------------------------

BEGIN = "-----BEGIN AGE ENCRYPTED FILE-----"
END = "-----END AGE ENCRYPTED FILE-----"


def armor(blob):
    e = base64.b64encode(blob).decode()
    lines = [BEGIN] + [e[i : i + 64] for i in range(0, len(e), 64)] + [END]
    return ("\n".join(lines) + "\n").encode()


def dearmor(text):
    """Strict reading of exactly one block; None if it is not one."""
    try:
        lines = text.decode("ascii").split("\n")
    except UnicodeDecodeError:
        return None
    if lines[-1:] == [""]:
        lines.pop()
    if len(lines) < 2 or lines[0] != BEGIN or lines[-1] != END:
        return None
    body = lines[1:-1]
    if any(len(x) > 64 for x in body) or any(len(x) != 64 for x in body[:-1]):
        return None
    try:
        return base64.b64decode("".join(body), validate=True)
    except ValueError:
        return None


_ = (ed25519, rsa)
