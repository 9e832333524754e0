From 6645592035ce9c7886c2e1df1ca9fc1bb21ae09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 01/18] fix: reject a payload without any chunk

A file truncated right after the payload nonce used to decrypt to the empty
string. Empty plaintext is now encrypted to one empty, authenticated chunk and
a payload without chunks is refused.
---
 src/age/stream.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..874d24d 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # empty data is a single empty chunk
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(1, math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE))
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -37,6 +38,10 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
 def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
+    if not data:
+        # even an empty plaintext is encrypted to one authenticated chunk
+        raise ValueError("Payload truncated")
+
     aead = ChaCha20Poly1305(key)
     blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
 
-- 
2.43.0


From 2c480397ace54b9ab3f95c4cf9c54d0bc7100cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 02/18] fix: ask for the passphrase on standard error

The prompt text went to standard output and became part of the ciphertext or
plaintext when that was redirected to a file.
---
 src/age/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..571572c 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -75,7 +75,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
@@ -127,7 +127,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
-- 
2.43.0


From cbd679f1c05abbb91ddfc90c46658afd00ce4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 03/18] fix: accept unknown recipient entries without arguments

Such an entry was rendered with a trailing space when the header was
authenticated, so that every file containing one was refused.
---
 src/age/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/format.py b/src/age/format.py
index de9e866..f10170d 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -65,7 +65,7 @@ def dump_header(header: Header, stream: typing.BinaryIO, mac: typing.Optional[by
     stream.write(AGE_INTRO.encode("utf-8") + b"\n")
 
     for recipient in header.recipients:
-        line = RECIPIENT_PREFIX + " " + recipient.type + " " + " ".join(recipient.arguments) + "\n"
+        line = " ".join([RECIPIENT_PREFIX, recipient.type, *recipient.arguments]) + "\n"
         stream.write(line.encode("utf-8"))
         if recipient.body:
             wrapped = textwrap.fill(recipient.body, break_on_hyphens=False, width=64)
-- 
2.43.0


From 79f1cb25a5de5f5dda1208cd5e0403c61ae9adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 04/18] fix: try further identities after one of the wrong SSH
 key

A fingerprint mismatch raises ValueError, which aborted the decryption of files
with several ssh-rsa or ssh-ed25519 recipients or by users with several such
keys, depending on set order.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..151cea2 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # not encrypted to this key
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From 24c049f949ac56805613187134ea28f6e75f18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 05/18] fix: skip unusable files in ~/.ssh instead of failing

A passphrase protected, damaged, unsupported or unreadable file matching
~/.ssh/id_* made every decrypt command fail, whatever key it needed.
---
 src/age/keyloader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..9627bcd 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,13 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception:
+            # e.g. passphrase protected, damaged or unreadable
+            print(f"Ignoring unusable SSH key file '{filename}'", file=sys.stderr)
+            continue
+
         if key:
             keys.append(key)
 
-- 
2.43.0


From 3c4f4ae051d2533cce3c98965e400ba978a851de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 06/18] fix: refuse recipients that resolve to no key

An unknown or misspelled recipient was silently left out when another one was
given.
---
 src/age/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 571572c..3f07ab5 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -64,8 +64,12 @@ def encrypt(
     aliases = load_aliases()
 
     keys = []
-    for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+    for index, recipient in enumerate(recipients, start=1):
+        resolved = resolve_public_key(recipient, aliases=aliases)
+        if not resolved:
+            print(f"Recipient {index} does not name any public key.", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(resolved)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From cddafbc6b4243fc0a8d3d62bc44b8b93ded1f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 07/18] fix: read the input before opening the output when
 encrypting

Encrypting a file onto itself destroyed it, and a read error left a valid,
authenticated file of empty content.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 3f07ab5..a83c743 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -86,12 +86,16 @@ def encrypt(
         print("You must specify at least one recipient.", file=sys.stderr)
         sys.exit(1)
 
+    # read everything before the output is opened: it may be the same file, and must not be touched
+    # if the input cannot be read
+    plaintext = infile.read()
+
     if ascii_armored:
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
         outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
 
     with Encryptor(keys, outfile) as encryptor:
-        encryptor.write(infile.read())
+        encryptor.write(plaintext)
 
 
 def decrypt(
-- 
2.43.0


From 3d77e4db740ada042d3d2f11fb17a483d440c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 08/18] fix: do not lose data when the output accepts it only
 in part

Raw streams, such as the standard output of an unbuffered interpreter, may
write less than they are given; the rest was dropped and success reported.
---
 src/age/cli.py             |  3 ++-
 src/age/file.py            | 11 +++++++----
 src/age/utils/write_all.py | 25 +++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 5 deletions(-)
 create mode 100644 src/age/utils/write_all.py

diff --git a/src/age/cli.py b/src/age/cli.py
index a83c743..3883ba5 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -17,6 +17,7 @@ from age.keys.base import DecryptionKey
 from age.keys.password import PasswordKey
 from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput, AsciiArmoredOutput
 from age.utils.copy_doc import copy_doc
+from age.utils.write_all import write_all
 
 
 def encrypt(
@@ -147,7 +148,7 @@ def decrypt(
         infile = AsciiArmoredInput(AGE_PEM_LABEL, infile)  # type: ignore
 
     with Decryptor(keys, infile) as decryptor:
-        outfile.write(decryptor.read())
+        write_all(outfile, decryptor.read())
 
 
 def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
diff --git a/src/age/file.py b/src/age/file.py
index 1740986..6659465 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -10,6 +10,7 @@ from age.primitives.hmac import HMAC
 from age.primitives.random import random
 from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
 from age.stream import stream_decrypt, stream_encrypt
+from age.utils.write_all import write_all
 
 __all__ = ["Encryptor", "Decryptor"]
 
@@ -53,17 +54,19 @@ class Encryptor(io.RawIOBase):
         dump_header(header, header_stream, mac=None)
 
         mac = HMAC(self._hkdf(HEADER_HKDF_LABEL)).generate(header_stream.getvalue())
-        dump_header(header, self._stream, mac=mac)
+        header_stream = io.BytesIO()
+        dump_header(header, header_stream, mac=mac)
+        write_all(self._stream, header_stream.getvalue())
 
     def _encrypt_buffer(self):
-        self._stream.write(b"\n")
+        write_all(self._stream, b"\n")
 
         nonce = random(16)
-        self._stream.write(nonce)
+        write_all(self._stream, nonce)
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
         ciphertext = stream_encrypt(stream_key, self._plaintext_buffer)
-        self._stream.write(ciphertext)
+        write_all(self._stream, ciphertext)
 
         self._plaintext_buffer = b""
 
diff --git a/src/age/utils/write_all.py b/src/age/utils/write_all.py
new file mode 100644
index 0000000..d9def10
--- /dev/null
+++ b/src/age/utils/write_all.py
@@ -0,0 +1,25 @@
+import io
+import typing
+
+
+def write_all(stream: typing.BinaryIO, data: typing.Union[bytes, memoryview]) -> None:
+    """Write all of `data` to `stream`
+
+    A raw (unbuffered) stream may accept only a part of the data per call of `write`.
+    """
+
+    while True:
+        written = stream.write(data)
+
+        if written is None:
+            if data and isinstance(stream, io.RawIOBase):
+                raise BlockingIOError("Output would block")
+            # not a raw stream, accepts everything
+            return
+
+        data = memoryview(data)[written:]
+        if not data:
+            return
+
+        if written == 0:
+            raise OSError("Output does not accept any more data")
-- 
2.43.0


From 0ab90869ad032153b9119157dbfb167e742f0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 09/18] fix: report errors of writing armored output

The armored text was written by destructors, whose errors are ignored: a full
disk led to a truncated file and exit status 0.
---
 src/age/cli.py              | 4 ++++
 src/age/utils/asciiarmor.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 3883ba5..bf76d94 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -98,6 +98,10 @@ def encrypt(
     with Encryptor(keys, outfile) as encryptor:
         encryptor.write(plaintext)
 
+    if ascii_armored:
+        # writes the armored text; closing it here reports errors, garbage collection does not
+        outfile.close()
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..7ac6f59 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -3,6 +3,8 @@ import io
 import re
 import typing
 
+from age.utils.write_all import write_all
+
 START_RE = re.compile(r"^-----BEGIN ([^-]*)-----\n$")
 END_RE = re.compile(r"^-----END ([^-]*)-----\n?$")
 
@@ -83,7 +85,6 @@ def write_ascii_armored(file: typing.TextIO, label: str, data: bytes) -> None:
 class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
         self._stream: typing.BinaryIO = stream
-        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, "utf-8")
         self._plaintext_buffer: bytes = b""
         self._label: str = label
 
@@ -112,9 +113,12 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         raise NotImplementedError()
 
     def _encode_buffer(self):
-        write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        text_stream = io.StringIO()
+        write_ascii_armored(text_stream, self._label, self._plaintext_buffer)
         self._plaintext_buffer = b""
 
+        write_all(self._stream, text_stream.getvalue().encode("utf-8"))
+
 
 class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
-- 
2.43.0


From a84b2bda18d5a8513daf3e8fa7f36dc525463b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 10/18] fix: do not depend on reading the payload nonce in one
 piece

A short read of a raw stream made decryption fail.
---
 src/age/file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 6659465..3785619 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -114,11 +114,12 @@ class Decryptor(io.RawIOBase):
     def _decrypt_body(self):
         assert self._file_key is not None
 
-        nonce = self._stream.read(16)
+        # reading up to the end also works for streams whose read(16) may return less
+        payload = self._stream.read()
+        nonce, ciphertext = payload[:16], payload[16:]
         assert len(nonce) == 16, "Could not read nonce"
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
-        ciphertext = self._stream.read()
         plaintext = stream_decrypt(stream_key, ciphertext)
 
         self._plaintext_stream = io.BytesIO(plaintext)
-- 
2.43.0


From 7ef17f87a95c9649c5f1c359f6aea2d90a6174ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 11/18] fix: refuse writes to a closed encryption stream

They were acknowledged and lost.
---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index 3785619..4abaee5 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -31,6 +31,8 @@ class Encryptor(io.RawIOBase):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 7ac6f59..5bec95c 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -92,6 +92,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
-- 
2.43.0


From 8f064b55f9a10c8b151e76da036495908a17161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 12/18] fix: write nothing after an encryption stream has
 failed

A stream whose constructor or close() had failed wrote to its sink again when
it was closed once more or garbage collected, and leaving a with-block by an
exception completed a file of partial plaintext.
---
 src/age/file.py             | 17 +++++++++++++++--
 src/age/utils/asciiarmor.py |  6 ++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 4abaee5..7a7dbe3 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -20,12 +20,16 @@ PAYLOAD_HKDF_LABEL = b"payload"
 
 class Encryptor(io.RawIOBase):
     def __init__(self, keys: typing.Collection[EncryptionKey], stream: typing.BinaryIO):
+        # set if there is nothing to complete in close()
+        self._abandoned: bool = True
+
         self._stream: typing.BinaryIO = stream
         self._file_key: bytes = random(16)
 
         self._plaintext_buffer: bytes = b""
 
         self._write_header(keys)
+        self._abandoned = False
 
     def writable(self):
         return True
@@ -38,8 +42,17 @@ class Encryptor(io.RawIOBase):
 
     def close(self):
         if not self.closed:
-            self._encrypt_buffer()
-            super().close()
+            try:
+                if not self._abandoned:
+                    self._encrypt_buffer()
+            finally:
+                super().close()
+
+    def __exit__(self, exc_type, exc_value, traceback):
+        if exc_type is not None:
+            # not everything has been written: do not make it look like a complete file
+            self._abandoned = True
+        super().__exit__(exc_type, exc_value, traceback)
 
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
         return hkdf(salt, label, self._file_key, 32)
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 5bec95c..9a6c3cd 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -99,8 +99,10 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def close(self):
         if not self.closed:
-            self._encode_buffer()
-            super().close()
+            try:
+                self._encode_buffer()
+            finally:
+                super().close()
 
     def read(self, n):
         # Needed to implement typing.BinaryIO
-- 
2.43.0


From 87025ea43fa1ad308ac6563d2fc718a3b3009942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 13/18] fix: store a generated key pair completely or fail

With an unbuffered standard output a partial write of the key was ignored.
---
 src/age/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index bf76d94..fd47743 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -170,9 +170,15 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
     key = AgePrivateKey.generate()
 
     now = datetime.now()
-    outfile.write(f"# created: {now:%Y-%m-%dT%H:%M:%S}\n")
-    outfile.write("# " + key.public_key().public_string() + "\n")
-    outfile.write(key.private_string() + "\n")
+    text = f"# created: {now:%Y-%m-%dT%H:%M:%S}\n"
+    text += "# " + key.public_key().public_string() + "\n"
+    text += key.private_string() + "\n"
+
+    if hasattr(outfile, "buffer"):
+        # text streams do not notice partial writes if they are unbuffered
+        write_all(outfile.buffer, text.encode("utf-8"))
+    else:
+        outfile.write(text)
 
     # check permissions if the key is stored in a file
     try:
-- 
2.43.0


From 997064e4a267309a1aa6d8a51ddc5c209d4e6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 14/18] fix: refuse reads from a closed decryption stream

---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index 7a7dbe3..e1476c3 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -99,6 +99,8 @@ class Decryptor(io.RawIOBase):
         return True
 
     def read(self, size=-1):
+        if self.closed:
+            raise ValueError("read of closed file")
         assert self._plaintext_stream is not None
         return self._plaintext_stream.read(size)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 9a6c3cd..ecbc911 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -137,6 +137,8 @@ class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def read(self, size=-1):
+        if self.closed:
+            raise ValueError("read of closed file")
         assert self._plaintext_stream is not None
         return self._plaintext_stream.read(size)
 
-- 
2.43.0


From cf5d6b2637952c3f8c095080792b5962b1b7ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 15/18] fix: let buffered readers read from decryption streams

---
 src/age/file.py             | 7 +++++++
 src/age/utils/asciiarmor.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index e1476c3..8a21aca 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -104,6 +104,13 @@ class Decryptor(io.RawIOBase):
         assert self._plaintext_stream is not None
         return self._plaintext_stream.read(size)
 
+    def readinto(self, buffer):
+        # needed by buffered readers
+        if self.closed:
+            raise ValueError("read of closed file")
+        assert self._plaintext_stream is not None
+        return self._plaintext_stream.readinto(buffer)  # type: ignore
+
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
         assert self._file_key is not None
         return hkdf(salt, label, self._file_key, 32)
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index ecbc911..b53b4f5 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -142,6 +142,13 @@ class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
         assert self._plaintext_stream is not None
         return self._plaintext_stream.read(size)
 
+    def readinto(self, buffer):
+        # needed by buffered readers
+        if self.closed:
+            raise ValueError("read of closed file")
+        assert self._plaintext_stream is not None
+        return self._plaintext_stream.readinto(buffer)  # type: ignore
+
     def write(self, data):
         # Needed to implement typing.BinaryIO
         raise NotImplementedError()
-- 
2.43.0


From 9c6563e538bc16f7dbe282934ee76e6fe7557e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 16/18] fix: leave the stream open that an armored input reads
 from

---
 src/age/utils/asciiarmor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index b53b4f5..53dcd0c 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -131,7 +131,11 @@ class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
         self._plaintext_stream: typing.Optional[typing.BinaryIO] = None
         self._label: str = label
 
-        self._decode_body()
+        try:
+            self._decode_body()
+        finally:
+            # the stream belongs to the caller: do not close it when the wrapper is collected
+            self._text_stream.detach()
 
     def readable(self):
         return True
-- 
2.43.0


From a9ce346bf8098546f51d6a7982f05582d389ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:48 +0000
Subject: [PATCH 17/18] fix: decrypt armored files in text that is not valid
 UTF-8

---
 src/age/utils/asciiarmor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 53dcd0c..a5fbf29 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -127,7 +127,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
         self._stream: typing.BinaryIO = stream
-        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, "utf-8")
+        # the text around the block may be in any encoding
+        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, "utf-8", "replace")
         self._plaintext_stream: typing.Optional[typing.BinaryIO] = None
         self._label: str = label
 
-- 
2.43.0


From 56ec2491d56572429e5ae51e0a149dccebce79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 18/18] fix: ignore blocks of other kinds around an armored
 file

---
 src/age/utils/asciiarmor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index a5fbf29..97a3f69 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -26,7 +26,9 @@ def _is_valid_label(label: str) -> bool:
 
 
 def read_ascii_armored(
-    file: typing.TextIO, strict_line_length: bool = True
+    file: typing.TextIO,
+    strict_line_length: bool = True,
+    wanted_label: typing.Optional[str] = None,
 ) -> typing.Iterator[typing.Tuple[str, bytes]]:
     in_label: typing.Optional[str] = None
     buffer: typing.List[str] = []
@@ -36,6 +38,9 @@ def read_ascii_armored(
             start_match = START_RE.match(line)
             if start_match:
                 label = start_match.group(1)
+                if wanted_label is not None and label != wanted_label:
+                    # blocks of other kinds are text like any other, and need not be well-formed
+                    continue
                 if _is_valid_label(label):
                     in_label = label
                 else:
@@ -172,7 +177,7 @@ class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
         data = b""
         label = ""
 
-        for label, decoded in read_ascii_armored(self._text_stream):
+        for label, decoded in read_ascii_armored(self._text_stream, wanted_label=self._label):
             if label == self._label:
                 data = decoded
                 count += 1
-- 
2.43.0

