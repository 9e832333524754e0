"""This module defines encryption primitives used within age"""

# from .encode import encode, decode  # noqa: F401
# from .x25519 import (
#     x25519_scalarmult,
#     x25519_scalarmult_base,
#     x25519_reduce,
#     ECPoint,
#     ECScalar,
# )  # noqa: F401
# from .encrypt import encrypt, decrypt  # noqa: F401
# from .hashes import sha256  # noqa: F401
# from .hkdf import hkdf  # noqa: F401
# from .hmac import HMAC  # noqa: F401
# from .random import random  # noqa: F401
# from .rsa_oaep import rsa_encrypt, rsa_decrypt  # noqa: F401
# from .scrypt import scrypt  # noqa: F401
