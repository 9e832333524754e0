"""This module implements the recipient algorithms"""

# from .scrypt import (
#     scrypt_encrypt_file_key,
#     scrypt_decrypt_file_key,
# )  # noqa: F401
# from .x25519 import (
#     x25519_encrypt_file_key,
#     x25519_decrypt_file_key,
# )  # noqa: F401
# from .ssh_rsa import (
#     ssh_rsa_encrypt_file_key,
#     ssh_rsa_decrypt_file_key,
# )  # noqa: F401
# from .ssh_ed25519 import (
#     ssh_ed25519_encrypt_file_key,
#     ssh_ed25519_decrypt_file_key,
# )  # noqa: F401
