# from .base import (
#     Recipient,
#     parse_recipient_line,
#     decrypt_file_key,
#     generate_recipient_from_key,
# )
# from .scrypt import SCryptRecipient
# from .ssh_rsa import SSHRSARecipient
# from .ssh_ed25519 import SSHED25519Recipient
# from .x25519 import X25519Recipient
