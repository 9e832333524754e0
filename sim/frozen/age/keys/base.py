# Base classes needed for typing


class EncryptionKey:
    pass


class DecryptionKey:
    pass
