# from .agekey import AgePrivateKey, AgePublicKey  # noqa: F401
# from .password import PasswordKey  # noqa: F401
# from .rsa import RSAPrivateKey, RSAPublicKey  # noqa: F401
# from .ed25519 import Ed25519PrivateKey, Ed25519PublicKey  # noqa: F401
