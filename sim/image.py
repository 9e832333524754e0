"""Fresh copies of the package under study.

The sources in /repo/src are read and compiled once per worker; every
simulated process then executes them again, so that module state (caches,
registries, globals) is private to a process and dies with it.
"""

import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

SRC = os.environ.get("PYAGE_SRC", "/repo/src")

FROZEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "frozen")

_tables = {"study": {}}  # version -> module name -> (code, path, is_package)
_code = _tables["study"]  # of the process that runs now


def use(version):
    """Imports from now on load this version of the package."""
    global _code
    if version not in _tables:
        _tables[version] = _compile(FROZEN)
    _code = _tables[version]



class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != "age" and not name.startswith("age."):
            return None
        ent = _code.get(name)
        if ent is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=ent[1], is_package=ent[2])
        if ent[2]:
            spec.submodule_search_locations = [os.path.dirname(ent[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, path, _ = _code[module.__name__]
        module.__file__ = path
        exec(code, module.__dict__)


_STUB_VERSION = "def get_versions():\n    return {'version': '0+simulated'}\n"


def compile_all():
    _tables["study"].update(_compile(SRC))
    sys.meta_path.insert(0, _Finder())


def _compile(top):
    table = {}
    base = os.path.join(top, "age")
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py") or f.endswith("_test.py"):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, top)[:-3].replace(os.sep, ".")
            pkg = rel.endswith(".__init__")
            name = rel[: -len(".__init__")] if pkg else rel
            if name == "age._version":
                src = _STUB_VERSION
            else:
                with open(path, "rb") as fh:
                    src = fh.read()
            table[name] = (compile(src, path, "exec", dont_inherit=True), path, pkg)
    if "age._version" not in table:
        table["age._version"] = (compile(_STUB_VERSION, base, "exec"), base, False)
    return table


def drop():
    """Forget the modules of the image that is current in sys.modules."""
    for n in [n for n in sys.modules if n == "age" or n.startswith("age.")]:
        del sys.modules[n]


def current():
    return {n: m for n, m in sys.modules.items() if n == "age" or n.startswith("age.")}


def switch(mods):
    drop()
    sys.modules.update(mods)


def new_image():
    """Execute the package anew in sys.modules; returns the modules."""
    drop()
    importlib.import_module("age.cli")
    importlib.import_module("age.file")
    importlib.import_module("age.keyloader")
    importlib.import_module("age.utils.asciiarmor")
    mods = current()
    from . import seams

    seams.patch_image(mods)
    return mods


def load_rest():
    """Import what is imported lazily, so that no import happens under preemption."""
    for name in sorted(_code):
        if name not in sys.modules and not name.endswith("__main__"):
            try:
                importlib.import_module(name)
            except Exception:
                sys.modules.pop(name, None)


class Lib:
    """Attribute access to the current image: lib.Encryptor and so on."""

    def __init__(self):
        m = sys.modules
        self.Encryptor = m["age.file"].Encryptor
        self.Decryptor = m["age.file"].Decryptor
        self.AsciiArmoredOutput = m["age.utils.asciiarmor"].AsciiArmoredOutput
        self.AsciiArmoredInput = m["age.utils.asciiarmor"].AsciiArmoredInput
        self.AGE_PEM_LABEL = m["age.utils.asciiarmor"].AGE_PEM_LABEL
        self.AgePrivateKey = m["age.keys.agekey"].AgePrivateKey
        self.AgePublicKey = m["age.keys.agekey"].AgePublicKey
        self.RSAPrivateKey = m["age.keys.rsa"].RSAPrivateKey
        self.RSAPublicKey = m["age.keys.rsa"].RSAPublicKey
        self.Ed25519PrivateKey = m["age.keys.ed25519"].Ed25519PrivateKey
        self.Ed25519PublicKey = m["age.keys.ed25519"].Ed25519PublicKey
        self.PasswordKey = m["age.keys.password"].PasswordKey
        self.cli = m["age.cli"]


def is_age_code(filename):
    return filename.startswith(SRC + os.sep + "age")


_ = types
