"""Loads a fresh copy of the elsie package for every simulated process.

Compiled code is cached per worker, so a fresh import costs only the execution of the module
bodies; module-level state never survives a simulated restart.
"""
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import sys

from . import seams

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = {}
VERSION_OVERRIDE = [None]


def salted_hash(salt):
    """hash() of one simulated process: text hashes differently in every process."""
    def hash(x):
        if type(x) in (str, bytes):
            data = x.encode("utf8", "surrogatepass") if type(x) is str else x
            d = hashlib.sha1(salt.encode() + b"/" + data).digest()
            return int.from_bytes(d[:8], "big", signed=True) >> 3
        if type(x) in (tuple, frozenset):
            return builtins.hash(type(x)(hash(y) for y in x))
        return builtins.hash(x)

    return hash


SALTED = [builtins.hash]


class _Loader(importlib.abc.InspectLoader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.pkg = fullname, path, is_pkg

    def is_package(self, fullname):
        return self.pkg

    def get_source(self, fullname):
        with seams.real["open"](self.path, "r", encoding="utf8") as f:
            return f.read()

    def get_filename(self, fullname):
        return self.path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            code = _code[self.path] = compile(
                self.get_source(self.fullname), self.path, "exec", dont_inherit=True
            )
        module.__file__ = self.path
        module.hash = SALTED[0]
        exec(code, module.__dict__)
        if self.fullname == "elsie.version" and VERSION_OVERRIDE[0] is not None:
            module.VERSION = VERSION_OVERRIDE[0]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "elsie" and not fullname.startswith("elsie."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        isfile = seams.real["isfile"]
        for p, pkg in ((base + "/__init__.py", True), (base + ".py", False)):
            if isfile(p):
                spec = importlib.util.spec_from_file_location(
                    fullname, p, loader=_Loader(fullname, p, pkg),
                    submodule_search_locations=[base] if pkg else None,
                )
                return spec
        return None


MODULES = (
    "elsie", "elsie.ext", "elsie.ext.latex", "elsie.ext.list", "elsie.ext.markdown",
    "elsie.ext.todo", "elsie.ext.export", "elsie.render.backends", "elsie.render.jupyter",
    "elsie.render.ora",
)


def install():
    import stat as st

    real_stat = seams.real["stat"]

    def isfile(p):
        try:
            return st.S_ISREG(real_stat(p).st_mode)
        except OSError:
            return False

    seams.real["isfile"] = isfile
    sys.meta_path.insert(0, _Finder())


def clear():
    for name in [n for n in sys.modules if n == "elsie" or n.startswith("elsie.")]:
        del sys.modules[name]


def load(version=None, name=""):
    """Imports a fresh elsie; returns its modules."""
    clear()
    VERSION_OVERRIDE[0] = version
    SALTED[0] = salted_hash(name)
    try:
        import importlib

        for m in MODULES:
            importlib.import_module(m)
    finally:
        VERSION_OVERRIDE[0] = None
    return snapshot()


def snapshot():
    return {n: m for n, m in sys.modules.items() if n == "elsie" or n.startswith("elsie.")}


def activate(mods):
    clear()
    sys.modules.update(mods)
