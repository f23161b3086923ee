"""Makes /repo's irspack importable together with freshly built extensions."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True

from . import build as _b

SRC = os.path.join(_b.REPO, "src", "irspack")
VARIANT = os.environ.get("VF_VARIANT", "plain")
_EXT = {f"irspack.{pkg}.{m}": m for m, (_, pkg) in _b.MODULES.items()}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name in _EXT:
            so = _b.build(_EXT[name], VARIANT)
            return importlib.util.spec_from_file_location(
                name, so, loader=importlib.machinery.ExtensionFileLoader(name, so)
            )
        if name == "irspack._version":
            return importlib.util.spec_from_loader(name, _Version())
        return None


class _Version(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        mod.__version__ = "0.0.0"


_done = False


def install(full=False):
    """full=False: an empty parent package (subpackages are the real ones), so
    that only what a check imports is loaded and built.  full=True: the real
    top-level package."""
    global _done
    if _done:
        return
    _done = True
    sys.meta_path.insert(0, _Finder())
    if full:
        _b.build_many(list(_b.MODULES), VARIANT)
        sys.path.insert(0, os.path.join(_b.REPO, "src"))
        return
    parent = types.ModuleType("irspack")
    parent.__path__ = [SRC]
    sys.modules["irspack"] = parent
