"""A *world* is one private, freshly executed import of /repo/src/colosseum.

The sources are read from the working tree and compiled in memory once per
process; every simulated run executes them again in new module objects, so no
module-level state survives from one run to the next and two worlds never share
anything but builtins and the standard library.
"""

import builtins
import os
import types

from . import points
from .points import BUILTINS as POINT_BUILTINS

SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PKG = "colosseum"

FORCE_POINTS = False    # set while a run is re-examined for lack of progress

_code = {}  # (modname, optimize, points) -> (path, is_pkg, code)


def _find(modname):
    rel = modname.replace(".", "/")
    pkg = os.path.join(SRC, rel, "__init__.py")
    if os.path.isfile(pkg):
        return pkg, True
    path = os.path.join(SRC, rel + ".py")
    if os.path.isfile(path):
        return path, False
    raise ModuleNotFoundError(f"No module named {modname!r}", name=modname)


def _load_code(modname, optimize, pts):
    key = (modname, optimize, pts)
    if key not in _code:
        path, is_pkg = _find(modname)
        with open(path, "rb") as f:
            src = f.read()
        if pts:
            code = points.compile_with_points(src, path, modname, optimize)
        else:
            code = compile(src, path, "exec", dont_inherit=True, optimize=optimize)
        _code[key] = (path, is_pkg, code)
    return _code[key]


class World:
    """One private copy of the library; with points=True, one the simulator can
    interrupt, schedule and step-count (see points.py)."""

    def __init__(self, points=False, optimize=-1):
        from .sched import SHIM

        self.modules = {}
        self.optimize = optimize
        self.points = points or FORCE_POINTS
        self.threading_shim = SHIM
        self._builtins = dict(vars(builtins))
        self._builtins["__import__"] = self._import
        if self.points:
            self._builtins.update(POINT_BUILTINS)
        self.load(PKG)
        for m in ("constants", "units", "colors", "dimensions", "engine",
                  "declaration", "wrappers", "shapes", "parser", "validators"):
            setattr(self, m, self.load(f"{PKG}.{m}"))
        self.CSS = self.modules[PKG].CSS
        self.Box = self.dimensions.Box
        self.Size = self.dimensions.Size
        self.LiveSize = None      # see host.size_hints
        self.layout = self.engine.layout

    def load(self, name):
        mod = self.modules.get(name)
        if mod is not None:
            return mod
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg, code = _load_code(name, self.optimize, self.points)
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__dict__["__builtins__"] = self._builtins
        if is_pkg:
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition(".")[0]
        self.modules[name] = mod
        try:
            exec(code, mod.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.modules[parent], leaf, mod)
        return mod

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name == "threading" and self.threading_shim is not None:
                return self.threading_shim
            if name != PKG and not name.startswith(PKG + "."):
                return builtins.__import__(name, globals, locals, fromlist, level)
            absname = name
        else:
            package = globals.get("__package__") or globals["__name__"]
            bits = package.split(".")
            bits = bits[: len(bits) - (level - 1)]
            absname = ".".join(bits + ([name] if name else []))
        mod = self.load(absname)
        if fromlist:
            if hasattr(mod, "__path__"):
                for item in fromlist:
                    if item != "*" and not hasattr(mod, item):
                        try:
                            self.load(f"{absname}.{item}")
                        except ModuleNotFoundError:
                            pass
            return mod
        if level == 0:
            return self.modules[PKG]
        return mod


def source_digest():
    """Digest of the library sources the checks ran (for evidence)."""
    import hashlib

    h = hashlib.sha256()
    root = os.path.join(SRC, PKG)
    for dirpath, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for fn in sorted(files):
            if fn.endswith(".py"):
                p = os.path.join(dirpath, fn)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as f:
                    h.update(f.read())
    return h.hexdigest()[:16]
