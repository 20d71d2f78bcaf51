"""Load /repo/src/gsply afresh, instrumented, with shims in place of numpy,
numba, torch and imagecodecs."""
from __future__ import annotations

import builtins
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np

from . import ir, npshim, rt
from .ir import State
from .transform import instrument

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
from .rt import ENCODED  # function qualname -> number of symbolic executions
SOURCES: dict = {}      # file -> sha256


class _NumbaShim(types.ModuleType):
    def __init__(self):
        super().__init__("numba")
        self.__version__ = "0.0"
        self.prange = prange
        self.jit = jit
        self.njit = jit
        self.vectorize = _unsup
        self.guvectorize = _unsup
        self.config = types.SimpleNamespace(NUMBA_NUM_THREADS=1)
        for t, n in (("float32", np.float32), ("float64", np.float64), ("uint32", np.uint32), ("int64", np.int64),
                     ("uint8", np.uint8), ("int32", np.int32), ("uint64", np.uint64), ("boolean", np.bool_)):
            setattr(self, t, n)

    def get_num_threads(self):
        return 1

    def set_num_threads(self, n):
        pass


def _unsup(*a, **k):
    raise ir.Unsupported("numba vectorize")


def prange(*a):
    r = rt.b_range(*a)
    return r if State.race is None else State.race.iterate(r)


def jit(*a, **k):
    par = bool(k.get("parallel"))

    def deco(f):
        def kernel(*args, **kw):
            State.numba += 1
            race = State.race
            if race is not None:
                old, race.par = race.par, par or race.par
            try:
                args = [_karg(x) for x in args]
                return f(*args, **kw)
            finally:
                State.numba -= 1
                if race is not None:
                    race.par = old
        kernel.__name__ = f.__name__
        kernel.__module__ = f.__module__
        kernel.py_func = f
        kernel.__wrapped__ = f
        kernel.__doc__ = f.__doc__
        return kernel
    if len(a) == 1 and callable(a[0]) and not k:
        return deco(a[0])
    return deco


def _karg(x):
    if isinstance(x, np.ndarray) and not isinstance(x, npshim.SymArray):
        return npshim.from_concrete(x)
    if isinstance(x, np.generic):
        return ir.const(x)
    if isinstance(x, float):
        return ir.const(x)
    return x


numba_shim = _NumbaShim()
SHIMS = {"numpy": npshim.shim, "numba": numba_shim}


class _IOShim(types.ModuleType):
    def __init__(self):
        super().__init__("io")
        from .fsshim import SymBytesIO
        self.BytesIO = SymBytesIO

    def __getattr__(self, n):
        import io
        return getattr(io, n)


SHIMS["io"] = _IOShim()


def _make_import():
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            root = name.split(".")[0]
            if name in SHIMS:
                return SHIMS[name] if (fromlist or "." not in name) else SHIMS[root]
            if root in SHIMS and root not in ("numpy", "io"):
                m = SHIMS[root]
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m if fromlist else SHIMS[root]
            if root == "numpy" and not fromlist:
                return SHIMS["numpy"]
        return real(name, globals, locals, fromlist, level)
    return imp


_imp = _make_import()


_CODE = {}


def preload():
    """instrument every module once, before the workers are forked"""
    for root, _, files in os.walk(os.path.join(SRC, "gsply")):
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                name = os.path.relpath(p, SRC)[:-3].replace("/", ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    _CODE[(name, src)] = instrument(src, name, p)
                except Exception:  # noqa  (reported when a harness loads it)
                    pass


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        SOURCES[os.path.relpath(self.path, REPO)] = hashlib.sha256(src.encode()).hexdigest()
        key = (module.__name__, src)
        code = _CODE.get(key)
        if code is None:
            code = _CODE[key] = instrument(src, module.__name__, self.path)
        b = dict(vars(builtins))
        b.update(rt.BUILTINS)
        b["__import__"] = _imp
        b["print"] = lambda *a, **k: None
        module.__dict__["__builtins__"] = b
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "gsply" and not name.startswith("gsply."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(SRC, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return importlib.util.spec_from_loader(name, _Loader(f), is_package=True, origin=f) if os.path.exists(f) else None
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_loader(name, _Loader(f), origin=f)
        return None


_finder = _Finder()


def load(with_torch=False):
    """import gsply freshly (constants built under the current IR table)"""
    for m in [m for m in sys.modules if m == "gsply" or m.startswith("gsply.")]:
        del sys.modules[m]
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    if with_torch:
        from . import torchshim
        SHIMS["torch"] = torchshim.shim
    else:
        SHIMS.pop("torch", None)
    from . import icshim
    icshim.reset()
    SHIMS["imagecodecs"] = icshim.shim
    SHIMS["json"] = icshim.json_shim
    SHIMS["zipfile"] = icshim.zip_shim
    import importlib
    g = importlib.import_module("gsply")
    if not with_torch:
        # the CPU-only checks run as if torch were not installed
        sys.modules.pop("gsply.torch", None)
    return g
