"""The two sides of the harness API: symbolic and concrete (replay)."""
from __future__ import annotations

import math
import os
import struct
from fractions import Fraction

import numpy as np

NPD = {
    "f16": np.float16, "f32": np.float32, "f64": np.float64, "bool": np.bool_,
    "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64,
    "u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64,
}


def ename(name, idx):
    return name + "[" + ",".join(map(str, idx)) + "]"


class _Base:
    F = Fraction

    # ---- images, JSON and archives
    def json(self, v):
        """JSON text of a structure whose numbers may be symbolic"""
        import json
        if isinstance(v, dict):
            return "{" + ", ".join(json.dumps(k) + ": " + self.json(x) for k, x in v.items()) + "}"
        if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray):
            return "[" + ", ".join(self.json(x) for x in v) + "]"
        return self._jnum(v)

    def zip(self, entries):
        """bytes of a zip archive"""
        import io
        import zipfile
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w") as z:
            for k, v in entries.items():
                z.writestr(zipfile.ZipInfo(k), bytes(v))
        return b.getvalue()

    def folder(self, name, entries):
        p = self.path(name)
        self.mkdir(p)
        for k, v in entries.items():
            self.write(p + "/" + k, v)
        return p

    # ---- spec helpers shared by both sides
    def rows(self, a):
        return list(a)

    def clamp(self, x, lo, hi):
        return self.min(self.max(x, lo), hi)

    def abs(self, x):
        return self.ite(x < 0, -x, x)

    def check_le(self, label, a, b, margin=None):
        """a <= b (specification reals); `margin` gives a grosser violation to
        look for first when searching a counterexample"""
        if margin is None:
            self.check(label, a <= b)
        else:
            self.check(label, a <= b, a <= b + margin)

    def close(self, label, a, b, tol, margin=None):
        d = a - b
        hints = ()
        if margin is not None:
            hints = (self.land(d <= tol + margin, -d <= tol + margin),)
        self.check(label, self.land(d <= tol, -d <= tol), *hints)

    def outcome(self, fn, errors=(Exception,)):
        """('ok', value) | ('err', exception type name)"""
        try:
            return "ok", fn()
        except errors as e:
            if type(e).__name__ in ("Unsupported", "KernelOOB"):
                raise
            return "err", next((t.__name__ for t in (FileNotFoundError, IndexError, KeyError, ValueError) if isinstance(e, t)),
                               type(e).__name__)

    def raises(self, label, fn, types=(ValueError,)):
        k, v = self.outcome(fn)
        self.check(label, k == "err" and v in [t.__name__ for t in types])
        return k


class SymCx(_Base):
    sym = True

    def __init__(self, eng, gs):
        from . import ir, npshim
        self.eng = eng
        self.gs = gs
        self.ir = ir
        self.nps = npshim
        self.np = npshim.shim
        self.checks = []
        self.observed = []
        self.notes = []

    # ---- inputs
    def scalar(self, name, dt="f32", lo=None, hi=None):
        return self.ir.sym(name, dt, lo, hi)

    def int(self, name, lo, hi):
        return self.ir.sym(name, "int", lo, hi)

    def bool(self, name):
        return bool(self.ir.sym(name, "bool"))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        n = self.ir.sym(name, "int", 0, len(options) - 1)
        return options[self.eng.pick(n, len(options))]

    def arr(self, name, shape, dt="f32", lo=None, hi=None, rows=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            j = i
            if rows is not None and i[0] not in rows:
                j = (rows[0],) + i[1:]
            a[i] = self.ir.sym(ename(name, j), dt, lo, hi)
        return self.nps.wrap(a, dt)

    def carr(self, values, dt="f32"):
        return self.nps.from_concrete(np.asarray(values, dtype=NPD[dt]))

    # ---- bytes & files
    def path(self, name):
        return "/symfs/" + name

    def byte_syms(self, name, n):
        return [self.ir.sym(ename(name, (i,)), "u8") for i in range(n)]

    def mkbytes(self, items):
        from .fsshim import SymBytes
        return SymBytes.make(list(items))

    def arr_bytes(self, a):
        """little-endian bytes of an array"""
        from .fsshim import raw_items
        return list(raw_items(a.tobytes()))

    def image(self, a):
        from . import icshim
        return list(icshim.image(self.nps.as_sym(a)))

    def _jnum(self, v):
        import json
        from . import icshim
        if isinstance(v, self.ir.Node):
            if v.op == "const":
                v = v.val
                return json.dumps(float(v) if isinstance(v, (float, Fraction, np.floating)) else int(v))
            return icshim.literal(self.ir.cast(v, "f64") if v.dt in ("f16", "f32", "f64") else v)
        return json.dumps(v)

    def mkdir(self, p):
        from .fsshim import FS
        FS.dirs.add(p)

    def text(self, s):
        """header text; '{}'-formatted symbolic ints appear as tokens"""
        return list(s.encode())

    def write(self, path, items):
        from .fsshim import FS
        FS.files[path] = list(items)

    def read(self, path):
        from .fsshim import FS
        return list(FS.files[path])

    def files(self):
        """names of the files in the scratch directory"""
        from .fsshim import FS
        return sorted(k[len("/symfs/"):] for k in FS.files)

    def items(self, b):
        from .fsshim import raw_items
        return list(raw_items(b))

    def decode(self, items, dt, off=0):
        w = np.dtype(NPD[dt]).itemsize
        c = self.ir.const
        return self.ir.from_bytes([b if isinstance(b, self.ir.Node) else c(b, "u8") for b in items[off:off + w]], dt)

    # ---- logic
    def land(self, *xs):
        return self.ir.land(*xs)

    def lor(self, *xs):
        return self.ir.lor(*xs)

    def lnot(self, x):
        return self.ir.lnot(x)

    def implies(self, a, b):
        return self.ir.implies(self.ir.const(a), self.ir.const(b))

    def ite(self, c, a, b):
        return self.ir.ite(c, a, b)

    def min(self, a, b):
        return self.ir.fmin(a, b)

    def max(self, a, b):
        return self.ir.fmax(a, b)

    def R(self, x):
        if isinstance(x, np.ndarray):
            x = self.nps.as_sym(x).reshape(-1)[0]
        return self.ir.to_real(x)

    def exp(self, x):
        return self.ir.mk("exp", (self.ir.to_real(x),), "real")

    def log(self, x):
        return self.ir.mk("log", (self.ir.to_real(x),), "real")

    def sqrt(self, x):
        return self.ir.mk("sqrt", (self.ir.to_real(x),), "real")

    def eq(self, a, b):
        return self._eq(a, b)

    def _eq(self, a, b):
        """bit equality of scalars, not folded so that the solver decides it"""
        ir = self.ir
        a, b = ir.const(a), ir.const(b)
        if a.dt != b.dt:
            return ir.const(False)
        if a.dt == "bool":
            return ir.mk("iff", (a, b), "bool")
        return ir.mk("eqbits", (a, b), "bool")

    def assume(self, c):
        self.eng.assume(c)

    def check(self, label, cond, *hints):
        c = self.ir.const(cond)
        self.checks.append((label, c, [self.ir.const(h) for h in hints]))

    def _flat(self, a):
        from .rt import is_tensor
        if is_tensor(a):
            a = a._arr
        s = self.nps.as_sym(a)
        return s.shape, s._dt, list(np.asarray(s).reshape(-1)) if s.ndim else [s.reshape(-1)[0]]

    def same(self, label, a, b, dtype=True):
        """bit-for-bit equality incl. shape and dtype (None equals None)"""
        if a is None or b is None:
            self.check(label, a is None and b is None)
            return
        if isinstance(a, (str, bytes, list, tuple, dict, type(None))) and not _has_nodes(a) and not _has_nodes(b):
            self.check(label, a == b)
            return
        sa, da, fa = self._flat(a)
        sb, db, fb = self._flat(b)
        if sa != sb:
            self.check(label + ":shape", False)
            return
        if da != db:
            self.check(label + ":dtype", False if dtype else True)
            if dtype:
                return
        if fa:
            self.check(label, self.ir.mk("land", tuple(self._eq(x, y) for x, y in zip(fa, fb)), "bool")
                       if len(fa) > 1 else self._eq(fa[0], fb[0]))

    def same_items(self, label, a, b):
        """equality of byte sequences"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.check(label + ":length", False)
            return
        c = self.ir.const
        self.check(label, self.ir.mk("land", tuple(self._eq(c(x, "u8"), c(y, "u8")) for x, y in zip(a, b)), "bool")
                   if len(a) > 1 else (self._eq(c(a[0], "u8"), c(b[0], "u8")) if a else True))

    def observe(self, name, a):
        if a is None:
            self.observed.append((name, [self.ir.const(-1)]))
            return
        if isinstance(a, (list, tuple)):
            self.observed.append((name, [self.ir.const(x, "u8") if isinstance(x, int) else x for x in a]))
            return
        if not isinstance(a, np.ndarray) and not hasattr(a, "_sx_tensor"):
            self.observed.append((name, [self.ir.const(a)]))
            return
        _, _, f = self._flat(a)
        self.observed.append((name, f))

    def snap(self, a):
        """a private copy of the current contents"""
        from .rt import is_tensor
        if a is None:
            return None
        if is_tensor(a):
            a = a._arr
        return a.copy()

    def nd(self, a):
        """numpy view of an array or a CPU tensor"""
        return a._arr if hasattr(a, "_sx_tensor") else a

    def torch(self):
        from . import torchshim
        return torchshim.shim

    def shares(self, a, b):
        return np.shares_memory(self.nps.base_of(self.nd(a)), self.nps.base_of(self.nd(b)))

    def schedules(self, label, fn):
        """fn's parallel loops give the same result under every schedule: no two iterations touch one element unless both only read it"""
        from .race import Race
        from .ir import State
        old, State.race = State.race, Race()
        try:
            r = fn()
        finally:
            race, State.race = State.race, old
        conds = list(dict.fromkeys(race.conds))
        for i in range(0, max(1, len(conds)), 50):
            self.check(f"{label}: every schedule gives the same result", self.ir.lnot(self.ir.lor(*conds[i:i + 50])) if conds else True)
        self.loops = getattr(self, "loops", 0) + race.loops
        return r

    def traced(self, fn):
        """(fn(), the statements of the package it came past)"""
        from . import steps
        return steps.traced(fn)

    def interleave(self, a, b, seen, name="at"):
        """(a(), b()) with all of b running before some statement a comes past, whichever it is"""
        from . import steps
        from .ir import State

        def around(b):
            old = State.guards, State.numba
            State.guards, State.numba = [], 0
            try:
                return b()
            finally:
                State.guards, State.numba = old
        at = self.ir.sym(name, "int", 0, max(steps.index().values()))
        return steps.interleave(a, b, self.eng.pick(at, seen), around)

    def ref(self, fn, *args):
        """a specification function used as an oracle (its own code runs on both sides)"""
        return fn(*args)


def _has_nodes(a):
    from .ir import Node
    if isinstance(a, Node) or isinstance(a, np.ndarray):
        return True
    if isinstance(a, (list, tuple)):
        return any(_has_nodes(x) for x in a)
    if isinstance(a, dict):
        return any(_has_nodes(x) for x in a.values())
    return False


class ConcreteCx(_Base):
    sym = False

    def __init__(self, env, gs, tmp):
        self.env = env
        self.gs = gs
        self.np = np
        self.tmp = tmp
        self.checks = []
        self.observed = []

    def _val(self, name, dt, lo=None, hi=None):
        v = self.env.get(name)
        if v is None:
            v = 0 if lo is None else lo
        if dt == "bool":
            return np.bool_(v)
        if dt in ("f16", "f32", "f64"):
            return NPD[dt](v)
        return v

    def scalar(self, name, dt="f32", lo=None, hi=None):
        v = self._val(name, dt, lo, hi)
        return NPD[dt](v) if dt in NPD else int(v)

    def int(self, name, lo, hi):
        return int(self._val(name, "int", lo, hi))

    def bool(self, name):
        return bool(self._val(name, "bool"))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._val(name, "int", 0))]

    def arr(self, name, shape, dt="f32", lo=None, hi=None, rows=None):
        a = np.empty(shape, dtype=NPD[dt])
        for i in np.ndindex(*shape):
            j = i
            if rows is not None and i[0] not in rows:
                j = (rows[0],) + i[1:]
            a[i] = self._val(ename(name, j), dt, lo, hi)
        return a

    def carr(self, values, dt="f32"):
        return np.asarray(values, dtype=NPD[dt]).copy()

    def path(self, name):
        return os.path.join(self.tmp, name)

    def byte_syms(self, name, n):
        return [int(self._val(ename(name, (i,)), "u8")) for i in range(n)]

    def mkbytes(self, items):
        return bytes(int(x) for x in items)

    def arr_bytes(self, a):
        return list(a.tobytes())

    def image(self, a):
        import imagecodecs
        a = np.ascontiguousarray(a)
        b = imagecodecs.webp_encode(a, lossless=True)
        c = imagecodecs.webp_decode(b)
        if not (c == a[..., :c.shape[2]]).all() or (c.shape[2] == 3 and a.shape[2] == 4 and not (a[..., 3] == 255).all()):
            raise RuntimeError("the image library did not keep the pixels")
        return list(b)

    def _jnum(self, v):
        import json
        return json.dumps(float(v) if isinstance(v, (np.floating, Fraction)) else v.item() if isinstance(v, np.generic) else v)

    def mkdir(self, p):
        os.makedirs(p, exist_ok=True)

    def text(self, s):
        return list(s.encode())

    def write(self, path, items):
        with open(path, "wb") as f:
            f.write(bytes(int(x) for x in items))

    def read(self, path):
        with open(path, "rb") as f:
            return list(f.read())

    def files(self):
        return sorted(os.path.relpath(os.path.join(r, f), self.tmp) for r, _, fs in os.walk(self.tmp) for f in fs)

    def items(self, b):
        return list(bytes(b))

    def decode(self, items, dt, off=0):
        w = np.dtype(NPD[dt]).itemsize
        return np.frombuffer(bytes(int(x) for x in items[off:off + w]), dtype=NPD[dt])[0]

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lor(self, *xs):
        return any(bool(x) for x in xs)

    def lnot(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, a, b):
        return a if a <= b else b

    def max(self, a, b):
        return b if a <= b else a

    def R(self, x):
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)[0]
        if isinstance(x, Fraction):
            return x
        if isinstance(x, (float, np.floating)):
            f = float(x)
            return Fraction(f) if math.isfinite(f) else float("nan")
        return Fraction(int(x))

    def exp(self, x):
        x = float(x)
        return Fraction(math.exp(min(x, 700.0))) if x > -700.0 else Fraction(0)

    def log(self, x):
        return Fraction(math.log(float(x))) if x > 0 else float("nan")

    def sqrt(self, x):
        return Fraction(math.sqrt(float(x))) if x >= 0 else float("nan")

    def eq(self, a, b):
        return np.asarray(a).tobytes() == np.asarray(b).tobytes()

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def check(self, label, cond, *hints):
        self.checks.append((label, bool(cond)))

    @staticmethod
    def _np(a):
        if hasattr(a, "detach"):
            a = a.detach().cpu().numpy()
        return np.asarray(a)

    def same(self, label, a, b, dtype=True):
        if a is None or b is None:
            self.check(label, a is None and b is None)
            return
        if isinstance(a, (str, bytes, list, tuple, dict)) and not hasattr(a, "shape"):
            self.check(label, a == b)
            return
        a, b = self._np(a), self._np(b)
        if a.shape != b.shape:
            self.check(label + ":shape", False)
            return
        if a.dtype != b.dtype:
            self.check(label + ":dtype", not dtype)
            if dtype:
                return
        if a.size:
            self.check(label, a.tobytes() == b.tobytes())

    def same_items(self, label, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.check(label + ":length", False)
            return
        self.check(label, all(int(x) == int(y) for x, y in zip(a, b)))

    def observe(self, name, a):
        if a is None:
            self.observed.append((name, [-1]))
        elif isinstance(a, (list, tuple)):
            self.observed.append((name, list(a)))
        else:
            self.observed.append((name, list(self._np(a).reshape(-1))))

    def snap(self, a):
        return None if a is None else self._np(a).copy()

    def nd(self, a):
        return self._np(a)

    def torch(self):
        import torch
        return torch

    def shares(self, a, b):
        return np.shares_memory(self._np(a), self._np(b))

    def traced(self, fn):
        return fn(), None

    def interleave(self, a, b, seen, name="at"):
        from . import steps
        return steps.interleave(a, b, int(self._val(name, "int", 0)))

    def schedules(self, label, fn):
        from . import sched
        r = fn()
        self.check(f"{label}: every schedule gives the same result", sched.explore(fn))
        return r

    def ref(self, fn, *args):
        return fn(*args)


class AssumptionFailed(Exception):
    pass


def enc(v):
    if isinstance(v, (bool, np.bool_)):
        return ["b", int(v)]
    if isinstance(v, np.float16):
        return ["h", int(v.view(np.uint16))]
    if isinstance(v, np.float32):
        return ["f", int(v.view(np.uint32))]
    if isinstance(v, (np.float64, float)):
        return ["d", int(np.float64(v).view(np.uint64))]
    if isinstance(v, Fraction):
        return ["r", str(v)]
    return ["i", int(v)]


def dec(e):
    k, v = e
    if k == "b":
        return bool(v)
    if k == "h":
        return np.uint16(v).view(np.float16)
    if k == "f":
        return np.uint32(v).view(np.float32)
    if k == "d":
        return np.uint64(v).view(np.float64)
    if k == "r":
        return Fraction(v)
    return int(v)
