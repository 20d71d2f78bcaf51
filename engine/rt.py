"""Runtime support called from instrumented code."""
from __future__ import annotations

import builtins
import io
import math
import pathlib

import numpy as np

from . import ir, npshim
from .ir import Node, State, Unsupported, const
from .npshim import SymArray, as_sym, from_concrete


class RestartFork(BaseException):
    """an if-converted site turned out not to be mergeable: fork there instead"""

    def __init__(self, site=None):
        self.site = site


UNDEF = object()
NOCONV = set()
_sites = []


def is_tensor(x):
    return hasattr(x, "_sx_tensor")


def sx_symbolic(c, site):
    if isinstance(c, SymArray) and c.size == 1 or is_tensor(c) and c._arr.size == 1:
        c = (c._arr if is_tensor(c) else c).reshape(-1)[0]
    if isinstance(c, Node) and c.op != "const":
        if site in NOCONV:
            return False
        _sites.append(site)
        return True
    return False


def _condnode(c):
    if is_tensor(c):
        c = c._arr
    if isinstance(c, SymArray):
        c = c.reshape(-1)[0]
    c = const(c)
    return c if c.dt == "bool" else ir.cast(c, "bool")


def sx_push(c, pol):
    c = _condnode(c)
    State.guards.append(c if pol else ir.lnot(c))


def sx_pop():
    State.guards.pop()


def sx_save(loc, names):
    return {n: loc.get(n, UNDEF) for n in names}


def sx_get(saved, n):
    return saved[n]


def sx_merge(c, saved, name, cur, site):
    a, b = saved[name], cur
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    r = _merge(_condnode(c), a, b)
    if r is UNDEF:
        raise RestartFork(site)
    return r


SC = (Node, bool, int, float, np.generic)


def _merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, SC) and isinstance(b, SC):
        if not isinstance(a, Node) and not isinstance(b, Node) and type(a) is type(b) and a == b:
            return a
        try:
            return ir.ite(c, a if isinstance(a, Node) else const(a), b if isinstance(b, Node) else const(b))
        except Unsupported:
            return UNDEF
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = tuple(_merge(c, x, y) for x, y in zip(a, b))
        return UNDEF if any(x is UNDEF for x in r) else r
    if isinstance(a, SymArray) and isinstance(b, SymArray) and a.shape == b.shape and a._dt == b._dt and State.numba:
        return npshim.where_(c, a, b)
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and a == b:
        return a
    return UNDEF


def sx_gt(x):
    if State.guards and not isinstance(x, SymArray) and not is_tensor(x) and not isinstance(x, npshim._Flat):
        raise RestartFork(_sites[-1] if _sites else None)
    return x


def sx_test(c):
    if isinstance(c, Node):
        return bool(c)
    return c


ENCODED = {}


def sx_enter(name):
    ENCODED[name] = ENCODED.get(name, 0) + 1


def sx_tick():
    State.steps += 1
    if State.steps > State.step_limit:
        from .fsshim import StepLimit
        raise StepLimit()


def _symb(a):
    return isinstance(a, Node) and a.op != "const"


def sx_and(a, fb):
    if _symb(a) and a.dt == "bool":
        State.guards.append(a)
        try:
            b = fb()
        except (RestartFork, Unsupported):
            raise
        except Exception:
            # evaluating the right operand may be unsafe when a is false: fork
            b = UNDEF
        finally:
            State.guards.pop()
        if b is UNDEF:
            return fb() if bool(a) else False
        if isinstance(b, Node) and b.dt == "bool" or isinstance(b, (bool, np.bool_)):
            return ir.land(a, b)
        return b if bool(a) else a
    if not a:
        return a
    return fb()


def sx_or(a, fb):
    if _symb(a) and a.dt == "bool":
        State.guards.append(ir.lnot(a))
        try:
            b = fb()
        except (RestartFork, Unsupported):
            raise
        except Exception:
            b = UNDEF
        finally:
            State.guards.pop()
        if b is UNDEF:
            return True if bool(a) else fb()
        if isinstance(b, Node) and b.dt == "bool" or isinstance(b, (bool, np.bool_)):
            return ir.lor(a, b)
        return a if bool(a) else b
    if a:
        return a
    return fb()


def sx_not(a):
    if isinstance(a, Node):
        return ir.lnot(a if a.dt == "bool" else ir.compare("ne", a, 0))
    return not a


def sx_ifexp(c, fa, fb):
    if isinstance(c, SymArray) and c.size == 1:
        c = c.reshape(-1)[0]
    if _symb(c):
        cc = _condnode(c)
        try:
            State.guards.append(cc)
            try:
                a = fa()
            finally:
                State.guards.pop()
            State.guards.append(ir.lnot(cc))
            try:
                b = fb()
            finally:
                State.guards.pop()
        except (RestartFork, Unsupported):
            raise
        except Exception:
            return fa() if bool(cc) else fb()
        r = _merge(cc, a, b)
        if r is not UNDEF:
            return r
        return a if bool(cc) else b
    return fa() if c else fb()


def sx_in(x, c):
    if isinstance(x, Node) and x.op == "const":
        x = ir.py_scalar(x)
    if isinstance(x, Node):
        if isinstance(c, dict):
            ks = list(c)
        elif isinstance(c, range):
            return ir.land(x >= c.start, x < c.stop) if c.step == 1 else any(bool(x == k) for k in c)
        else:
            ks = list(c)
        return ir.lor(*[x == k for k in ks if isinstance(k, (int, float, Node))]) if ks else False
    return x in c


# ------------------------------------------------------------------ builtins
def b_float(*a):
    x = a[0] if a else 0.0
    if isinstance(x, str) and x.strip() in ir._tokens:
        return ir.cast(ir._tokens[x.strip()], "f64")
    if isinstance(x, SymArray) or is_tensor(x):
        x = (x._arr if is_tensor(x) else x)
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.reshape(-1)[0]
    if isinstance(x, Node):
        return ir.cast(x, "f64") if x.op != "const" or State.numba else float(x.val)
    r = builtins.float(*a)
    return r


def b_int(*a, **k):
    x = a[0] if a else 0
    if len(a) == 1 and isinstance(x, (str, bytes)):
        t = (x.decode("ascii") if isinstance(x, bytes) else x).strip()
        if t in ir._tokens:
            return ir._tokens[t]
    if isinstance(x, SymArray) or is_tensor(x):
        x = (x._arr if is_tensor(x) else x)
        x = x.reshape(-1)[0]
    if isinstance(x, Node):
        if x.op == "const":
            return int(x.val)
        if ir.is_float(x.dt):
            return ir.cast(x, "i64" if State.numba else "int") if State.numba else ir.mk("f2i", (x,), "i64")
        return ir.cast(x, "i64" if State.numba else "int")
    return builtins.int(*a, **k)


def b_bool(*a):
    x = a[0] if a else False
    if isinstance(x, (SymArray,)) and x.size == 1:
        x = x.reshape(-1)[0]
    if is_tensor(x):
        x = x._arr.reshape(-1)[0]
    if isinstance(x, Node):
        return _condnode(x)
    return builtins.bool(*a)


def b_abs(x):
    return abs(x)


def _mm(op):
    bf = builtins.min if op == "min" else builtins.max

    def f(*a, **k):
        if k:
            items = list(a[0]) if len(a) == 1 else list(a)
            if "key" in k or not any(isinstance(x, Node) for x in items):
                return bf(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        if len(items) == 0:
            return bf(*a, **k)
        if not any(isinstance(x, Node) for x in items) and not State.numba:
            return bf(items)
        if any(isinstance(x, np.ndarray) and x.ndim for x in items):
            return bf(items)
        r = items[0]
        for x in items[1:]:
            r = ir.fmin(r, x) if op == "min" else ir.fmax(r, x)
        return r
    return f


b_min, b_max = _mm("min"), _mm("max")


def b_len(x):
    if isinstance(x, Node):
        raise TypeError("object of type 'float' has no len()")
    r = x.__len__() if not isinstance(x, type) else builtins.len(x)
    return r


def b_range(*a):
    a = [x.__index__() if isinstance(x, Node) else x for x in a]
    return builtins.range(*a)


def b_sum(it, start=0):
    if isinstance(it, SymArray):
        it = list(it)
    r = start
    for x in it:
        r = r + x
    return r


def b_any(it):
    xs = list(it)
    if any(isinstance(x, Node) for x in xs):
        return ir.lor(*[_condnode(x) for x in xs])
    return builtins.any(xs)


def b_all(it):
    xs = list(it)
    if any(isinstance(x, Node) for x in xs):
        return ir.land(*[_condnode(x) for x in xs])
    return builtins.all(xs)


def b_round(x, *a):
    if isinstance(x, Node):
        if a:
            raise Unsupported("round digits")
        return ir.mk("f2i", (ir.func("rint", x),), "i64") if ir.is_float(x.dt) else x
    return builtins.round(x, *a)


def b_isinstance(x, cls):
    if isinstance(x, Node):
        cs = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            if hasattr(c, "__args__") and not isinstance(c, type):
                flat.extend(c.__args__)
            else:
                flat.append(c)
        t = ir.NP.get(x.dt, int)
        return any(isinstance(c, type) and issubclass(t, c) for c in flat)
    from .fsshim import SymBytes
    if isinstance(x, SymBytes):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(c in (bytes, bytearray) if not isinstance(c, type(int | str)) else bytes in c.__args__ for c in cs)
    return builtins.isinstance(x, cls)


def b_bytes(*a, **k):
    from .fsshim import SymByteArray, SymBytes
    if a and isinstance(a[0], SymByteArray):
        return SymBytes.make(a[0].items)
    if a and isinstance(a[0], SymBytes):
        return a[0]
    if a and isinstance(a[0], SymArray):
        return a[0].tobytes()
    return builtins.bytes(*a, **k)


def b_bytearray(*a, **k):
    from .fsshim import SymByteArray, SymBytes, raw_items
    if not a or len(a) > 1 or k:
        return SymByteArray(builtins.bytearray(*a, **k))
    x = a[0]
    if isinstance(x, Node):
        x = x.__index__()
    return SymByteArray(raw_items(x) if isinstance(x, (SymBytes, SymArray)) else builtins.bytearray(x) if isinstance(x, (int, bytes, builtins.bytearray, memoryview)) else x)


def b_open(path, mode="r", *a, **k):
    from .fsshim import FS
    return FS.open(str(path), mode)


def b_divmod(a, b):
    return a // b, a % b


def b_pow(a, b, *m):
    return ir.power(a, b) if isinstance(a, Node) or isinstance(b, Node) else builtins.pow(a, b, *m)


def b_id(x):
    return builtins.id(x)


def b_memoryview(x):
    from .fsshim import SymBytes
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymArray):
        return x.tobytes()
    return builtins.memoryview(x)


def _m1(op):
    def f(x):
        if isinstance(x, Node):
            if op in ("floor", "ceil", "trunc"):
                if not ir.is_float(x.dt):
                    return x
                return ir.mk("f2i", (ir.func(op, x),), "i64")
            return ir.func(op, ir.cast(x, "f64"))
        return getattr(math, op)(x)
    return f


def m_isclose(a, b, **k):
    if isinstance(a, Node) or isinstance(b, Node):
        return abs(a - b) <= k.get("rel_tol", 1e-9) * ir.fmax(abs(a), abs(b))
    return math.isclose(a, b, **k)


def m_isfinite(x):
    return npshim._fclass("isfinite", const(x)) if isinstance(x, Node) else math.isfinite(x)


OVERRIDE = {
    builtins.float: b_float, builtins.int: b_int, builtins.bool: b_bool, builtins.abs: b_abs, builtins.min: b_min,
    builtins.max: b_max, builtins.range: b_range, builtins.sum: b_sum, builtins.any: b_any, builtins.all: b_all,
    builtins.round: b_round, builtins.isinstance: b_isinstance, builtins.bytes: b_bytes, builtins.bytearray: b_bytearray, builtins.open: b_open,
    io.open: b_open, builtins.divmod: b_divmod, builtins.pow: b_pow, builtins.memoryview: b_memoryview,
    math.sqrt: _m1("sqrt"), math.exp: _m1("exp"), math.log: _m1("log"), math.floor: _m1("floor"), math.ceil: _m1("ceil"),
    math.trunc: _m1("trunc"), math.isclose: m_isclose, math.isfinite: m_isfinite,
}


def _npscalar(t):
    def f(*a, **k):
        x = a[0] if a else 0
        if isinstance(x, SymArray):
            if x.ndim == 0 or x.size == 1 and State.numba:
                x = x.reshape(-1)[0]
            else:
                return x.astype(t)
        if is_tensor(x):
            x = x._arr.reshape(-1)[0]
        if isinstance(x, Node):
            if x.op == "const" and not State.numba:
                return t(x.val)
            return ir.cast(x, ir.FROM_NP[np.dtype(t)])
        if State.numba:
            return ir.cast(const(x), ir.FROM_NP[np.dtype(t)])
        return t(*a, **k)
    return f


for _t in ir.NP.values():
    OVERRIDE[_t] = _npscalar(_t)

_PATH_METHODS = {"exists", "is_file", "is_dir", "open", "read_bytes", "write_bytes", "mkdir", "stat", "unlink",
                 "resolve", "absolute", "expanduser", "rename", "replace"}


def sx_call(f, *a, **k):
    try:
        o = OVERRIDE.get(f)
    except TypeError:
        o = None
    if o is not None:
        return o(*a, **k)
    s = getattr(f, "__self__", None)
    if s is not None:
        if isinstance(s, pathlib.PurePath):
            n = getattr(f, "__name__", "")
            if n in _PATH_METHODS:
                from .fsshim import FS
                r = FS.path_method(s, n, a, k)
                if r is not NotImplemented:
                    return r
        elif isinstance(s, bytes) and getattr(f, "__name__", "") == "join":
            parts = list(a[0])
            from .fsshim import SymBytes, raw_items
            if any(isinstance(p, (SymBytes, np.ndarray)) for p in parts):
                out = []
                for i, p in enumerate(parts):
                    if i:
                        out.extend(s)
                    out.extend(raw_items(p))
                return SymBytes.make(out)
        elif isinstance(s, np.ndarray) and not isinstance(s, SymArray) and getattr(f, "__name__", "") == "tofile":
            return from_concrete(s).tofile(*a, **k)
        elif State.numba and isinstance(s, np.ndarray) is False and isinstance(s, (dict, list)) and State.guards:
            raise RestartFork(_sites[-1] if _sites else None)
    if State.numba:
        n = getattr(f, "__module__", "") or ""
        if f in (np.sqrt, np.exp, np.log, np.floor, np.ceil, np.abs) and len(a) == 1 and not isinstance(a[0], np.ndarray):
            x = const(a[0])
            if f is np.abs:
                return ir.unop("abs", x)
            return ir.func(f.__name__, x)
        if f in (np.minimum, np.maximum) and not any(isinstance(x, np.ndarray) for x in a):
            return ir.fmin(*a) if f is np.minimum else ir.fmax(*a)
    return f(*a, **k)


BUILTINS = {
    "__sx_call__": sx_call, "__sx_symbolic__": sx_symbolic, "__sx_push__": sx_push, "__sx_pop__": sx_pop,
    "__sx_save__": sx_save, "__sx_get__": sx_get, "__sx_merge__": sx_merge, "__sx_gt__": sx_gt, "__sx_test__": sx_test,
    "__sx_tick__": sx_tick, "__sx_and__": sx_and, "__sx_or__": sx_or, "__sx_not__": sx_not, "__sx_ifexp__": sx_ifexp,
    "__sx_in__": sx_in, "__sx_enter__": sx_enter,
}
