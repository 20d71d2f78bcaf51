"""numpy stand-in: real ndarray views of object dtype holding IR nodes.

Shapes, strides, views, aliasing and all data-movement semantics are numpy's
own (the storage *is* a numpy array); element arithmetic goes to the IR and
dtypes are tracked logically with numpy's promotion rules (or numba's inside
kernels)."""
from __future__ import annotations

import numpy as np
import types as _types

from . import ir
from .ir import Node, NP, Unsupported, State, const, dt_of_np, is_float


class KernelOOB(Exception):
    """out-of-bounds element access inside a compiled kernel (undefined behaviour)"""


def _dt_of(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, str) and dtype in NP:
        return dtype
    d = np.dtype(dtype)
    if d.byteorder == ">" or (d.byteorder == "=" and not np.little_endian):
        raise Unsupported("big-endian dtype")
    d = d.newbyteorder("=")
    if d not in ir.FROM_NP:
        raise Unsupported(f"dtype {d}")
    return ir.FROM_NP[d]


def ensure_nodes(obj, dt):
    """object array -> every element a Node of dtype dt (new storage)"""
    out = np.empty(obj.shape, dtype=object)
    fo, fi = out.reshape(-1) if out.flags["C_CONTIGUOUS"] else out.ravel(), obj.ravel()
    for i in range(fi.size):
        fo[i] = ir.cast(const(fi[i]), dt)
    return fo.reshape(obj.shape) if fo.base is None and fo is not out else out


def from_concrete(a):
    """real ndarray -> SymArray of constants"""
    a = np.asarray(a)
    dt = dt_of_np(a.dtype) if a.dtype != object else None
    if dt is None:
        raise Unsupported("object array")
    out = np.empty(a.shape, dtype=object)
    f = out.reshape(-1)
    src = a.ravel()
    cache = {}
    for i in range(src.size):
        v = src[i]
        k = v.tobytes()
        n = cache.get(k)
        if n is None:
            n = const(v, dt)
            cache[k] = n
        f[i] = n
    return wrap(out, dt)


def wrap(obj, dt):
    r = obj.view(SymArray)
    r._dt = dt
    return r


def base_of(a):
    """plain object ndarray sharing storage"""
    return np.ndarray.view(a, np.ndarray)


def as_sym(x, dtype=None):
    if isinstance(x, SymArray):
        return x
    if hasattr(x, "_sx_tensor"):
        return x._arr
    if isinstance(x, Node):
        o = np.empty((), dtype=object)
        dt = x.dt if x.dt in NP else "i64"
        o[()] = ir.cast(x, dt)
        return wrap(o, dt)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return _from_obj(x)
        return from_concrete(x)
    if isinstance(x, np.generic):
        return from_concrete(np.asarray(x))
    if isinstance(x, (list, tuple)):
        return _from_seq(x)
    if isinstance(x, (bool, int, float)):
        return from_concrete(np.asarray(x))
    raise Unsupported(f"array from {type(x).__name__}")


def _from_obj(x):
    dts = set()
    for e in x.ravel():
        n = const(e)
        dts.add("i64" if n.dt == "int" else n.dt)
    dt = _common(dts) if dts else "f64"
    out = np.empty(x.shape, dtype=object)
    f = out.reshape(-1)
    for i, e in enumerate(x.ravel()):
        f[i] = ir.cast(const(e), dt)
    return wrap(out, dt)


def _common(dts):
    dts = list(dts)
    r = dts[0]
    for d in dts[1:]:
        r = dt_of_np(np.promote_types(NP[r], NP[d]))
    return r


def _from_seq(x):
    if len(x) == 0:
        return from_concrete(np.asarray(x))
    if any(isinstance(e, (SymArray, np.ndarray, list, tuple)) for e in x):
        parts = [as_sym(e) for e in x]
        dt = _common([p._dt for p in parts])
        shp = {p.shape for p in parts}
        if len(shp) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = base_of(cast_arr(p, dt))
        return wrap(out, dt)
    if any(not isinstance(e, (Node, bool, int, float, np.generic)) for e in x):
        raise Unsupported("array from sequence of " + type(x[0]).__name__)
    if not any(isinstance(e, Node) for e in x):
        return from_concrete(np.asarray(x))
    o = np.empty(len(x), dtype=object)
    weak = [e for e in x if not isinstance(e, (Node, np.generic))]
    strong = [e.dt if isinstance(e, Node) and e.dt in NP else ("i64" if isinstance(e, Node) else dt_of_np(e.dtype))
              for e in x if isinstance(e, (Node, np.generic))]
    strong += [dt_of_np(np.asarray(e).dtype) for e in weak]
    dt = _common(strong)
    for i, e in enumerate(x):
        o[i] = ir.cast(const(e), dt)
    return wrap(o, dt)


def cast_arr(a, dt, copy=False):
    if a._dt == dt:
        return a.copy() if copy else a
    out = np.empty(a.shape, dtype=object)
    src = base_of(a)
    for idx in np.ndindex(a.shape):
        out[idx] = ir.cast(src[idx], dt)
    return wrap(out, dt)


# ------------------------------------------------------------------ indices
def _conv_index(idx, shape):
    """make indices concrete where they must be (forks through decide)"""
    if isinstance(idx, tuple):
        return tuple(_conv_index(i, shape) for i in idx)
    if isinstance(idx, Node):
        if idx.dt == "bool":
            return bool(idx)
        return idx.__index__()
    if hasattr(idx, "_sx_tensor"):
        idx = idx._arr
    if isinstance(idx, SymArray):
        if idx._dt == "bool":
            flat = [bool(e) for e in base_of(idx).ravel()]
            return np.array(flat, dtype=bool).reshape(idx.shape)
        if is_float(idx._dt):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        flat = [int(e.__index__()) for e in base_of(idx).ravel()]
        return np.array(flat, dtype=NP[idx._dt]).reshape(idx.shape)
    if isinstance(idx, slice):
        def c(v):
            return v.__index__() if isinstance(v, Node) else v
        return slice(c(idx.start), c(idx.stop), c(idx.step))
    if isinstance(idx, list) and any(isinstance(e, Node) for e in idx):
        return [bool(e) if e.dt == "bool" else e.__index__() if isinstance(e, Node) else e for e in idx]
    return idx


def _sym_int(i):
    return isinstance(i, Node) and i.op != "const" and i.dt != "bool"


def race_read(*arrays):
    """log that an iteration of a parallel loop reads whole arrays"""
    if State.race is not None and State.race.cur is not None:
        for a in arrays:
            if isinstance(a, SymArray):
                State.race.access(base_of(a), None, "r")


class _Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        f = base_of(self.a).flat
        i = _conv_index(i, self.a.shape)
        r = f[i]
        self._race(i, "r")
        return wrap(r, self.a._dt) if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        f = base_of(self.a).flat
        i = _conv_index(i, self.a.shape)
        self._race(i, "w")
        if isinstance(i, (int, np.integer)):
            v = ir.cast(const(v if not isinstance(v, np.ndarray) else v[()]), self.a._dt)
            if State.guards:
                v = ir.ite(ir.land(*State.guards), v, f[i])
            f[i] = v
        else:
            vv = cast_arr(as_sym(v), self.a._dt)
            f[i] = base_of(vv)

    def _race(self, i, kind):
        if State.race is not None and State.race.cur is not None:
            o = base_of(self.a)
            if isinstance(i, (int, np.integer)):
                State.race.access(o, tuple(int(k) for k in np.unravel_index(int(i) % max(1, self.a.size), self.a.shape)), kind)
            else:
                State.race.access(o, None, kind)

    def __len__(self):
        return self.a.size

    def __iter__(self):
        race_read(self.a)
        return iter(base_of(self.a).flat)


class SymArray(np.ndarray):
    __array_priority__ = 1e5

    def __array_finalize__(self, obj):
        if obj is None:
            return
        self._dt = getattr(obj, "_dt", None)

    # ---- metadata
    @property
    def dtype(self):
        return np.dtype(NP[self._dt]) if self._dt is not None else np.dtype(object)

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("dtype assignment")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def strides(self):
        k = self.dtype.itemsize
        return tuple(s // 8 * k for s in np.ndarray.strides.__get__(self))

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return _Flat(self)

    @flat.setter
    def flat(self, v):
        self[...] = np.reshape(as_sym(v), self.shape)

    @property
    def data(self):
        return _types.SimpleNamespace(contiguous=self.flags["C_CONTIGUOUS"], nbytes=self.nbytes)

    # ---- indexing
    def __getitem__(self, idx):
        o = base_of(self)
        # symbolic scalar index: build a select over the (concrete) extent
        tup = idx if isinstance(idx, tuple) else (idx,)
        if any(_sym_int(i) for i in tup) and all(isinstance(i, (int, np.integer, Node)) for i in tup) \
                and len(tup) == self.ndim and not any(isinstance(i, Node) and i.dt == "bool" for i in tup):
            if State.race is not None and State.race.cur is not None:
                State.race.sym_read(o, tup)
            return _select(self, tup)
        if State.numba and all(isinstance(i, (int, np.integer, Node)) for i in tup):
            idx = tuple(i.__index__() for i in tup)
            for i, s in zip(idx, self.shape):
                if i < -s or i >= s:
                    raise KernelOOB(f"index {idx} out of bounds for shape {self.shape}")
            if len(idx) == self.ndim:
                if State.race is not None and State.race.cur is not None:
                    State.race.access(o, idx, "r")
                return o[idx]
        idx = _conv_index(idx, self.shape)
        r = np.ndarray.__getitem__(o, idx)
        if State.race is not None and State.race.cur is not None and not (isinstance(r, np.ndarray) and np.shares_memory(r, o)):
            State.race.access(o, idx, "r")
        if isinstance(r, np.ndarray):
            return wrap(r, self._dt)
        return r

    def __setitem__(self, idx, v):
        o = base_of(self)
        tup = idx if isinstance(idx, tuple) else (idx,)
        if any(_sym_int(i) for i in tup) and all(isinstance(i, (int, np.integer, Node)) for i in tup) \
                and len(tup) == self.ndim and not any(isinstance(i, Node) and i.dt == "bool" for i in tup):
            return _sym_store(self, tup, v)
        if not self.flags.writeable:
            raise ValueError("assignment destination is read-only")
        if State.numba and all(isinstance(i, (int, np.integer, Node)) for i in tup):
            idx = tuple(i.__index__() for i in tup)
            for i, s in zip(idx, self.shape):
                if i < -s or i >= s:
                    raise KernelOOB(f"store index {idx} out of bounds for shape {self.shape}")
        # symbolic boolean mask store: merge instead of forking
        if isinstance(idx, SymArray) and idx._dt == "bool" and idx.shape == self.shape[:idx.ndim] \
                and (not isinstance(v, np.ndarray) or v.ndim == 0):
            vv = const(v if not isinstance(v, np.ndarray) else as_sym(v)[()])
            vv = ir.cast(vv, self._dt)
            m = base_of(idx)
            race_read(idx)
            if State.race is not None and State.race.cur is not None:
                State.race.access(o, None, "w")
            for k in np.ndindex(self.shape):
                c = m[k[:idx.ndim]]
                if State.guards:
                    c = ir.land(c, *State.guards)
                o[k] = ir.ite(c, vv, o[k])
            return
        idx = _conv_index(idx, self.shape)
        old = np.ndarray.__getitem__(o, idx)
        if State.race is not None and State.race.cur is not None:
            race_read(v)
            State.race.access(o, idx, "w", None if isinstance(v, np.ndarray) or isinstance(old, np.ndarray) else ir.cast(const(v), self._dt))
        if isinstance(old, np.ndarray):
            vv = as_sym(v)
            vv = base_of(cast_arr(vv, self._dt))
            if State.guards:
                g = ir.land(*State.guards)
                vb = np.broadcast_to(vv, old.shape)
                new = np.empty(old.shape, dtype=object)
                for k in np.ndindex(old.shape):
                    new[k] = ir.ite(g, vb[k], old[k])
                vv = new
            np.ndarray.__setitem__(o, idx, vv)
            return
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise ValueError("setting an array element with a sequence.")
            v = as_sym(v).reshape(-1)[0]
        n = ir.cast(const(v), self._dt)
        if State.guards:
            n = ir.ite(ir.land(*State.guards), n, old)
        o[idx] = n

    # ---- conversion
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = _dt_of(dtype)
        if dt == self._dt:
            return self.copy(order=order) if copy else self
        return relayout(cast_arr(self, dt), self, order)

    def copy(self, order="C"):
        race_read(self)
        return wrap(base_of(self).copy(order=order), self._dt)

    def __copy__(self):
        return self.copy(order="K")

    def __deepcopy__(self, memo):
        return self.copy(order="K")

    def view(self, dtype=None, type=None):
        if dtype is None or (isinstance(dtype, __builtins_type) and issubclass(dtype, np.ndarray)):
            return wrap(base_of(self), self._dt)
        dt = _dt_of(dtype)
        if dt == self._dt:
            return wrap(base_of(self), self._dt)
        return wrap(_reinterpret(self, dt), dt)

    def tobytes(self, order="C"):
        from .fsshim import SymBytes
        out = []
        w = self.itemsize
        src = base_of(self)
        if order == "A":
            order = "F" if src.flags.f_contiguous and not src.flags.c_contiguous else "C"
        for e in src.ravel(order="F" if order == "F" else "C"):
            for k in range(w):
                out.append(ir.byte_of(e, k))
        return SymBytes.make(out)

    def tofile(self, f, sep="", format=""):
        if State.guards:
            raise Unsupported("tofile under guard")
        if hasattr(f, "write"):
            f.write(self.tobytes())
        else:
            from .fsshim import FS
            FS.write(str(f), self.tobytes())

    def item(self, *a):
        if a:
            return ir.py_scalar(base_of(self).item(*a)) if isinstance(base_of(self).item(*a), Node) else base_of(self).item(*a)
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return ir.py_scalar(base_of(self).reshape(-1)[0])

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return ir.py_scalar(a[()])
            return [rec(a[i]) if a.ndim > 1 else ir.py_scalar(a[i]) for i in range(a.shape[0])]
        return rec(base_of(self))

    def fill(self, v):
        self[...] = v

    def __repr__(self):
        return f"SymArray{self.shape}:{self._dt}"

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        if self.ndim == 0:
            return format(base_of(self)[()], spec)
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickle of symbolic array")

    def __contains__(self, v):
        return bool(any_(self == v))

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("add", self, axis, keepdims, dtype, initial, where), out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("multiply", self, axis, keepdims, dtype, initial, where), out)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("minimum", self, axis, keepdims, None, initial, where), out)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return _out(reduce_("maximum", self, axis, keepdims, None, initial, where), out)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return any_(self, axis, out, keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return all_(self, axis, out, keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _out(mean_(self if dtype is None else self.astype(dtype), axis, keepdims=keepdims), out)

    def clip(self, min=None, max=None, out=None, **k):
        return clip_(self, min, max, out)

    def round(self, decimals=0, out=None):
        if not decimals:
            return ufunc_dispatch(np.rint, "__call__", (self,), {} if out is None else {"out": out})
        if not is_float(self._dt):
            raise Unsupported("round of integers to decimals")
        f = NP[self._dt](10.0) ** abs(decimals)
        r = ufunc_dispatch(np.rint, "__call__", (self * f if decimals > 0 else self / f,), {})
        return _out(r / f if decimals > 0 else r * f, out)

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        return var_(self, axis, ddof, keepdims)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return FUNCTIONS["std"](self, axis, ddof, keepdims)

    def byteswap(self, inplace=False):
        w = self.itemsize
        if w > 1:
            out = np.empty(self.shape, dtype=object)
            src = base_of(self)
            for k in np.ndindex(self.shape):
                out[k] = ir.from_bytes([ir.byte_of(src[k], b) for b in reversed(range(w))], self._dt)
        else:
            out = base_of(self).copy()
        if inplace:
            self[...] = wrap(out, self._dt)
            return self
        return wrap(out, self._dt)

    def nonzero(self):
        return nonzero_(self)

    def argmax(self, axis=None, out=None, **k):
        return arg_(self, axis, True)

    def argmin(self, axis=None, out=None, **k):
        return arg_(self, axis, False)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return argsort_(self, axis)

    def sort(self, axis=-1, **k):
        idx = argsort_(self, axis)
        self[...] = np.take_along_axis(self.copy(), idx, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum_(self, axis)

    def dot(self, o):
        return matmul_(self, o)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return wrap(base_of(self).take(_conv_index(indices, None), axis=axis), self._dt)

    def repeat(self, r, axis=None):
        return wrap(base_of(self).repeat(_conv_index(r, None), axis=axis), self._dt)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(base_of(self).reshape(-1)[0])

    def __float__(self):
        return float(base_of(self).reshape(-1)[0])

    def __int__(self):
        return int(base_of(self).reshape(-1)[0])

    def __index__(self):
        return base_of(self)[()].__index__()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, types, args, kwargs)


__builtins_type = type
SymArray.view.__globals__["_SymArray__builtins_type"] = type


def _reinterpret(a, dt):
    w0, w1 = a.itemsize, np.dtype(NP[dt]).itemsize
    src = base_of(a)
    if w0 != w1 and (a.ndim == 0 or not (a.flags["C_CONTIGUOUS"] or a.shape[-1] == 1 or src.strides[-1] == 8)):
        raise ValueError("To change to a dtype of a different size, the last axis must be contiguous")
    rows = src.reshape(-1, src.shape[-1]) if a.ndim else src.reshape(1, 1)
    nb = rows.shape[1] * w0
    if nb % w1:
        raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
    out = np.empty((rows.shape[0], nb // w1), dtype=object)
    for i in range(rows.shape[0]):
        bs = []
        for e in rows[i]:
            bs.extend(ir.byte_of(e, k) for k in range(w0))
        for j in range(nb // w1):
            out[i, j] = ir.from_bytes(bs[j * w1:(j + 1) * w1], dt)
    return out.reshape(src.shape[:-1] + (nb // w1,)) if a.ndim else out.reshape(())


def _select(a, tup):
    o = base_of(a)
    dims = []
    for i, s in zip(tup, a.shape):
        if isinstance(i, Node) and i.op != "const":
            lo, hi = ir.interval(i)
            neg = lo < 0
            inb = ir.land(i >= (-s), i < s)
            if not (lo >= -s and hi < s):
                if not State.engine.decide(inb):
                    if State.numba:
                        raise KernelOOB(f"symbolic index out of bounds for axis of size {s}")
                    raise IndexError(f"index is out of bounds for axis with size {s}")
            opts = []
            for k in range(s):
                c = i == k
                if neg:
                    c = ir.lor(c, i == (k - s))
                opts.append((k, c))
            # keep only feasible range
            if lo > 0 or hi < s - 1:
                opts = [(k, c) for k, c in opts if (lo <= k <= hi) or (neg and lo <= k - s <= hi)]
            dims.append(opts)
        else:
            k = i.__index__()
            if k < -s or k >= s:
                if State.numba:
                    raise KernelOOB(f"index {k} out of bounds for axis of size {s}")
                raise IndexError(f"index {k} is out of bounds for axis with size {s}")
            dims.append([(k, None)])

    def rec(d, pos):
        if d == len(dims):
            return o[tuple(pos)]
        r = None
        for k, c in reversed(dims[d]):
            v = rec(d + 1, pos + [k])
            r = v if (r is None or c is None) else ir.ite(c, v, r)
        return r
    if any(len(d) == 0 for d in dims):
        raise KernelOOB("symbolic index into empty axis") if State.numba else IndexError("index out of bounds")
    return rec(0, [])


def _sym_store(a, tup, v):
    o = base_of(a)
    v = ir.cast(const(v), a._dt)
    conds = []
    for i, s in zip(tup, a.shape):
        if isinstance(i, Node) and i.op != "const":
            inb = ir.land(i >= (-s), i < s)
            lo, hi = ir.interval(i)
            if not (lo >= -s and hi < s) and not State.engine.decide(inb):
                if State.numba:
                    raise KernelOOB("symbolic store index out of bounds")
                raise IndexError("index out of bounds")
            conds.append([(k, ir.lor(i == k, i == (k - s))) for k in range(s)])
        else:
            k = i.__index__()
            if k < 0:
                k += s
            conds.append([(k, const(True))])
    import itertools
    for combo in itertools.product(*conds):
        pos = tuple(k for k, _ in combo)
        c = ir.land(*[x for _, x in combo], *State.guards)
        if State.race is not None and State.race.cur is not None:
            State.race.sym_write(o, pos, c, v)
        o[pos] = ir.ite(c, v, o[pos])


# ------------------------------------------------------------------ ufuncs
_ARITH = {"add": "add", "subtract": "sub", "multiply": "mul", "floor_divide": "fdiv", "remainder": "mod",
          "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max",
          "bitwise_and": "and", "bitwise_or": "or", "bitwise_xor": "xor", "left_shift": "shl", "right_shift": "shr",
          "arctan2": "atan2"}
_CMP = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
_FUN = {"sqrt", "exp", "log", "floor", "ceil", "rint", "trunc", "log1p", "expm1", "log2", "exp2", "log10", "sin", "cos",
        "tanh"}


def _opdtype(x):
    if isinstance(x, SymArray):
        return np.dtype(NP[x._dt])
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, Node):
        if x.dt == "int":
            return 0
        return np.dtype(NP[x.dt])
    if hasattr(x, "_sx_tensor"):
        return np.dtype(NP[x._arr._dt])
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return np.dtype(np.int64) if State.numba else 0
    if isinstance(x, float):
        return np.dtype(np.float64) if State.numba else 0.0
    if isinstance(x, (list, tuple)):
        return as_sym(x).dtype
    raise Unsupported(f"operand {type(x).__name__}")


def result_dt(*xs):
    return dt_of_np(np.result_type(*[_opdtype(x) for x in xs]))


def _broadcast(xs):
    arrs = []
    for x in xs:
        if isinstance(x, SymArray):
            arrs.append(base_of(x))
        elif isinstance(x, np.ndarray):
            arrs.append(base_of(as_sym(x)))
        elif isinstance(x, (list, tuple)):
            arrs.append(base_of(as_sym(x)))
        else:
            o = np.empty((), dtype=object)
            o[()] = const(x) if not isinstance(x, Node) else x
            arrs.append(o)
    return np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs


def _map(fn, xs, dt):
    arrs = _broadcast(xs)
    out = np.empty(arrs[0].shape, dtype=object)
    if len(arrs) == 1:
        a = arrs[0]
        for k in np.ndindex(a.shape):
            out[k] = fn(a[k])
    elif len(arrs) == 2:
        a, b = arrs
        for k in np.ndindex(a.shape):
            out[k] = fn(a[k], b[k])
    else:
        for k in np.ndindex(arrs[0].shape):
            out[k] = fn(*[a[k] for a in arrs])
    return out


def _finish(out, dt, kw, scalar):
    o = kw.get("out")
    where = kw.get("where", True)
    if o is not None:
        o = o[0] if isinstance(o, tuple) else o
        if o is not None:
            if not isinstance(o, SymArray):
                raise Unsupported("out= to a non-symbolic array")
            src = wrap(out, dt)
            if where is not True:
                w = base_of(as_sym(where))
                cur = base_of(o)
                wb = np.broadcast_to(w, o.shape)
                sb = np.broadcast_to(base_of(cast_arr(src, o._dt)), o.shape)
                for k in np.ndindex(o.shape):
                    cur[k] = ir.ite(wb[k], sb[k], cur[k])
                return o
            o[...] = src
            return o
    if where is not True:
        raise Unsupported("ufunc where= without out")
    if scalar:
        return out[()]
    return wrap(out, dt)


def ufunc_dispatch(ufunc, method, inputs, kw):
    if State.race is not None and State.race.cur is not None:
        race_read(*[x for x in inputs if isinstance(x, SymArray) and x.ndim])
        for x in kw.get("out") or ():
            if isinstance(x, SymArray):
                State.race.access(base_of(x), None, "w")
    r = _ufunc_dispatch(ufunc, method, inputs, kw)
    if method == "__call__" and isinstance(r, SymArray) and r.ndim > 1 and kw.get("out") is None and ufunc.__name__ != "matmul":
        bs = [base_of(x) for x in inputs if isinstance(x, SymArray) and x.ndim]
        if any(not b.flags["C_CONTIGUOUS"] for b in bs):
            it = np.nditer(bs + [None], ["refs_ok", "zerosize_ok"], [["readonly"]] * len(bs) + [["writeonly", "allocate"]])
            lay = it.operands[-1]
            if lay.shape == r.shape:
                lay[...] = base_of(r)
                return wrap(lay, r._dt)
    return r


def relayout(r, like, order="K"):
    """r in the memory layout numpy's *_like functions give it"""
    if r.ndim < 2 or r.shape != like.shape or order == "C" or not isinstance(like, np.ndarray):
        return r
    lay = np.empty_like(base_of(like), dtype=object, order=order, subok=False)
    lay[...] = base_of(r)
    return wrap(lay, r._dt)


def _ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    if method == "reduce":
        return _out(reduce_(name, inputs[0], kw.get("axis", 0), kw.get("keepdims", False), kw.get("dtype"), kw.get("initial"), kw.get("where", True)), kw.get("out"))
    if method == "accumulate" and name == "add":
        return cumsum_(as_sym(inputs[0]), kw.get("axis", 0))
    if method == "at":
        a, idx = inputs[0], _conv_index(inputs[1], None)
        pos = np.arange(a.size).reshape(a.shape)[idx]
        vals = np.broadcast_to(base_of(as_sym(inputs[2])), pos.shape) if len(inputs) > 2 else None
        flat = base_of(a).reshape(-1) if a.flags["C_CONTIGUOUS"] else None
        if flat is None:
            raise Unsupported("ufunc.at on a strided array")
        for k in np.ndindex(pos.shape):
            p = int(pos[k])
            flat[p] = ir.cast(const(ufunc_dispatch(ufunc, "__call__", (flat[p],) if vals is None else (flat[p], vals[k]), {})), a._dt)
        return None
    if method == "reduceat":
        a, ax = as_sym(inputs[0]), kw.get("axis", 0)
        ix = [int(i) for i in np.ravel(_conv_index(inputs[1], None))]
        ax %= a.ndim
        parts = []
        for j, b in enumerate(ix):
            if b < 0 or b >= a.shape[ax]:
                raise IndexError(f"index {b} out-of-bounds in {name}.reduceat [0, {a.shape[ax]})")
            e = ix[j + 1] if j + 1 < len(ix) else a.shape[ax]
            sl = (slice(None),) * ax + (slice(b, e if e > b else b + 1),)
            r = reduce_(name, a[sl], ax, True, kw.get("dtype"))
            parts.append(r)
        return _out(concatenate_(parts, axis=ax), kw.get("out"))
    if method == "outer":
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        return ufunc_dispatch(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), kw)
    if method != "__call__":
        raise Unsupported(f"ufunc method {method}")
    inputs = tuple(x._arr if hasattr(x, "_sx_tensor") else x for x in inputs)
    scalar = not any(isinstance(x, (np.ndarray, list, tuple)) for x in inputs)
    if name == "matmul":
        return matmul_(*inputs)
    if scalar and State.numba is False:
        pass
    want = kw.get("dtype")
    if name in _ARITH or name in ("true_divide", "divide", "power", "float_power"):
        a, b = inputs
        if scalar:
            op = {"true_divide": "div", "divide": "div"}.get(name) or _ARITH.get(name)
            if name in ("power", "float_power"):
                return ir.power(a, b)
            if op in ("min", "max"):
                return ir.fmin(a, b) if op == "min" else ir.fmax(a, b)
            return ir.binop(op, a, b)
        cd = _dt_of(want) if want is not None else result_dt(a, b)
        if name == "float_power":
            cd, op = "f64", "pow"
        elif name in ("true_divide", "divide"):
            if not is_float(cd):
                cd = "f64"
            op = "div"
        elif name == "power":
            op = "pow"
        else:
            op = _ARITH[name]
        if cd == "bool":
            if op in ("and", "or", "xor"):
                f = {"and": ir.land, "or": ir.lor, "xor": lambda x, y: ir.lnot(ir.mk_eqb(x, y))}[op]
                return _finish(_map(f, (a, b), "bool"), "bool", kw, False)
            if op in ("mul", "min"):
                return _finish(_map(ir.land, (a, b), "bool"), "bool", kw, False)
            if op in ("add", "max"):
                return _finish(_map(ir.lor, (a, b), "bool"), "bool", kw, False)
            if op == "sub":
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            cd = "i8"
        if op in ("and", "or", "xor", "shl", "shr") and is_float(cd):
            raise TypeError(f"ufunc '{name}' not supported for the input types")
        if op == "pow":
            fn = lambda x, y: ir.cast(ir.power(ir.cast(x, cd), ir.cast(y, cd)), cd)
        else:
            fn = lambda x, y: ir.arith(op, ir.cast(x, cd), ir.cast(y, cd), cd)
        return _finish(_map(fn, (a, b), cd), cd, kw, False)
    if name in _CMP:
        a, b = inputs
        if scalar:
            return ir.compare(_CMP[name], a, b)
        op = _CMP[name]
        da, db = _opdtype(a), _opdtype(b)
        if isinstance(da, np.dtype) and isinstance(db, np.dtype) or State.numba:
            cd = result_dt(a, b)
            if cd == "bool":
                if op == "eq":
                    return _finish(_map(ir.mk_eqb, (a, b), "bool"), "bool", kw, False)
                if op == "ne":
                    return _finish(_map(lambda x, y: ir.lnot(ir.mk_eqb(x, y)), (a, b), "bool"), "bool", kw, False)
                cd = "i8"
            fn = lambda x, y: ir.compare(op, ir.cast(x, cd), ir.cast(y, cd))
        elif isinstance(da, np.dtype):
            cd = result_dt(a, b)
            fn = lambda x, y: ir.compare(op, ir.cast(x, cd), ir.cast(y, cd))
        else:
            cd = result_dt(a, b)
            fn = lambda x, y: ir.compare(op, ir.cast(x, cd), ir.cast(y, cd))
        return _finish(_map(fn, (a, b), "bool"), "bool", kw, False)
    if name in ("logical_and", "logical_or", "logical_xor"):
        f = {"logical_and": ir.land, "logical_or": ir.lor,
             "logical_xor": lambda x, y: ir.lnot(ir.mk_eqb(x, y))}[name]
        fn = lambda x, y: f(ir.cast(const(x), "bool"), ir.cast(const(y), "bool"))
        return _finish(_map(fn, inputs, "bool"), "bool", kw, scalar)
    if name == "logical_not":
        return _finish(_map(lambda x: ir.lnot(ir.cast(const(x), "bool")), inputs, "bool"), "bool", kw, scalar)
    if name == "invert":
        dt = as_sym(inputs[0])._dt
        return _finish(_map(lambda x: ~const(x), inputs, dt), dt, kw, scalar)
    if name in ("negative", "absolute", "positive", "fabs"):
        dt = as_sym(inputs[0])._dt
        op = {"negative": "neg", "absolute": "abs", "fabs": "abs"}.get(name)
        fn = (lambda x: const(x)) if op is None else (lambda x: ir.unop(op, const(x)))
        return _finish(_map(fn, inputs, dt), dt, kw, scalar)
    if name in _FUN:
        if scalar:
            return ir.func(name, inputs[0])
        dt = as_sym(inputs[0])._dt
        rd = dt if is_float(dt) else ("f64" if name not in ("floor", "ceil", "rint", "trunc") or dt == "bool" else dt)
        if want is not None:
            rd = _dt_of(want)
        fn = lambda x: ir.func(name, ir.cast(x, rd)) if is_float(rd) else x
        return _finish(_map(fn, inputs, rd), rd, kw, False)
    if name == "sign":
        dt = as_sym(inputs[0])._dt
        fn = lambda x: ir.ite(x > 0, const(1, dt), ir.ite(x < 0, const(-1, dt), const(0, dt)))
        return _finish(_map(fn, inputs, dt), dt, kw, scalar)
    if name == "square":
        a = inputs[0]
        return ufunc_dispatch(np.multiply, "__call__", (a, a), kw)
    if name == "reciprocal":
        return ufunc_dispatch(np.true_divide, "__call__", (1.0, inputs[0]), kw)
    if name in ("isfinite", "isnan", "isinf"):
        fn = lambda x: _fclass(name, const(x))
        return _finish(_map(fn, inputs, "bool"), "bool", kw, scalar)
    if name == "signbit":
        return _finish(_map(_signbit, inputs, "bool"), "bool", kw, scalar)
    if name == "copysign":
        cd = result_dt(*inputs)
        cd = cd if is_float(cd) else "f64"
        def fn(x, y):
            m = ir.unop("abs", ir.cast(const(x), cd))
            return ir.ite(_signbit(ir.cast(const(y), cd)), ir.unop("neg", m), m)
        return _finish(_map(fn, inputs, cd), cd, kw, scalar)
    if name == "hypot":
        a, b = inputs
        return ufunc_dispatch(np.sqrt, "__call__", (as_sym(a) * a + as_sym(b) * b,), kw)
    if name == "clip":
        return clip_(*inputs[:3], **({"out": kw["out"]} if "out" in kw else {}))
    raise Unsupported(f"ufunc {name}")


def _signbit(n):
    n = const(n)
    if not is_float(n.dt):
        return n < 0
    if n.op == "const":
        return const(bool(np.signbit(n.val)))
    if State.engine is not None and State.engine.mode in ("real", "exact"):
        return n < const(0, n.dt)
    return ir.byte_of(n, np.dtype(NP[n.dt]).itemsize - 1) >= 128


def _out(r, out):
    out = out[0] if isinstance(out, tuple) else out
    if out is None:
        return r
    out[...] = r
    return out


def _fclass(name, n):
    if not is_float(n.dt):
        return const(name == "isfinite")
    lo, hi = ir.interval(n)
    big = ir.const(NP[n.dt](np.inf))
    nan = ir.lnot(ir.mk("eqv", (n, n), "bool")) if n.op != "const" else const(bool(np.isnan(n.val)))
    if n.op == "const":
        return const(bool(getattr(np, name)(n.val)))
    if lo != -ir.INF and hi != ir.INF:
        return const(name == "isfinite")
    isinf = ir.compare("eq", ir.unop("abs", n), big)
    if name == "isnan":
        return nan
    if name == "isinf":
        return isinf
    return ir.land(ir.lnot(nan), ir.lnot(isinf))


# ------------------------------------------------------------------ reductions
def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % ndim for a in axis)
    a = int(axis)
    if a < -ndim or a >= ndim:
        raise np.exceptions.AxisError(a, ndim)
    return (a % ndim,)


def reduce_(name, a, axis=None, keepdims=False, dtype=None, initial=None, where=True):
    a = as_sym(a)
    race_read(a)
    dt = a._dt
    if initial is np._NoValue:
        initial = None
    if where is not True and where is not np._NoValue:
        fill = initial if initial is not None else {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
        if fill is None:
            raise ValueError(f"reduction operation '{name}' does not have an identity, so to use a where mask one has to specify 'initial'")
        a = cast_arr(as_sym(where_(as_sym(np.broadcast_to(as_sym(where), a.shape)), a, cast_arr(as_sym(fill), dt))), dt)
    if name in ("add", "multiply"):
        if dt == "bool" or (dt in ir.SINTS and ir.WIDTH[dt] < 64):
            dt = "i64"
        elif dt in ir.UINTS and ir.WIDTH[dt] < 64:
            dt = "u64"
        if dtype is not None:
            dt = _dt_of(dtype)
        init = const(0 if name == "add" else 1, dt)
        op = {"add": "add", "multiply": "mul"}[name]
        fn = lambda x, y: ir.arith(op, x, ir.cast(y, dt), dt)
    elif name in ("minimum", "maximum", "fmin", "fmax"):
        init = None
        op = "min" if "min" in name else "max"
        if dt == "bool":
            fn = ir.land if op == "min" else ir.lor
        else:
            fn = lambda x, y: ir.arith(op, x, y, dt)
    elif name in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
        if name.startswith("logical"):
            a = cast_arr(a, "bool")
            dt = "bool"
        if dt == "bool":
            init = const("and" in name)
            fn = ir.land if "and" in name else ir.lor
        else:
            init = None
            op = "and" if "and" in name else "or"
            fn = lambda x, y: ir.arith(op, x, y, dt)
    else:
        raise Unsupported(f"reduce {name}")
    if initial is not None:
        init = ir.cast(const(initial), dt)
    axes = _axes(axis, a.ndim)
    keep = [i for i in range(a.ndim) if i not in axes]
    src = base_of(a).transpose(keep + list(axes))
    oshape = tuple(a.shape[i] for i in keep)
    src = src.reshape(oshape + (-1,)) if src.size else np.empty(oshape + (int(np.prod([a.shape[i] for i in axes])) if axes else 1,), dtype=object)
    out = np.empty(oshape, dtype=object)
    for k in np.ndindex(oshape):
        row = src[k]
        r = init
        for e in row:
            r = e if r is None else fn(r, e)
        if r is None:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        out[k] = r
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
        return wrap(out, dt)
    if out.shape == ():
        return out[()]
    return wrap(out, dt)


def any_(a, axis=None, out=None, keepdims=False, where=True, **k):
    return _out(reduce_("logical_or", a, axis, keepdims, None, None, where), out)


def all_(a, axis=None, out=None, keepdims=False, where=True, **k):
    return _out(reduce_("logical_and", a, axis, keepdims, None, None, where), out)


def mean_(a, axis=None, keepdims=False, **k):
    a = as_sym(a)
    if not is_float(a._dt):
        a = cast_arr(a, "f64")
    s = reduce_("add", a, axis, keepdims)
    n = 1
    for i in _axes(axis, a.ndim):
        n *= a.shape[i]
    return s / n


def clip_(a, lo=None, hi=None, out=None, **kw):
    lo = kw.pop("min", lo)
    hi = kw.pop("max", hi)
    lo = kw.pop("a_min", lo)
    hi = kw.pop("a_max", hi)
    a_ = a
    if isinstance(a, (Node, int, float)):
        r = a
        if lo is not None:
            r = ir.fmax(r, lo)
        if hi is not None:
            r = ir.fmin(r, hi)
        return r
    dts = [a_] + [x for x in (lo, hi) if x is not None]
    dt = result_dt(*dts)
    r = as_sym(a)
    r = cast_arr(r, dt)
    if lo is not None:
        r = wrap(_map(lambda x, y: ir.arith("max", x, ir.cast(y, dt), dt), (r, lo), dt), dt)
    if hi is not None:
        r = wrap(_map(lambda x, y: ir.arith("min", x, ir.cast(y, dt), dt), (r, hi), dt), dt)
    return _out(r, out) if out is not None else r if r is not a else a.copy()


def nonzero_(a):
    a = as_sym(a)
    c = cast_arr(a, "bool")
    m = np.array([bool(e) for e in base_of(c).ravel()], dtype=bool).reshape(a.shape)
    return tuple(from_concrete(x) for x in np.nonzero(m))


def arg_(a, axis, mx):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    axis = axis % a.ndim
    src = np.moveaxis(base_of(a), axis, -1)
    out = np.empty(src.shape[:-1], dtype=object)
    for k in np.ndindex(out.shape):
        row = src[k]
        best, bi = row[0], const(0, "i64")
        for j in range(1, len(row)):
            c = ir.compare("gt" if mx else "lt", row[j], best)
            bi = ir.ite(c, const(j, "i64"), bi)
            best = ir.ite(c, row[j], best)
        out[k] = bi
    return out[()] if out.shape == () else wrap(out, "i64")


def argsort_(a, axis=-1):
    a = as_sym(a)
    if a.ndim != 1:
        if axis is None:
            return argsort_(a.reshape(-1))
        src = np.moveaxis(base_of(a), axis, -1)
        out = np.empty(src.shape, dtype=np.int64)
        for k in np.ndindex(src.shape[:-1]):
            out[k] = [int(e) for e in base_of(argsort_(wrap(src[k], a._dt)))]
        return from_concrete(np.moveaxis(out, -1, axis))
    items = list(enumerate(base_of(a)))
    # stable insertion sort (forks on symbolic comparisons)
    out = []
    for i, e in items:
        j = len(out)
        while j > 0 and bool(ir.compare("lt", e, out[j - 1][1])):
            j -= 1
        out.insert(j, (i, e))
    return from_concrete(np.array([i for i, _ in out], dtype=np.int64))


def cumsum_(a, axis=None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    dt = a._dt
    if not is_float(dt) and (dt == "bool" or ir.WIDTH[dt] < 64):
        dt = "u64" if dt in ir.UINTS else "i64"
    src = np.moveaxis(base_of(cast_arr(a, dt)), axis, 0)
    out = np.empty(src.shape, dtype=object)
    for k in np.ndindex(src.shape[1:]):
        r = None
        for j in range(src.shape[0]):
            e = src[(j,) + k]
            r = e if r is None else ir.arith("add", r, e, dt)
            out[(j,) + k] = r
    return wrap(np.moveaxis(out, 0, axis), dt)


def matmul_(a, b):
    a, b = as_sym(a), as_sym(b)
    dt = _common([a._dt, b._dt])
    a, b = cast_arr(a, dt), cast_arr(b, dt)
    r = np.matmul(base_of(a), base_of(b)) if False else None
    A, B = base_of(a), base_of(b)
    if A.ndim == 1 and B.ndim == 1:
        s = None
        for x, y in zip(A, B):
            p = ir.arith("mul", x, y, dt)
            s = p if s is None else ir.arith("add", s, p, dt)
        return s
    if A.ndim == 2 and B.ndim == 2:
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = matmul_(a[i], b[:, j])
        return wrap(out, dt)
    raise Unsupported("matmul shapes")


# ------------------------------------------------------------------ functions
def where_(cond, x=None, y=None):
    if x is None and y is None:
        return nonzero_(cond)
    c = cast_arr(as_sym(cond), "bool")
    dt = result_dt(x, y)
    out = _map(lambda p, a, b: ir.ite(p, ir.cast(a, dt), ir.cast(b, dt)), (c, x, y), dt)
    return wrap(out, dt)


def _listarg(seq):
    return [as_sym(x) for x in seq]


def concatenate_(arrs, axis=0, out=None, dtype=None, casting="same_kind"):
    parts = _listarg(arrs)
    if not parts:
        raise ValueError("need at least one array to concatenate")
    dt = _dt_of(dtype) if dtype is not None else _common([p._dt for p in parts])
    r = np.concatenate([base_of(cast_arr(p, dt)) for p in parts], axis=axis)
    if out is not None:
        out[...] = wrap(r, dt)
        return out
    return wrap(r, dt)


def _stackers(fname):
    f = getattr(np, fname)

    def g(arrs, *a, **k):
        k.pop("dtype", None)
        parts = _listarg(arrs)
        dt = _common([p._dt for p in parts])
        return wrap(f([base_of(cast_arr(p, dt)) for p in parts], *a, **k), dt)
    return g


def array_equal_(a, b, equal_nan=False):
    try:
        a, b = as_sym(a), as_sym(b)
    except Unsupported:
        return False
    if a.shape != b.shape:
        return False
    return all_(a == b)


def isclose_(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    a, b = cast_arr(a, "f64"), cast_arr(b, "f64")
    return np.abs(a - b) <= (atol + rtol * np.abs(b))


def norm_(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = as_sym(x)
    if not is_float(x._dt):
        x = cast_arr(x, "f64")
    return np.sqrt(reduce_("add", x * x, axis, keepdims))


def percentile_(a, q, axis=None, **k):
    raise Unsupported("percentile")


def pad_(a, pad_width, mode="constant", **k):
    a = as_sym(a)
    if mode in ("edge", "wrap", "reflect", "symmetric", "empty"):
        if mode == "empty":
            return wrap(np.pad(base_of(a), pad_width, mode="constant", constant_values=ir.cast(const(0), a._dt)), a._dt)
        return wrap(np.pad(base_of(a), pad_width, mode=mode, **k), a._dt)
    if mode != "constant":
        raise Unsupported("pad mode")
    cv = k.get("constant_values", 0)
    return wrap(np.pad(base_of(a), pad_width, mode="constant", constant_values=const(cv, a._dt)), a._dt)


def unique_(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("unique")
    a = as_sym(a).reshape(-1)
    v = [base_of(a)[int(i)] for i in base_of(argsort_(a))]
    v = [e for i, e in enumerate(v) if i == 0 or not bool(ir.compare("eq", e, v[i - 1]))]
    out = np.empty(len(v), dtype=object)
    out[:] = v
    return wrap(out, a._dt)


def var_(a, axis=None, ddof=0, keepdims=False, **k):
    a = as_sym(a)
    d = a - as_sym(mean_(a, axis, True)) if a.size else a
    n = 1
    for i in _axes(axis, a.ndim):
        n *= a.shape[i]
    return reduce_("add", d * d, axis, keepdims) / (n - ddof)


def _full_like(a, v, dtype=None, order="K", **k):
    return relayout(full(a.shape if k.get("shape") is None else k["shape"], v, dtype or a.dtype), a, order)


def take_along(a, idx, axis):
    a = as_sym(a)
    return wrap(np.take_along_axis(base_of(a), _conv_index(idx, None), axis), a._dt)


def copyto_(dst, src, casting="same_kind", where=True):
    if where is not True:
        _finish(base_of(as_sym(src)), as_sym(src)._dt, {"out": dst, "where": where}, False)
    else:
        dst[...] = src


def put_along(a, idx, values, axis):
    if axis is None:
        raise Unsupported("put_along_axis without axis")
    idx = as_sym(idx)
    o, ix = base_of(a), base_of(idx)
    axis %= a.ndim
    v = base_of(cast_arr(as_sym(values), a._dt))
    v = np.broadcast_to(v, ix.shape)
    n = a.shape[axis]
    for k in np.ndindex(ix.shape):
        i = ix[k]
        for j in range(n):
            c = ir.lor(const(i == j), const(i == j - n))
            if c.op == "const" and not c.val:
                continue
            p = k[:axis] + (j,) + k[axis + 1:]
            o[p] = ir.ite(c, v[k], o[p])


def select_(conds, choices, default=0):
    r = default
    for c, x in zip(reversed(list(conds)), reversed(list(choices))):
        r = where_(c, x, r)
    return r


def choose_(a, choices, out=None, mode="raise"):
    a = as_sym(a)
    r = choices[-1]
    for j in reversed(range(len(choices) - 1)):
        r = where_(a == j, choices[j], r)
    return _out(r, out)


def delete_(a, obj, axis=None):
    a = as_sym(a)
    return wrap(np.delete(base_of(a), _conv_index(obj, None), axis=axis), a._dt)


def packbits_(a, axis=None, bitorder="big"):
    a = cast_arr(as_sym(a), "bool")
    if axis is None:
        a, axis = a.reshape(-1), 0
    src = np.moveaxis(base_of(a), axis, -1)
    n = src.shape[-1]
    out = np.empty(src.shape[:-1] + ((n + 7) // 8,), dtype=object)
    for k in np.ndindex(out.shape):
        r = const(0, "u8")
        for b in range(8):
            j = k[-1] * 8 + b
            if j < n:
                w = 1 << (b if bitorder == "little" else 7 - b)
                r = ir.arith("or", r, ir.ite(src[k[:-1] + (j,)], const(w, "u8"), const(0, "u8")), "u8")
        out[k] = r
    return wrap(np.moveaxis(out, -1, axis), "u8")


def unpackbits_(a, axis=None, count=None, bitorder="big"):
    a = as_sym(a)
    if a._dt != "u8":
        raise TypeError("Expected an input array of unsigned byte data type")
    if axis is None:
        a, axis = a.reshape(-1), 0
    src = np.moveaxis(base_of(a), axis, -1)
    out = np.empty(src.shape[:-1] + (src.shape[-1] * 8,), dtype=object)
    for k in np.ndindex(src.shape):
        for b in range(8):
            sh = b if bitorder == "little" else 7 - b
            out[k[:-1] + (k[-1] * 8 + b,)] = ir.arith("and", ir.arith("shr", src[k], const(sh, "u8"), "u8"), const(1, "u8"), "u8")
    if count is not None:
        out = out[..., :count]
    return wrap(np.moveaxis(out, -1, axis), "u8")


def _round(a, decimals=0, out=None):
    if isinstance(a, (Node, int, float)):
        a = as_sym(a)
        return _round(a, decimals)[()]
    return _out(as_sym(a).round(decimals), out)


def require_(a, dtype=None, requirements=None, **k):
    want = {str(r).upper()[0] for r in (requirements or ())}
    r = asarray(a, dtype)
    if "C" in want and not r.flags["C_CONTIGUOUS"]:
        r = r.copy()
    if "F" in want and not r.flags["F_CONTIGUOUS"]:
        r = asfortranarray(r)
    if ("W" in want and not r.flags.writeable) or ("O" in want and not r.flags.owndata):
        r = r.copy(order="K")
    return r


def ir_eq_inf(x, v):
    return as_sym(x) == v


class _RC:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (str, slice)) for k in key):
            return (np.c_ if self.col else np.r_)[key]
        parts = [as_sym(k) for k in key]
        if self.col:
            nd = max([2] + [p.ndim for p in parts])
            parts = [p.reshape((1,) * 2) if p.ndim == 0 else p.reshape(p.shape + (1,) * (nd - p.ndim)) if p.ndim < nd else p for p in parts]
            return concatenate_(parts, axis=-1)
        parts = [p.reshape(1) if p.ndim == 0 else p for p in parts]
        return concatenate_(parts, axis=0)


FUNCTIONS = {
    "put_along_axis": put_along, "select": select_, "choose": choose_, "delete": delete_, "packbits": packbits_, "unpackbits": unpackbits_,
    "var": var_, "std": lambda a, *x, **k: ufunc_dispatch(np.sqrt, "__call__", (var_(a, *x, **k),), {}),
    "putmask": lambda a, mask, values: copyto_(a, values, where=mask), "require": require_,
    "isneginf": lambda x, out=None: ir_eq_inf(x, -np.inf), "isposinf": lambda x, out=None: ir_eq_inf(x, np.inf),
    "astype": lambda a, dtype, copy=True, **k: as_sym(a).astype(dtype, copy=copy),
    "concatenate": concatenate_, "stack": _stackers("stack"), "vstack": _stackers("vstack"),
    "hstack": _stackers("hstack"), "dstack": _stackers("dstack"), "column_stack": _stackers("column_stack"),
    "where": where_, "clip": clip_, "sum": lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k: _out(reduce_("add", a, axis, keepdims, dtype, initial, where), out),
    "prod": lambda a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k: _out(reduce_("multiply", a, axis, keepdims, dtype, initial, where), out),
    "min": lambda a, axis=None, out=None, keepdims=False, initial=None, where=True, **k: _out(reduce_("minimum", a, axis, keepdims, None, initial, where), out),
    "max": lambda a, axis=None, out=None, keepdims=False, initial=None, where=True, **k: _out(reduce_("maximum", a, axis, keepdims, None, initial, where), out),
    "any": any_, "all": all_, "mean": mean_, "average": mean_, "array_equal": array_equal_, "isclose": isclose_,
    "allclose": lambda a, b, **k: all_(isclose_(a, b, **k)), "nonzero": nonzero_,
    "flatnonzero": lambda a: nonzero_(np.ravel(a))[0], "argwhere": lambda a: np.stack(nonzero_(a), axis=-1),
    "count_nonzero": lambda a, axis=None, **k: reduce_("add", cast_arr(as_sym(a), "bool"), axis),
    "argmax": lambda a, axis=None, **k: arg_(as_sym(a), axis, True),
    "argmin": lambda a, axis=None, **k: arg_(as_sym(a), axis, False),
    "argsort": lambda a, axis=-1, **k: argsort_(a, axis), "cumsum": lambda a, axis=None, **k: cumsum_(a, axis),
    "norm": norm_, "percentile": percentile_, "pad": pad_, "unique": unique_, "dot": matmul_,
    "zeros_like": lambda a, dtype=None, order="K", **k: relayout(zeros(a.shape if k.get("shape") is None else k["shape"], dtype or a.dtype), a, order),
    "ones_like": lambda a, dtype=None, order="K", **k: relayout(ones(a.shape if k.get("shape") is None else k["shape"], dtype or a.dtype), a, order),
    "empty_like": lambda a, dtype=None, order="K", **k: relayout(empty(a.shape if k.get("shape") is None else k["shape"], dtype or a.dtype), a, order),
    "full_like": _full_like, "copy": lambda a, order="K", **k: as_sym(a).copy(order=order),
    "take_along_axis": take_along, "copyto": copyto_,
    "shares_memory": lambda a, b, **k: np.shares_memory(base_of(as_sym(a)), base_of(as_sym(b))),
    "may_share_memory": lambda a, b, **k: np.may_share_memory(base_of(as_sym(a)), base_of(as_sym(b))),
    "iscomplexobj": lambda x: False, "isrealobj": lambda x: True,
    "result_type": lambda *a: np.result_type(*[_opdtype(x) if isinstance(x, (SymArray, Node)) else x for x in a]),
    "can_cast": lambda a, b, **k: np.can_cast(a.dtype if isinstance(a, SymArray) else a, b, **k),
    "ndim": lambda a: a.ndim, "shape": lambda a: a.shape, "size": lambda a, axis=None: a.size if axis is None else a.shape[axis],
    "nan_to_num": lambda a, **k: as_sym(a).copy(),
    "isin": lambda a, t, **k: any_(np.expand_dims(as_sym(a), -1) == as_sym(t).reshape(-1), -1),
    "round": _round,
    "around": _round,
    "sort": lambda a, axis=-1, **k: take_along(a, argsort_(a, axis), axis) if axis is not None else take_along(as_sym(a).reshape(-1), argsort_(a, None), 0),
    "take": lambda a, indices, axis=None, **k: as_sym(a).take(indices, axis=axis),
    "compress": lambda c, a, axis=None, **k: wrap(np.compress(_conv_index(as_sym(c), None), base_of(as_sym(a)), axis=axis), as_sym(a)._dt),
    "ptp": lambda a, axis=None, **k: reduce_("maximum", a, axis) - reduce_("minimum", a, axis),
    "ravel": lambda a, order="C": as_sym(a).ravel(order=order),
    "array_split": None,
}
FUNCTIONS = {k: v for k, v in FUNCTIONS.items() if v is not None}
FUNCTIONS["amin"] = FUNCTIONS["min"]
FUNCTIONS["amax"] = FUNCTIONS["max"]


def function_dispatch(func, types, args, kwargs):
    name = func.__name__
    if State.race is not None and State.race.cur is not None:
        race_read(*[x for x in args if isinstance(x, SymArray)])
    f = FUNCTIONS.get(name)
    if f is not None:
        return f(*args, **kwargs)
    # generic data movement: run on the object storage
    dts = []

    def strip(x):
        if isinstance(x, SymArray):
            dts.append(x._dt)
            return base_of(x)
        if hasattr(x, "_sx_tensor"):
            dts.append(x._arr._dt)
            return base_of(x._arr)
        if isinstance(x, (list, tuple)):
            return type(x)(strip(e) for e in x)
        return x
    a2 = strip(args)
    k2 = {k: strip(v) for k, v in kwargs.items()}
    r = func(*a2, **k2)

    def rewrap(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            e = next((y for y in x.flat if isinstance(y, Node)), None)
            dt = e.dt if e is not None and e.dt in NP else (_common(dts) if dts else "f64")
            return wrap(x, dt)
        if isinstance(x, (list, tuple)):
            return type(x)(rewrap(e) for e in x)
        return x
    return rewrap(r)


# ------------------------------------------------------------------ creation
def _shape(shape):
    if isinstance(shape, (int, np.integer, Node)):
        s = shape.__index__()
        return (s,)
    return tuple(s.__index__() for s in shape)


def full(shape, v, dtype=None, order="C", **k):
    shape = _shape(shape)
    if dtype is None:
        dt = as_sym(v)._dt
    else:
        dt = _dt_of(dtype)
    for s in shape:
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
    out = np.empty(shape, dtype=object)
    if isinstance(v, np.ndarray) and v.ndim:
        r = wrap(out, dt)
        out.fill(const(0, dt))
        r[...] = v
        return r
    out.fill(ir.cast(const(v if not isinstance(v, np.ndarray) else as_sym(v)[()]), dt))
    if order == "F":
        out = np.asfortranarray(out)
    return wrap(out, dt)


def zeros(shape, dtype=float, order="C", **k):
    return full(shape, 0, dtype, order)


def ones(shape, dtype=float, order="C", **k):
    return full(shape, 1, dtype, order)


_uninit = [0]


def empty(shape, dtype=float, order="C", **k):
    shape = _shape(shape)
    for s in shape:
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
    dt = _dt_of(dtype)
    out = np.empty(shape, dtype=object)
    f = out.reshape(-1)
    for i in range(f.size):
        _uninit[0] += 1
        f[i] = ir.mk("sym", (), dt, f"uninit!{_uninit[0]}")
        ir._sym_info[f"uninit!{_uninit[0]}"] = (dt, None, None)
    if order == "F":
        out = np.asfortranarray(out)
    return wrap(out, dt)


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    s = as_sym(x)
    if dtype is None and not isinstance(x, (np.ndarray, Node, np.generic)) and isinstance(x, (list, tuple)):
        pass
    if dtype is not None:
        s2 = cast_arr(s, _dt_of(dtype))
    else:
        s2 = s
    if s2 is s and copy:
        s2 = s.copy(order="K" if order is None else order)
    while s2.ndim < ndmin:
        s2 = s2.reshape((1,) + s2.shape)
    return s2


def asarray(x, dtype=None, order=None, copy=None, **k):
    s = as_sym(x)
    if dtype is not None:
        s = cast_arr(s, _dt_of(dtype))
    if order == "C" and not s.flags["C_CONTIGUOUS"]:
        s = s.copy()
    if copy:
        s = s.copy()
    return s


def ascontiguousarray(x, dtype=None, **k):
    s = asarray(x, dtype)
    if s.ndim == 0:
        s = s.reshape(1)
    if not s.flags["C_CONTIGUOUS"]:
        s = s.copy()
    return s


def asfortranarray(x, dtype=None, **k):
    s = asarray(x, dtype)
    return wrap(np.asfortranarray(base_of(s)), s._dt)


def arange(*a, dtype=None, **k):
    a = [v.__index__() if isinstance(v, Node) else v for v in a]
    return from_concrete(np.arange(*a, dtype=dtype))


def fromfile(f, dtype=float, count=-1, sep="", offset=0, **k):
    from .fsshim import FS, SymFile
    dt = _dt_of(dtype)
    w = np.dtype(NP[dt]).itemsize
    own = False
    if not isinstance(f, SymFile):
        f = FS.open(str(f), "rb")
        own = True
    if offset:
        f.seek(offset, 1)
    if isinstance(count, Node):
        rem = (len(f.buf) - f.pos) // w
        # counts outside [0, rem] behave uniformly
        if not bool(ir.land(count >= 0, count <= rem)):
            if bool(count < 0):
                if not bool(count == -1):
                    count = -1   # numpy: any negative count reads everything
                count = -1
            else:
                count = rem
        else:
            count = count.__index__()
    rem = max(0, (len(f.buf) - f.pos) // w)
    n = rem if count < 0 else min(count, rem)
    raw = f.read_raw(n * w)
    if own:
        f.close()
    return _from_raw(raw, dt, n)


def _from_raw(raw, dt, n):
    w = np.dtype(NP[dt]).itemsize
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = ir.from_bytes([b if isinstance(b, Node) else const(b, "u8") for b in raw[i * w:(i + 1) * w]], dt)
    return wrap(out, dt)


def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    from .fsshim import SymByteArray, SymBytes
    dt = _dt_of(dtype)
    w = np.dtype(NP[dt]).itemsize
    if isinstance(buf, np.ndarray):
        buf = as_sym(buf).tobytes()
    raw = list(buf.items if isinstance(buf, SymBytes) else bytes(buf))
    offset = int(offset)
    if isinstance(count, Node):
        count = count.__index__()
    if offset < 0 or (offset > len(raw)) or (offset == len(raw) and len(raw) > 0):
        raise ValueError("offset must be non-negative and no greater than buffer length")
    raw = raw[offset:]
    if count < 0:
        if len(raw) % w:
            raise ValueError("buffer size must be a multiple of element size")
        n = len(raw) // w
    else:
        n = count
        if n * w > len(raw):
            raise ValueError("buffer is smaller than requested size")
    r = _from_raw(raw, dt, n)
    if isinstance(buf, SymByteArray):
        buf.shared = True
    else:
        r.flags.writeable = False
    return r


def isscalar(x):
    return isinstance(x, Node) or np.isscalar(x)


class _LinalgShim:
    norm = staticmethod(norm_)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class NumpyShim(_types.ModuleType):
    ndarray = np.ndarray

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["linalg"] = _LinalgShim()
        self.__dict__["r_"], self.__dict__["c_"] = _RC(False), _RC(True)
        for n, f in dict(full=full, zeros=zeros, ones=ones, empty=empty, array=array, asarray=asarray,
                         asanyarray=asarray, ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray,
                         arange=arange, fromfile=fromfile, frombuffer=frombuffer, isscalar=isscalar,
                         linspace=lambda *a, **k: from_concrete(np.linspace(*a, **k)),
                         eye=lambda *a, **k: from_concrete(np.eye(*a, **k)),
                         identity=lambda *a, **k: from_concrete(np.identity(*a, **k)),
                         tri=lambda *a, **k: from_concrete(np.tri(*a, **k)),
                         ).items():
            self.__dict__[n] = f
        for n in ("zeros_like", "ones_like", "empty_like", "full_like", "copy", "concatenate", "stack", "vstack",
                  "hstack", "column_stack", "dstack", "where", "clip", "sum", "min", "max", "amin", "amax", "any",
                  "all", "mean", "array_equal", "isclose", "allclose", "nonzero", "flatnonzero", "count_nonzero",
                  "argmax", "argmin", "argsort", "cumsum", "percentile", "pad", "unique", "sort", "select", "choose",
                  "round", "around", "require", "astype", "take", "prod", "ptp"):
            self.__dict__[n] = _force(FUNCTIONS[n])

    def __getattr__(self, n):
        return getattr(np, n)


def _force(f):
    def g(*a, **k):
        return f(*a, **k)
    g.__name__ = getattr(f, "__name__", "f")
    return g


shim = NumpyShim()
