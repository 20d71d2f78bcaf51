"""torch stand-in (CPU semantics): tensors over SymArray storage.

Views share storage as in torch, dtypes follow torch's promotion rules, autograd
is reduced to the requires_grad flag and the errors it causes."""
from __future__ import annotations

import math
import types

import numpy as np

from . import ir, npshim
from .ir import Node, Unsupported, const
from .npshim import SymArray, as_sym, base_of, cast_arr, from_concrete, wrap


# ------------------------------------------------------------------ dtypes, devices
class DType:
    def __init__(self, name, dt):
        self.name, self.dt = name, dt
        self.is_floating_point = dt in ("f16", "f32", "f64")
        self.is_complex = False
        self.itemsize = np.dtype(ir.NP[dt]).itemsize

    def __repr__(self):
        return "torch." + self.name


_D = {dt: DType(n, dt) for n, dt in (("bool", "bool"), ("uint8", "u8"), ("int8", "i8"), ("int16", "i16"), ("int32", "i32"), ("int64", "i64"),
                                    ("uint16", "u16"), ("uint32", "u32"), ("uint64", "u64"),
                                    ("float16", "f16"), ("float32", "f32"), ("float64", "f64"))}
_ORDER = ["bool", "u8", "i8", "i16", "i32", "i64", "u16", "u32", "u64", "f16", "f32", "f64"]
Size = type("Size", (tuple,), {"numel": lambda self: int(np.prod(self)) if self else 1})


class Device:
    def __init__(self, d, index=None):
        if isinstance(d, Device):
            d, index = d.type, d.index
        if not isinstance(d, str):
            raise TypeError("device(): argument must be a string or device")
        if ":" in d:
            d, index = d.split(":")
            index = int(index)
        if d not in ("cpu", "cuda", "meta", "mps", "xpu"):
            raise RuntimeError(f"Expected one of cpu, cuda, ... device type at start of device string: {d}")
        self.type, self.index = d, index

    def __eq__(self, o):
        return isinstance(o, Device) and (self.type, self.index) == (o.type, o.index)

    def __hash__(self):
        return hash((self.type, self.index))

    def __repr__(self):
        return f"device(type='{self.type}'" + (f", index={self.index})" if self.index is not None else ")")

    def __str__(self):
        return self.type + ("" if self.index is None else f":{self.index}")


CPU = Device("cpu")


def _dev(d):
    d = Device(d) if not isinstance(d, Device) else d
    if d.type != "cpu":
        raise RuntimeError("Found no NVIDIA driver on your system.")
    return CPU


def _is_float(dt):
    return dt in ("f16", "f32", "f64")


def _cat(dt):
    return 0 if dt == "bool" else 2 if _is_float(dt) else 1


def _promote2(a, b):
    if a == b:
        return a
    if _cat(a) != _cat(b):
        return a if _cat(a) > _cat(b) else b
    if _cat(a) == 1 and "u8" in (a, b):
        o = b if a == "u8" else a
        return "i16" if o == "i8" else o
    return _ORDER[max(_ORDER.index(a), _ORDER.index(b))]


def _kind(x):
    """(priority, dt): dimensioned tensors, then 0-d tensors, then Python numbers"""
    if isinstance(x, Tensor):
        return (0 if x._arr.ndim else 1), x._arr._dt
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return 2, "bool"
    if isinstance(x, Node):
        return 2, ("bool" if x.dt == "bool" else "f32" if x.dt in ("f16", "f32", "f64", "real") else "i64")
    if isinstance(x, (int, np.integer)):
        return 2, "i64"
    if isinstance(x, (float, np.floating)):
        return 2, "f32"
    raise TypeError(f"unsupported operand type for tensor operation: {type(x).__name__}")


def result_type(*xs):
    best = [None, None, None]
    for x in xs:
        p, dt = _kind(x)
        best[p] = dt if best[p] is None else _promote2(best[p], dt)
    r = None
    for dt in best:
        if dt is None:
            continue
        if r is None or _cat(dt) > _cat(r):
            r = dt if r is None or _cat(dt) > _cat(r) else r
    return r


def _sc(x, dt):
    """operand as SymArray of dtype dt"""
    if isinstance(x, Tensor):
        return cast_arr(x._arr, dt)
    if isinstance(x, np.bool_):
        x = bool(x)
    o = np.empty((), dtype=object)
    o[()] = ir.cast(const(x), dt)
    return wrap(o, dt)


def _arr(x, dt):
    """SymArray or scalar Node -> SymArray"""
    if isinstance(x, SymArray):
        return x
    return as_sym(x)


def _grad(*xs):
    return any(isinstance(x, Tensor) and x._rg for x in xs)


def _new(arr, rg=False, leaf=None):
    return Tensor(arr, rg and _is_float(arr._dt), leaf)


def _bin(name, a, b, dt=None):
    if isinstance(b, (list, tuple, str, dict)) or b is None:
        return NotImplemented
    if isinstance(b, np.ndarray):
        raise Unsupported("tensor and array operands")
    if not isinstance(b, (Tensor, Node, bool, int, float, np.generic)):
        return NotImplemented
    dt = dt or result_type(a, b)
    return _new(_arr(getattr(np, name)(_sc(a, dt), _sc(b, dt)), dt), _grad(a, b))


def _fbin(name, a, b):
    if not isinstance(b, (Tensor, Node, bool, int, float, np.generic)):
        return NotImplemented
    dt = result_type(a, b)
    return _bin(name, a, b, dt if _is_float(dt) else "f32")


def _f(a):
    return a._arr if _is_float(a._arr._dt) else cast_arr(a._arr, "f32")


class _MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


class Tensor:
    _sx_tensor = True
    __array_priority__ = 2e5
    __hash__ = object.__hash__

    def __init__(self, arr, rg=False, leaf=None):
        self._arr = arr
        self._rg = rg
        self._leaf = (not rg) if leaf is None else leaf

    # ---- metadata
    @property
    def shape(self):
        return Size(self._arr.shape)

    def size(self, d=None):
        return self.shape if d is None else self._arr.shape[d]

    ndim = property(lambda s: s._arr.ndim)
    dtype = property(lambda s: _D[s._arr._dt])
    device = property(lambda s: CPU)
    requires_grad = property(lambda s: s._rg)
    is_leaf = property(lambda s: s._leaf or not s._rg)
    grad = None
    is_cuda = False
    nbytes = property(lambda s: s._arr.nbytes)
    T = property(lambda s: _new(s._arr.T, s._rg, False if s._rg else None))
    data = property(lambda s: s.detach())

    @requires_grad.setter
    def requires_grad(self, v):
        self.requires_grad_(v)

    def dim(self):
        return self._arr.ndim

    def numel(self):
        return self._arr.size

    nelement = numel

    def element_size(self):
        return self._arr.itemsize

    def is_floating_point(self):
        return _is_float(self._arr._dt)

    def is_contiguous(self, *a, **k):
        return bool(self._arr.flags["C_CONTIGUOUS"])

    def stride(self, d=None):
        s = tuple(x // self._arr.itemsize for x in self._arr.strides)
        return s if d is None else s[d]

    def _root(self):
        a = base_of(self._arr)
        while isinstance(a.base, np.ndarray):
            a = a.base
        return a

    def storage_offset(self):
        return (self.data_ptr() - self._root().__array_interface__["data"][0]) // 8

    def untyped_storage(self):
        p = self._root().__array_interface__["data"][0]
        return types.SimpleNamespace(data_ptr=lambda: p)

    def data_ptr(self):
        return base_of(self._arr).__array_interface__["data"][0]

    def __len__(self):
        if not self._arr.ndim:
            raise TypeError("len() of a 0-d tensor")
        return self._arr.shape[0]

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def __repr__(self):
        return f"tensor({self._arr!r})"

    def __bool__(self):
        if self._arr.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self._arr.reshape(-1)[0])

    def __index__(self):
        return self.item().__index__()

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __contains__(self, v):
        return bool((self == v).any())

    def __deepcopy__(self, memo):
        return _new(self._arr.copy(), self._rg, True)

    def item(self):
        if self._arr.size != 1:
            raise RuntimeError("a Tensor with more than one element cannot be converted to Scalar")
        return self._arr.reshape(-1).item(0)

    def tolist(self):
        return self._arr.tolist()

    # ---- autograd flag
    def requires_grad_(self, v=True):
        if v and not _is_float(self._arr._dt):
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        if self._rg and not self._leaf and not v:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        if not self._rg and v:
            self._leaf = True
        self._rg = bool(v)
        return self

    def detach(self):
        return _new(self._arr[...] if self._arr.ndim else self._arr)

    def numpy(self, force=False):
        if self._rg and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._arr[...] if self._arr.ndim else self._arr

    def __array__(self, dtype=None, copy=None):
        raise Unsupported("implicit array conversion of a tensor")

    def cpu(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        return _dev("cuda")

    def pin_memory(self, *a, **k):
        raise RuntimeError("Found no NVIDIA driver on your system.")

    # ---- conversion
    def to(self, *args, device=None, dtype=None, non_blocking=False, copy=False, **k):
        for a in args:
            if isinstance(a, DType):
                dtype = a
            elif isinstance(a, Tensor):
                dtype = a.dtype
            elif isinstance(a, (str, Device)):
                device = a
            elif a is not None and not isinstance(a, bool):
                raise TypeError("to() received an invalid combination of arguments")
        if device is not None:
            _dev(device)
        if dtype is None or dtype.dt == self._arr._dt:
            return self.clone() if copy else self
        return _new(cast_arr(self._arr, dtype.dt), self._rg)

    def type(self, dtype=None):
        if dtype is None:
            raise Unsupported("type()")
        return self.to(dtype)

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(_D["f32"])

    def double(self):
        return self.to(_D["f64"])

    def half(self):
        return self.to(_D["f16"])

    def long(self):
        return self.to(_D["i64"])

    def int(self):
        return self.to(_D["i32"])

    def bool(self):
        return self.to(_D["bool"])

    def byte(self):
        return self.to(_D["u8"])

    def clone(self, **k):
        return _new(self._arr.copy(order="K"), self._rg)

    def contiguous(self, **k):
        return self if self.is_contiguous() else _new(self._arr.copy(), self._rg)

    # ---- shape
    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], DType):
            dt = shape[0].dt
            return _new(self._arr.view(ir.NP[dt]), False)
        shape = _shp(shape)
        r = _reshape(self._arr, shape)
        if self._arr.size and not np.shares_memory(base_of(r), base_of(self._arr)):
            raise RuntimeError("view size is not compatible with input tensor's size and stride. Use .reshape(...) instead.")
        return _new(r, self._rg)

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape(self, *shape):
        return _new(_reshape(self._arr, _shp(shape)), self._rg)

    def flatten(self, start_dim=0, end_dim=-1):
        n = self._arr.ndim
        if n == 0:
            return self.reshape(1)
        s, e = start_dim % n, end_dim % n
        sh = self._arr.shape
        return self.reshape(*(sh[:s] + (int(np.prod(sh[s:e + 1])),) + sh[e + 1:]))

    def ravel(self):
        return self.reshape(-1)

    def transpose(self, a, b):
        return _new(np.swapaxes(self._arr, a, b), self._rg)

    swapaxes = swapdims = transpose

    def t(self):
        return self.T

    def permute(self, *d):
        return _new(self._arr.transpose(_shp(d)), self._rg)

    def movedim(self, a, b):
        return _new(np.moveaxis(self._arr, a, b), self._rg)

    def unsqueeze(self, d):
        d = d if d >= 0 else d + self._arr.ndim + 1
        return _new(self._arr.reshape(self._arr.shape[:d] + (1,) + self._arr.shape[d:]) if self._arr.flags["C_CONTIGUOUS"] else np.expand_dims(self._arr, d), self._rg)

    def squeeze(self, d=None):
        sh = self._arr.shape
        drop = [i for i, s in enumerate(sh) if s == 1] if d is None else [d % len(sh)] if sh[d] == 1 else []
        idx = tuple(0 if i in drop else slice(None) for i in range(len(sh)))
        if not drop:
            return self
        r = np.ndarray.__getitem__(base_of(self._arr), idx + (Ellipsis,))
        return _new(wrap(r, self._arr._dt), self._rg)

    def expand(self, *shape):
        shape = _shp(shape)
        sh = self._arr.shape
        off = len(shape) - len(sh)
        full = tuple(sh[i - off] if s == -1 else s for i, s in enumerate(shape))
        return _new(wrap(np.broadcast_to(base_of(self._arr), full), self._arr._dt), self._rg)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *r):
        return _new(wrap(np.tile(base_of(self._arr), _shp(r)), self._arr._dt), self._rg)

    def unbind(self, dim=0):
        return tuple(self.select(dim, i) for i in range(self._arr.shape[dim]))

    def select(self, dim, i):
        return self[(slice(None),) * (dim % self._arr.ndim) + (i,)]

    def narrow(self, dim, start, length):
        return self[(slice(None),) * (dim % self._arr.ndim) + (slice(start, start + length),)]

    def split(self, n, dim=0):
        return split(self, n, dim)

    def chunk(self, n, dim=0):
        size = self._arr.shape[dim]
        return split(self, -(-size // n), dim)

    # ---- indexing
    def __getitem__(self, key):
        key = _key(self, key)
        tup = key if isinstance(key, tuple) else (key,)
        # lookup with symbolic indices along one leading axis
        if len(tup) == 1 and isinstance(tup[0], SymArray) and tup[0]._dt != "bool" and tup[0].ndim and \
                any(e.op != "const" for e in base_of(tup[0]).ravel()):
            return _new(_lookup(self._arr, tup[0]), self._rg)
        for i, s in zip(_ints(tup, self._arr.ndim), _dims(tup, self._arr.shape)):
            if i is not None and not -s <= i < s:
                raise IndexError(f"index {i} is out of bounds for dimension with size {s}")
        r = self._arr[key]
        if not isinstance(r, SymArray):
            # a 0-d view of the element
            r = wrap(np.ndarray.__getitem__(base_of(self._arr), tuple(i.__index__() for i in tup if i is not Ellipsis) + (Ellipsis,)), self._arr._dt)
        return _new(r, self._rg)

    def __setitem__(self, key, v):
        if self._rg and self._leaf:
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
        key = _key(self, key)
        self._arr[key] = v._arr if isinstance(v, Tensor) else v
        if isinstance(v, Tensor) and v._rg:
            self._rg, self._leaf = True, False

    def index_select(self, dim, idx):
        return self[(slice(None),) * (dim % self._arr.ndim) + (idx,)]

    def masked_fill(self, m, v):
        return where(m, full((), v, dtype=self.dtype), self)

    def masked_fill_(self, m, v):
        return self._ip(self.masked_fill(m, v))

    def masked_select(self, m):
        return self[m]

    def gather(self, dim, index):
        return gather(self, dim, index)

    def scatter_(self, dim, index, src):
        self._chk()
        o = base_of(self._arr)
        ix = base_of(index._arr)
        dim = dim % o.ndim
        sv = src._arr if isinstance(src, Tensor) else None
        for k in np.ndindex(ix.shape):
            v = ir.cast(const(base_of(sv)[k] if sv is not None else src), self._arr._dt)
            i = const(ix[k])
            if i.op == "const":
                j = k[:dim] + (i.__index__(),) + k[dim + 1:]
                o[j] = v
            else:
                for n in range(o.shape[dim]):
                    j = k[:dim] + (n,) + k[dim + 1:]
                    o[j] = ir.ite(i == n, v, o[j])
        return self

    def nonzero(self, as_tuple=False):
        r = npshim.nonzero_(self._arr)
        if as_tuple:
            return tuple(_new(x) for x in r)
        return _new(as_sym(np.stack([base_of(x) for x in r], axis=1))) if r else self

    # ---- arithmetic
    def __add__(self, o): return _bin("add", self, o)
    def __radd__(self, o): return _bin("add", self, o)
    def __mul__(self, o): return _bin("multiply", self, o)
    def __rmul__(self, o): return _bin("multiply", self, o)
    def __sub__(self, o): return _bin("subtract", self, o)
    def __rsub__(self, o): return _rb("subtract", o, self)
    def __truediv__(self, o): return _fbin("divide", self, o)
    def __rtruediv__(self, o): return _rb("divide", o, self, True)
    def __floordiv__(self, o): return _bin("floor_divide", self, o)
    def __mod__(self, o): return _bin("remainder", self, o)
    def __pow__(self, o): return pow_(self, o)
    def __lshift__(self, o): return _bin("left_shift", self, o, self._arr._dt if not isinstance(o, Tensor) else None)
    def __rshift__(self, o): return _bin("right_shift", self, o, self._arr._dt if not isinstance(o, Tensor) else None)

    def __and__(self, o):
        return _bin("bitwise_and", self, o, self._arr._dt if isinstance(o, int) and not isinstance(o, bool) and _cat(self._arr._dt) == 1 else None)

    def __or__(self, o): return _bin("bitwise_or", self, o)
    def __xor__(self, o): return _bin("bitwise_xor", self, o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return _new(_arr(np.logical_not(self._arr) if self._arr._dt == "bool" else np.invert(self._arr), None))

    def __neg__(self):
        return _new(_arr(np.negative(self._arr), None), self._rg)

    def __abs__(self):
        return abs_(self)

    def __eq__(self, o): return _cmp("equal", self, o)
    def __ne__(self, o): return _cmp("not_equal", self, o)
    def __lt__(self, o): return _cmp("less", self, o)
    def __le__(self, o): return _cmp("less_equal", self, o)
    def __gt__(self, o): return _cmp("greater", self, o)
    def __ge__(self, o): return _cmp("greater_equal", self, o)

    def _chk(self):
        if self._rg and self._leaf:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")

    def _ip(self, r):
        self._chk()
        if r is NotImplemented:
            return r
        if _cat(r._arr._dt) > _cat(self._arr._dt):
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {self.dtype}")
        if r._arr.shape != self._arr.shape:
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        if self._arr.ndim:
            self._arr[...] = r._arr
        else:
            self._arr[()] = cast_arr(r._arr, self._arr._dt)[()]
        if r._rg:
            self._rg, self._leaf = True, False
        return self

    def add_(self, o, alpha=1): return self._ip(self.add(o, alpha))
    def sub_(self, o, alpha=1): return self._ip(self.sub(o, alpha))
    def mul_(self, o): return self._ip(self * o)
    def div_(self, o, rounding_mode=None): return self._ip(self.div(o, rounding_mode))
    __iadd__, __isub__, __imul__, __itruediv__ = add_, sub_, mul_, div_

    def __iand__(self, o): return self._ip(self & o)
    def __ior__(self, o): return self._ip(self | o)
    def __ixor__(self, o): return self._ip(self ^ o)
    def __ifloordiv__(self, o): return self._ip(self // o)
    def __ipow__(self, o): return self._ip(self ** o)
    def __ilshift__(self, o): return self._ip(self << o)
    def __irshift__(self, o): return self._ip(self >> o)
    def __rfloordiv__(self, o): return _rb("floor_divide", o, self)
    def __rmod__(self, o): return _rb("remainder", o, self)
    def __rpow__(self, o): return _new(_arr(np.power(o, _f(self)), None), self._rg)

    def add(self, o, alpha=1): return self + (o if alpha == 1 else o * alpha)
    def sub(self, o, alpha=1): return self - (o if alpha == 1 else o * alpha)
    def mul(self, o): return self * o
    def div(self, o, rounding_mode=None):
        if rounding_mode == "floor":
            return self // o
        if rounding_mode == "trunc":
            if not _is_float(result_type(self, o)):
                q = abs_(self) // abs(o)
                return where((self < 0) ^ (o < 0), -q, q)
            return trunc(self / o)
        return self / o
    divide = div
    def neg(self): return -self
    def pow(self, o): return pow_(self, o)
    def square(self): return self * self
    def eq(self, o): return self == o
    def ne(self, o): return self != o
    def lt(self, o): return self < o
    def le(self, o): return self <= o
    def gt(self, o): return self > o
    def ge(self, o): return self >= o
    def logical_not(self): return _new(_arr(np.logical_not(self._arr), None))
    def logical_and(self, o): return logical_and(self, o)
    def logical_or(self, o): return logical_or(self, o)

    def copy_(self, o, non_blocking=False):
        self._chk()
        self._arr[...] = np.broadcast_to(base_of(cast_arr(o._arr, self._arr._dt)), self._arr.shape) if o._arr.shape != self._arr.shape else o._arr
        if o._rg:
            self._rg, self._leaf = True, False
        return self

    def fill_(self, v):
        self._chk()
        self._arr[...] = v
        return self

    def zero_(self):
        return self.fill_(0)

    # ---- functions
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return sqrt(self)
    def abs(self): return abs_(self)
    def sigmoid(self): return sigmoid(self)
    def logit(self, eps=None): return logit(self, eps)
    def clamp(self, min=None, max=None): return clamp(self, min, max)
    clip = clamp
    def exp_(self): return self._ip(exp(self))
    def log_(self): return self._ip(log(self))
    def sigmoid_(self): return self._ip(sigmoid(self))
    def logit_(self, eps=None): return self._ip(logit(self, eps))
    def clamp_(self, min=None, max=None): return self._ip(clamp(self, min, max))
    def round(self, decimals=0): return round_(self) if not decimals else round_(self * 10.0 ** decimals) / 10.0 ** decimals
    def floor(self): return floor(self)
    def trunc(self): return trunc(self)
    def isnan(self): return isnan(self)
    def norm(self, p=2, dim=None, keepdim=False): return norm(self, p, dim, keepdim)
    def sum(self, dim=None, keepdim=False, dtype=None): return sum_(self, dim, keepdim, dtype)
    def mean(self, dim=None, keepdim=False): return mean(self, dim, keepdim)
    def all(self, dim=None, keepdim=False): return all_(self, dim, keepdim)
    def any(self, dim=None, keepdim=False): return any_(self, dim, keepdim)
    def min(self, dim=None, keepdim=False): return _mm(self, dim, keepdim, False)
    def max(self, dim=None, keepdim=False): return _mm(self, dim, keepdim, True)
    def amin(self, dim=None, keepdim=False): return amin(self, dim, keepdim)
    def amax(self, dim=None, keepdim=False): return amax(self, dim, keepdim)
    def argmax(self, dim=None, keepdim=False): return argmax(self, dim, keepdim)
    def argmin(self, dim=None, keepdim=False): return argmin(self, dim, keepdim)
    def equal(self, o): return equal(self, o)

    def new_zeros(self, *s, dtype=None, device=None):
        return zeros(*s, dtype=dtype or self.dtype)

    def new_ones(self, *s, dtype=None, device=None):
        return ones(*s, dtype=dtype or self.dtype)

    def new_empty(self, *s, dtype=None, device=None):
        return empty(*s, dtype=dtype or self.dtype)

    def new_tensor(self, v, dtype=None):
        return tensor(v, dtype=dtype or self.dtype)

    def new_full(self, s, v, dtype=None, device=None):
        return full(s, v, dtype=dtype or self.dtype)

    # ---- further functions
    mT = property(lambda s: s.transpose(-1, -2))
    def isfinite(self): return isfinite(self)
    def isinf(self): return isinf(self)
    def ceil(self): return ceil(self)
    def sign(self): return sign(self)
    def rsqrt(self): return rsqrt(self)
    def reciprocal(self): return reciprocal(self)
    def log1p(self): return log1p(self)
    def expm1(self): return expm1(self)
    def exp2(self): return _new(_arr(np.power(2.0, _f(self)), None), self._rg)
    def minimum(self, o): return minimum(self, o)
    def maximum(self, o): return maximum(self, o)
    fmin, fmax = minimum, maximum
    def where(self, c, o): return where(c, self, o)
    def clamp_min(self, v): return clamp(self, min=v)
    def clamp_max(self, v): return clamp(self, max=v)
    def copysign(self, o): return _bin("copysign", self, o)
    def signbit(self): return _new(_arr(np.signbit(self._arr), None))
    def count_nonzero(self, dim=None): return sum_(self != 0, dim)
    def cumsum(self, dim=0, dtype=None): return _new(_i64(npshim.cumsum_(self._arr, dim)), self._rg)
    def diff(self, n=1, dim=-1): return self.narrow(dim, 1, self._arr.shape[dim] - 1) - self.narrow(dim, 0, self._arr.shape[dim] - 1)
    def dot(self, o): return (self * o).sum()
    def outer(self, o): return self.unsqueeze(1) * o.unsqueeze(0)
    def matmul(self, o): return _new(_arr(npshim.matmul_(self._arr, o._arr), None), _grad(self, o))
    __matmul__ = mm = matmul
    def flip(self, *d): return _new(wrap(np.flip(base_of(self._arr), _shp(d)).copy(), self._arr._dt), self._rg)
    def roll(self, s, d=None, dims=None): return _new(wrap(np.roll(base_of(self._arr), s, d if d is not None else dims), self._arr._dt), self._rg)
    def tile(self, *r): return self.repeat(*((1,) * (self._arr.ndim - len(_shp(r))) + _shp(r)))
    def floor_divide(self, o): return self // o
    def true_divide(self, o): return self / o
    def frac(self): return self - trunc(self)
    def fmod(self, o): return self - trunc(self / o) * o
    def remainder(self, o): return self % o
    def isclose(self, o, rtol=1e-5, atol=1e-8, equal_nan=False): return abs_(self - o) <= atol + rtol * abs_(o)
    def allclose(self, o, **k): return allclose(self, o, **k)
    def lerp(self, o, w): return self + (o - self) * w
    def logical_xor(self, o): return _new(_arr(np.logical_xor(_sc(self, "bool"), _sc(o, "bool")), None))
    def multiply(self, o): return self * o
    def subtract(self, o, alpha=1): return self - (o if alpha == 1 else o * alpha)
    def negative(self): return -self
    def absolute(self): return abs_(self)
    def nan_to_num(self, *a, **k): return self.clone()
    def prod(self, dim=None, keepdim=False, dtype=None): return prod(self, dim, keepdim, dtype)
    def repeat_interleave(self, n, dim=None): return _new(wrap(np.repeat(base_of(self._arr), n._arr.tolist() if isinstance(n, Tensor) else n, axis=dim), self._arr._dt), self._rg)
    def scatter(self, dim, index, src): return self.clone().scatter_(dim, index, src)
    def argsort(self, dim=-1, descending=False, stable=False):
        if descending:
            raise Unsupported("descending sort")
        return _new(_i64(npshim.argsort_(self._arr, dim)))
    def sort(self, dim=-1, descending=False, stable=False):
        i = self.argsort(dim, descending)
        return _MinMax((_new(npshim.take_along(self._arr, i._arr, dim), self._rg), i))
    def tensor_split(self, n, dim=0):
        if not isinstance(n, int):
            b = [0] + [int(x) for x in n] + [self._arr.shape[dim]]
            return tuple(self.narrow(dim, x, y - x) for x, y in zip(b, b[1:]))
        q, r = divmod(self._arr.shape[dim], n)
        return split(self, [q + 1] * r + [q] * (n - r), dim)
    def std(self, dim=None, keepdim=False, unbiased=True, correction=None): return sqrt(self.var(dim, keepdim, unbiased))
    def var(self, dim=None, keepdim=False, unbiased=True, correction=None):
        return _new(as_sym(npshim.var_(self._arr, _ax(dim), 1 if unbiased else 0, keepdim)), self._rg)
    def take(self, index): return self.reshape(-1)[index]
    def take_along_dim(self, index, dim): return gather(self, dim, index)
    def tril(self, k=0): return _new(_arr(np.tril(self._arr, k), None), self._rg)
    def triu(self, k=0): return _new(_arr(np.triu(self._arr, k), None), self._rg)
    def unflatten(self, dim, sizes):
        sh = self._arr.shape
        dim %= len(sh)
        return self.reshape(*(sh[:dim] + tuple(sizes) + sh[dim + 1:]))
    def reshape_as(self, o): return self.reshape(*o.shape)
    def unique(self, sorted=True): return _new(npshim.unique_(self._arr))
    def bitwise_and(self, o): return self & o
    def bitwise_or(self, o): return self | o
    def bitwise_xor(self, o): return self ^ o
    def bitwise_not(self): return ~self
    def bitwise_left_shift(self, o): return self << o
    def bitwise_right_shift(self, o): return self >> o
    def addcmul(self, a, b, value=1): return self + (a * b if value == 1 else a * b * value)
    def addcdiv(self, a, b, value=1): return self + (a / b if value == 1 else a / b * value)
    def diagonal(self, *a): return _new(wrap(np.diagonal(base_of(self._arr), *a), self._arr._dt), self._rg)
    def broadcast_to(self, shape): return self.expand(*shape)
    def relu(self): return clamp(self, min=0)
    def hypot(self, o): return sqrt(self * self + o * o)
    def median(self): raise Unsupported("median")

    def squeeze_(self, d=None):
        self._arr = self.squeeze(d)._arr
        return self

    def unsqueeze_(self, d):
        self._arr = self.unsqueeze(d)._arr
        return self

    def detach_(self):
        self._rg, self._leaf = False, True
        return self

    def index_copy_(self, dim, index, src):
        self[(slice(None),) * (dim % self._arr.ndim) + (index,)] = src
        return self

    def index_fill_(self, dim, index, v):
        self[(slice(None),) * (dim % self._arr.ndim) + (index,)] = v
        return self

    def index_add_(self, dim, index, src, alpha=1):
        for j, i in enumerate(index.tolist()):
            r = self.select(dim, i)
            r.copy_(r + (src.select(dim, j) if alpha == 1 else src.select(dim, j) * alpha))
        return self

    def index_put_(self, idx, v, accumulate=False):
        if accumulate:
            raise Unsupported("index_put_ accumulate")
        self[tuple(idx)] = v
        return self

    def as_strided(self, size, stride, storage_offset=None):
        root = self._root()
        flat = np.lib.stride_tricks.as_strided(root.reshape(-1)[self.storage_offset() if storage_offset is None else storage_offset:], tuple(size), tuple(8 * x for x in stride))
        return _new(wrap(flat, self._arr._dt), self._rg)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.endswith("_") and n[:-1] in _INPLACE:
            return lambda *a, **k: self._ip(getattr(self, n[:-1])(*a, **k))
        raise Unsupported(f"Tensor.{n}")


_INPLACE = set("neg negative abs absolute sqrt square rsqrt reciprocal round floor ceil trunc frac pow clamp_min clamp_max clip multiply subtract true_divide divide lerp "
               "logical_and logical_or logical_xor logical_not bitwise_and bitwise_or bitwise_xor bitwise_not remainder fmod floor_divide copysign sign log1p expm1 exp2 "
               "nan_to_num addcmul addcdiv eq ne lt le gt ge relu cumsum tril triu masked_scatter".split())


def _i64(a):
    a = as_sym(a)
    return a if _is_float(a._dt) else cast_arr(a, "i64")


def _rb(name, o, t, fl=False):
    if not isinstance(o, (Node, bool, int, float, np.generic)):
        return NotImplemented
    dt = result_type(t, o)
    if fl and not _is_float(dt):
        dt = "f32"
    return _new(_arr(getattr(np, name)(_sc(o, dt), _sc(t, dt)), dt), t._rg)


def _cmp(name, a, b):
    if not isinstance(b, (Tensor, Node, bool, int, float, np.generic)):
        return NotImplemented
    dt = result_type(a, b)
    return _new(_arr(getattr(np, name)(_sc(a, dt), _sc(b, dt)), None))


def _shp(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(x.__index__() for x in s)


def _reshape(a, shape):
    if -1 in shape and a.size == 0 and int(np.prod([x for x in shape if x != -1])) == 0:
        raise RuntimeError(f"cannot reshape tensor of 0 elements into shape {list(shape)} because the unspecified dimension size -1 can be any value")
    try:
        return a.reshape(shape)
    except ValueError:
        raise RuntimeError(f"shape '{list(shape)}' is invalid for input of size {a.size}") from None


def _ints(tup, nd):
    out = []
    for k in tup:
        if k is Ellipsis:
            return out
        if k is None:
            continue
        out.append(k.__index__() if isinstance(k, (int, np.integer)) and not isinstance(k, bool) else None)
    return out


def _dims(tup, shape):
    out = []
    d = 0
    for k in tup:
        if k is None:
            continue
        if isinstance(k, SymArray) and k._dt == "bool":
            out.append(0)
            d += k.ndim
            continue
        out.append(shape[d] if d < len(shape) else 0)
        d += 1
    return out


def _key1(t, k, d):
    if isinstance(k, Tensor):
        a = k._arr
        if a._dt == "u8":
            a = cast_arr(a, "bool")
        if _is_float(a._dt):
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
    elif isinstance(k, np.ndarray):
        a = as_sym(k)
        if _is_float(a._dt):
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        if a._dt == "u8":
            a = cast_arr(a, "bool")
    elif isinstance(k, list):
        if not k:
            return np.zeros(0, dtype=np.int64)
        a = as_sym([bool(x) if isinstance(x, np.bool_) else x for x in k])
    elif isinstance(k, slice):
        s = k.step
        if s is not None and s.__index__() <= 0:
            raise ValueError("step must be greater than zero")
        return k
    elif isinstance(k, (int, np.integer, Node)) or k is None or k is Ellipsis or isinstance(k, bool):
        return k
    else:
        raise IndexError(f"unsupported index {type(k).__name__}")
    if a._dt == "bool":
        if a.shape != t._arr.shape[d:d + a.ndim]:
            raise IndexError(f"The shape of the mask {list(a.shape)} does not match the shape of the indexed tensor {list(t._arr.shape)}")
    if a.ndim == 0 and a._dt != "bool":
        return a[()]
    return a


def _key(t, key):
    if isinstance(key, tuple):
        out, d = [], 0
        for k in key:
            r = _key1(t, k, d)
            out.append(r)
            if k is not None:
                d += r.ndim if isinstance(r, SymArray) and r._dt == "bool" else 1
        return tuple(out)
    return _key1(t, key, 0)


def _lookup(a, idx):
    """a[idx] for a symbolic integer array idx"""
    n = a.shape[0]
    o = base_of(a)
    ii = base_of(idx)
    out = np.empty(idx.shape + a.shape[1:], dtype=object)
    for k in np.ndindex(idx.shape):
        i = ii[k]
        if i.op == "const":
            v = i.__index__()
            if not -n <= v < n:
                raise IndexError(f"index {v} is out of bounds for dimension 0 with size {n}")
            out[k] = o[v]
            continue
        lo, hi = ir.interval(i)
        if not (lo >= -n and hi < n) and not ir.State.engine.decide(ir.land(i >= -n, i < n)):
            raise IndexError("index out of bounds")
        for j in np.ndindex(a.shape[1:]):
            r = o[(0,) + j]
            for m in range(1, n):
                c = i == m
                if lo < 0:
                    c = ir.lor(c, i == m - n)
                r = ir.ite(c, o[(m,) + j], r)
            out[k + j] = r
    return wrap(out, a._dt)


# ------------------------------------------------------------------ functions
def _dt(dtype, default="f32"):
    return default if dtype is None else dtype.dt


def _mk(shape, v, dtype, rg=False):
    if shape and isinstance(shape[-1], (tuple, list)) and len(shape) == 1:
        shape = shape[0]
    shape = tuple(s.__index__() for s in shape)
    dt = dtype
    o = np.empty(shape, dtype=object)
    n = ir.cast(const(v), dt)
    for k in np.ndindex(shape):
        o[k] = n
    return Tensor(wrap(o, dt), rg)


def zeros(*shape, dtype=None, device=None, requires_grad=False, **k):
    _dev(device or CPU)
    return _mk(shape, 0, _dt(dtype), requires_grad)


def ones(*shape, dtype=None, device=None, requires_grad=False, **k):
    _dev(device or CPU)
    return _mk(shape, 1, _dt(dtype), requires_grad)


def empty(*shape, dtype=None, device=None, requires_grad=False, **k):
    _dev(device or CPU)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    a = npshim.empty(tuple(s.__index__() for s in shape), dtype=ir.NP[_dt(dtype)])
    return Tensor(a, requires_grad)


def full(shape, v, dtype=None, device=None, **k):
    _dev(device or CPU)
    d = dtype.dt if dtype is not None else _kind(v)[1]
    return _mk((shape,) if isinstance(shape, (tuple, list)) else (shape,), v, d)


def zeros_like(t, dtype=None, device=None, **k):
    return _mk((t._arr.shape,), 0, _dt(dtype, t._arr._dt))


def ones_like(t, dtype=None, device=None, **k):
    return _mk((t._arr.shape,), 1, _dt(dtype, t._arr._dt))


def full_like(t, v, dtype=None, **k):
    return _mk((t._arr.shape,), v, _dt(dtype, t._arr._dt))


def empty_like(t, dtype=None, **k):
    return empty(t._arr.shape, dtype=dtype or t.dtype)


def arange(*a, dtype=None, device=None, **k):
    _dev(device or CPU)
    r = from_concrete(np.arange(*[x.__index__() for x in a]).astype(np.int64))
    return Tensor(cast_arr(r, dtype.dt) if dtype is not None else r)


def _data(x):
    if isinstance(x, Tensor):
        return x._arr
    if isinstance(x, (np.ndarray, np.generic)):
        return as_sym(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return from_concrete(np.zeros(0, dtype=np.float32))
        if any(isinstance(e, (Tensor, np.ndarray, list, tuple)) for e in x):
            return as_sym([_data(e) for e in x])
    a = as_sym(x)
    return cast_arr(a, "f32") if a._dt == "f64" else a


def tensor(x, dtype=None, device=None, requires_grad=False, **k):
    _dev(device or CPU)
    a = _data(x)
    a = cast_arr(a, dtype.dt, copy=True) if dtype is not None else a.copy()
    return Tensor(a, requires_grad, True)


def as_tensor(x, dtype=None, device=None, **k):
    _dev(device or CPU)
    if isinstance(x, Tensor):
        return x.to(dtype) if dtype is not None else x
    if isinstance(x, np.ndarray):
        t = from_numpy(x)
        return t.to(dtype) if dtype is not None else t
    return tensor(x, dtype=dtype)


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(a).__name__})")
    if any(s < 0 for s in np.ndarray.strides.__get__(a)):
        raise ValueError("At least one stride in the given numpy array is negative, and tensors with negative strides are not currently supported.")
    return Tensor(as_sym(a)[...] if a.ndim else as_sym(a))


def _seq(ts):
    ts = list(ts)
    if not ts:
        raise RuntimeError("expected a non-empty list of Tensors")
    for t in ts:
        if not isinstance(t, Tensor):
            raise TypeError("expected Tensor as element of argument")
    dt = ts[0]._arr._dt
    for t in ts[1:]:
        dt = _promote2(dt, t._arr._dt)
    return ts, dt


def cat(ts, dim=0, **k):
    ts, dt = _seq(ts)
    ts = [t for t in ts if t._arr.shape != (0,)] or ts[:1]
    sh = {tuple(s for i, s in enumerate(t._arr.shape) if i != dim % t._arr.ndim) for t in ts}
    if len(sh) > 1 or len({t._arr.ndim for t in ts}) > 1:
        raise RuntimeError("Sizes of tensors must match except in dimension 0.")
    return _new(wrap(np.concatenate([base_of(cast_arr(t._arr, dt)) for t in ts], axis=dim), dt), _grad(*ts))


concat = concatenate = cat


def stack(ts, dim=0, **k):
    ts, dt = _seq(ts)
    if len({t._arr.shape for t in ts}) > 1:
        raise RuntimeError("stack expects each tensor to be equal size")
    return _new(wrap(np.stack([base_of(cast_arr(t._arr, dt)) for t in ts], axis=dim), dt), _grad(*ts))


def hstack(ts):
    return cat(ts, 0 if next(iter(ts)).ndim == 1 else 1)


def vstack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def column_stack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(1) for t in ts], 1)


def split(t, n, dim=0):
    size = t._arr.shape[dim]
    ns = [n] * (size // n) + ([size % n] if size % n else []) if isinstance(n, int) else list(n)
    out, p = [], 0
    for m in ns:
        out.append(t.narrow(dim, p, m))
        p += m
    return tuple(out)


def unbind(t, dim=0):
    return t.unbind(dim)


def where(c, a=None, b=None):
    if a is None:
        return c.nonzero(as_tuple=True)
    dt = result_type(a, b)
    r = npshim.where_(c._arr, _sc(a, dt), _sc(b, dt))
    return _new(r, _grad(a, b))


def _bounded(t, lo, hi, dt):
    r = cast_arr(t._arr, dt)
    if lo is not None:
        r = _arr(np.maximum(r, _sc(lo, dt)), dt)
    if hi is not None:
        r = _arr(np.minimum(r, _sc(hi, dt)), dt)
    return r


def clamp(t, min=None, max=None, **k):
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    dt = result_type(*[x for x in (t, min, max) if x is not None])
    r = _bounded(t, min, max, dt)
    return _new(r if r is not t._arr else r.copy(), _grad(t, min, max))


clip = clamp


def minimum(a, b):
    dt = result_type(a, b)
    return _new(_arr(np.minimum(_sc(a, dt), _sc(b, dt)), dt), _grad(a, b))


def maximum(a, b):
    dt = result_type(a, b)
    return _new(_arr(np.maximum(_sc(a, dt), _sc(b, dt)), dt), _grad(a, b))


def _un(name):
    def g(t, **k):
        return _new(_arr(getattr(np, name)(_f(t)), None), t._rg)
    return g


exp, log, sqrt, log1p, expm1, sin, cos, tanh = (_un(n) for n in ("exp", "log", "sqrt", "log1p", "expm1", "sin", "cos", "tanh"))


def rsqrt(t):
    return 1.0 / sqrt(t)


def reciprocal(t):
    return 1.0 / t


def _unk(name):
    def g(t, **k):
        return _new(_arr(getattr(np, name)(t._arr), None), t._rg)
    return g


abs_, floor, ceil, trunc, round_, sign, neg = (_unk(n) for n in ("abs", "floor", "ceil", "trunc", "rint", "sign", "negative"))


def isnan(t):
    return _new(_arr(np.isnan(t._arr), None))


def isfinite(t):
    return _new(_arr(np.isfinite(t._arr), None))


def isinf(t):
    return _new(_arr(np.isinf(t._arr), None))


def sigmoid(t):
    one = _sc(1.0, _f(t)._dt)
    return _new(_arr(np.divide(one, np.add(one, np.exp(np.negative(_f(t))))), None), t._rg)


def logit(t, eps=None):
    x = _f(t)
    if eps is not None:
        x = _bounded(Tensor(x), eps, 1.0 - eps, x._dt)
    one = _sc(1.0, x._dt)
    return _new(_arr(np.log(np.divide(x, np.subtract(one, x))), None), t._rg)


def pow_(t, p):
    if isinstance(p, (int, float)) and p == 2:
        return t * t
    if isinstance(p, (int, float)) and p == 0.5:
        return sqrt(t)
    if isinstance(p, int) and 0 <= p <= 8:
        r = ones_like(t)
        for _ in range(p):
            r = r * t
        return r
    if isinstance(p, (int, float)) and p in (-1, -0.5):
        return reciprocal(t) if p == -1 else rsqrt(t)
    raise Unsupported("tensor power")


def square(t):
    return t * t


def norm(t, p=2, dim=None, keepdim=False, **k):
    if p not in (2, 2.0, "fro", None):
        raise Unsupported("norm order")
    x = _f(t)
    s = npshim.reduce_("add", np.multiply(x, x), _ax(dim), keepdim)
    return _new(_arr(np.sqrt(as_sym(s)), None), t._rg)


def normalize(t, p=2.0, dim=1, eps=1e-12):
    return t / clamp(norm(t, p, dim, True), min=eps)


def _ax(dim):
    return tuple(dim) if isinstance(dim, (tuple, list)) else dim


def sum_(t, dim=None, keepdim=False, dtype=None, **k):
    dt = dtype.dt if dtype is not None else t._arr._dt if _is_float(t._arr._dt) else "i64"
    return _new(cast_arr(as_sym(npshim.reduce_("add", cast_arr(t._arr, dt), _ax(dim), keepdim)), dt), t._rg)


def prod(t, dim=None, keepdim=False, dtype=None, **k):
    dt = dtype.dt if dtype is not None else t._arr._dt if _is_float(t._arr._dt) else "i64"
    return _new(cast_arr(as_sym(npshim.reduce_("multiply", cast_arr(t._arr, dt), _ax(dim), keepdim)), dt), t._rg)


def mean(t, dim=None, keepdim=False):
    return _new(as_sym(npshim.mean_(t._arr, _ax(dim), keepdims=keepdim)), t._rg)


def all_(t, dim=None, keepdim=False):
    return _new(as_sym(npshim.all_(t._arr, _ax(dim), keepdims=keepdim)))


def any_(t, dim=None, keepdim=False):
    return _new(as_sym(npshim.any_(t._arr, _ax(dim), keepdims=keepdim)))


def amin(t, dim=None, keepdim=False):
    return _new(as_sym(_red("minimum", t, _ax(dim), keepdim)), t._rg)


def amax(t, dim=None, keepdim=False):
    return _new(as_sym(_red("maximum", t, _ax(dim), keepdim)), t._rg)


def _red(name, t, axis, keep):
    a = t._arr
    if a.size == 0:
        axes = npshim._axes(axis, a.ndim)
        if any(a.shape[i] == 0 for i in axes):
            raise RuntimeError("Expected reduction dim to be specified for input.numel() == 0")
        sh = tuple((1 if i in axes else s) for i, s in enumerate(a.shape) if keep or i not in axes)
        return wrap(np.empty(sh, dtype=object), a._dt)
    if name in ("minimum", "maximum") and axis is not None and len(npshim._axes(axis, a.ndim)) == 1 and a._dt in ("f16", "f32", "f64"):
        a = _noinf(a, npshim._axes(axis, a.ndim)[0], math.inf if name == "minimum" else -math.inf)
    return npshim.reduce_(name, a, axis, keep)


def _noinf(a, axis, inf):
    """the identity of the reduction does not matter next to another element: use that element in its place"""
    o = base_of(a)
    is_inf = np.array([const(x).op == "const" and float(const(x).val) == inf for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
    if not is_inf.any():
        return a
    o, m = np.moveaxis(np.array(o, dtype=object, copy=True), axis, -1), np.moveaxis(is_inf, axis, -1)
    for k in np.ndindex(o.shape[:-1]):
        if m[k].any() and not m[k].all():
            o[k][m[k]] = o[k][~m[k]][-1]
    return wrap(np.ascontiguousarray(np.moveaxis(o, -1, axis)), a._dt)


def _mm(t, dim, keepdim, mx):
    if isinstance(dim, Tensor):
        return (maximum if mx else minimum)(t, dim)
    v = (amax if mx else amin)(t, dim, keepdim)
    if dim is None:
        return v
    return _MinMax((v, (argmax if mx else argmin)(t, dim, keepdim)))


def min_(t, *a, **k):
    return t.min(*a, **k)


def max_(t, *a, **k):
    return t.max(*a, **k)


def argmax(t, dim=None, keepdim=False):
    return _argm(t, dim, keepdim, True)


def argmin(t, dim=None, keepdim=False):
    return _argm(t, dim, keepdim, False)


def _argm(t, dim, keepdim, mx):
    a = t._arr
    if a.size == 0:
        sh = tuple(s for i, s in enumerate(a.shape) if i != dim % a.ndim)
        return _new(wrap(np.empty(sh, dtype=object), "i64"))
    r = as_sym(npshim.arg_(a, dim, mx))
    r = cast_arr(r, "i64")
    return _new(r).unsqueeze(dim) if keepdim else _new(r)


def gather(t, dim, index, **k):
    o = base_of(t._arr)
    ix = base_of(index._arr)
    dim = dim % o.ndim
    n = o.shape[dim]
    out = np.empty(ix.shape, dtype=object)
    few = len({const(i).id for i in ix.reshape(-1) if const(i).op != "const"}) <= 4
    for k_ in np.ndindex(ix.shape):
        i = const(ix[k_])
        if few and i.op != "const":
            # one path per value
            for m in range(n):
                if ir.State.engine.decide(const(i == m)):
                    i = const(m, i.dt)
                    break
        if i.op == "const":
            v = i.__index__()
            if not 0 <= v < n:
                raise RuntimeError(f"index {v} is out of bounds for dimension {dim} with size {n}")
            out[k_] = o[k_[:dim] + (v,) + k_[dim + 1:]]
        else:
            lo, hi = ir.interval(i)
            if not (lo >= 0 and hi < n) and not ir.State.engine.decide(ir.land(i >= 0, i < n)):
                raise RuntimeError("index out of bounds")
            r = o[k_[:dim] + (n - 1,) + k_[dim + 1:]]
            for m in range(n - 2, -1, -1):
                r = ir.ite(i == m, o[k_[:dim] + (m,) + k_[dim + 1:]], r)
            out[k_] = r
    return _new(wrap(out, t._arr._dt), t._rg)


def logical_and(a, b):
    return _new(_arr(np.logical_and(_sc(a, "bool"), _sc(b, "bool")), None))


def logical_or(a, b):
    return _new(_arr(np.logical_or(_sc(a, "bool"), _sc(b, "bool")), None))


def logical_not(a):
    return a.logical_not()


def equal(a, b):
    if a._arr.shape != b._arr.shape:
        return False
    return bool((a == b).all())


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool((abs_(a - b) <= atol + rtol * abs_(b)).all())


def nonzero(t, as_tuple=False):
    return t.nonzero(as_tuple)


def bitwise_and(a, b):
    return a & b


def bitwise_or(a, b):
    return a | b


def bitwise_left_shift(a, b):
    return a << b


def bitwise_right_shift(a, b):
    return a >> b


def compile(fn=None, **k):  # noqa: A001
    """the code is executed as written; compilation is trusted to keep its meaning"""
    return fn if fn is not None else (lambda f: f)


def is_tensor(x):
    return isinstance(x, Tensor)


def pad(t, pads, mode="constant", value=None):
    pw = [(0, 0)] * t.ndim
    for i in range(len(pads) // 2):
        pw[t.ndim - 1 - i] = (pads[2 * i], pads[2 * i + 1])
    if any(x < 0 for p in pw for x in p):
        raise Unsupported("negative padding")
    if mode == "constant":
        return _new(wrap(np.pad(base_of(t._arr), pw, mode="constant", constant_values=ir.cast(const(0 if value is None else value), t._arr._dt)), t._arr._dt), t._rg)
    if mode != "replicate":
        raise Unsupported("pad mode")
    return _new(wrap(np.pad(base_of(t._arr), pw, mode="edge"), t._arr._dt), t._rg)


class _NoGrad:
    def __enter__(self):
        raise Unsupported("no_grad")

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        raise Unsupported("no_grad")


class _Cuda(types.ModuleType):
    def is_available(self):
        return False

    def device_count(self):
        return 0

    def synchronize(self, *a):
        raise RuntimeError("no CUDA")

    def __getattr__(self, n):
        raise Unsupported(f"torch.cuda.{n}")


class _Torch(types.ModuleType):
    def __init__(self):
        super().__init__("torch")
        self.__version__ = "2.15.0"
        self.__path__ = []
        self.Tensor, self.device, self.dtype, self.Size = Tensor, Device, DType, Size
        for d in _D.values():
            setattr(self, d.name, d)
        self.float, self.double, self.half, self.long, self.int = _D["f32"], _D["f64"], _D["f16"], _D["i64"], _D["i32"]
        for n in ("zeros ones empty full zeros_like ones_like full_like empty_like arange tensor as_tensor from_numpy cat concat concatenate stack hstack vstack "
                  "column_stack split unbind where clamp clip minimum maximum exp log sqrt log1p expm1 sin cos tanh rsqrt reciprocal floor ceil trunc sign "
                  "isnan isfinite isinf sigmoid logit square norm mean amin amax argmax argmin gather logical_and logical_or logical_not equal allclose nonzero "
                  "bitwise_and bitwise_or bitwise_left_shift bitwise_right_shift compile is_tensor").split():
            setattr(self, n, globals()[n])
        self.abs, self.round, self.pow, self.sum, self.all, self.any, self.min, self.max, self.neg = abs_, round_, pow_, sum_, all_, any_, min_, max_, neg
        self.arange = arange
        self.atleast_1d = lambda t: t if t.ndim else t.reshape(1)
        self.atleast_2d = lambda t: t.reshape(1, 1) if t.ndim == 0 else t.unsqueeze(0) if t.ndim == 1 else t
        self.einsum = lambda e, *ts: _new(_arr(np.einsum(e, *[x._arr for x in (ts[0] if isinstance(ts[0], (list, tuple)) else ts)]), None), _grad(*ts))
        self.eye = lambda n, m=None, dtype=None, device=None: tensor(np.eye(n, m), dtype=dtype or _D["f32"], device=device)
        self.linspace = lambda a, b, n=100, dtype=None, device=None, **k: tensor(np.linspace(a, b, n), dtype=dtype or _D["f32"], device=device)
        self.iinfo = lambda d: np.iinfo(ir.NP[d.dt])
        self.finfo = lambda d=_D["f32"]: np.finfo(ir.NP[d.dt])
        self.promote_types = lambda a, b: _D[_promote2(a.dt, b.dt)]
        self.get_default_dtype = lambda: _D["f32"]
        self.is_grad_enabled = lambda: True
        self.asarray = as_tensor
        self.row_stack = vstack
        self.dstack = lambda ts: cat([t.reshape(*(tuple(t.shape) + (1,))) if t.ndim == 2 else t for t in ts], 2)
        self.meshgrid = lambda *ts, indexing="ij": tuple(_new(as_sym(x)) for x in np.meshgrid(*[base_of(t._arr) for t in ts], indexing=indexing))
        self.inf, self.nan, self.pi, self.e = math.inf, math.nan, math.pi, math.e
        self.transpose = lambda t, a, b: t.transpose(a, b)
        self.reshape = lambda t, s: t.reshape(s)
        self.flatten = lambda t, *a: t.flatten(*a)
        self.unsqueeze = lambda t, d: t.unsqueeze(d)
        self.squeeze = lambda t, *a: t.squeeze(*a)
        self.clone = lambda t: t.clone()
        self.permute = lambda t, d: t.permute(d)
        self.index_select = lambda t, d, i: t.index_select(d, i)
        self.result_type = lambda a, b: _D[result_type(a, b)]
        self.contiguous_format = self.preserve_format = None
        self.no_grad = self.inference_mode = _NoGrad
        self.cuda = _Cuda("torch.cuda")
        self._dynamo = types.ModuleType("torch._dynamo")
        self.version = types.SimpleNamespace(cuda=None)
        nn = types.ModuleType("torch.nn")
        F = types.ModuleType("torch.nn.functional")
        F.normalize = normalize
        F.sigmoid = sigmoid
        F.pad = pad
        F.relu = lambda t, inplace=False: clamp(t, min=0)
        F.hardtanh = lambda t, min_val=-1.0, max_val=1.0, inplace=False: clamp(t, min_val, max_val)
        F.logsigmoid = lambda t: log(sigmoid(t))
        F.softplus = lambda t: log1p(exp(t))
        nn.functional = F
        self.nn = nn
        self.linalg = types.SimpleNamespace(norm=lambda t, ord=None, dim=None, keepdim=False: norm(t, 2 if ord is None else ord, dim, keepdim),
                                            vector_norm=lambda t, ord=2, dim=None, keepdim=False: norm(t, ord, dim, keepdim))
        self.special = types.SimpleNamespace(logit=logit, expit=sigmoid)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = Tensor.__dict__.get(n)
        if callable(f) and not n.startswith("_"):
            # torch.f(t, ...) is t.f(...)
            return lambda t, *a, **k: getattr(t, n)(*a, **k)
        if n.endswith("_") and n[:-1] in _INPLACE:
            return lambda t, *a, **k: getattr(t, n)(*a, **k)
        raise Unsupported(f"torch.{n}")


shim = _Torch()
