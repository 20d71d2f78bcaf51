"""Typed expression IR built while the real Python source of gsply is executed
symbolically.  Nodes are hash-consed; constants fold with numpy semantics; the
lowering to SMT (lower.py) chooses the theory.

dtypes: 'f16','f32','f64' (IEEE floats), 'bool', 'i8'...'i64','u8'...'u64'
(fixed width), 'int' (unbounded python int), 'real' (specification-only exact
reals).
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

FLOATS = ("f16", "f32", "f64")
SINTS = ("i8", "i16", "i32", "i64")
UINTS = ("u8", "u16", "u32", "u64")
INTS = SINTS + UINTS
NP = {
    "f16": np.float16, "f32": np.float32, "f64": np.float64, "bool": np.bool_,
    "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64,
    "u8": np.uint8, "u16": np.uint16, "u32": np.uint32, "u64": np.uint64,
}
FROM_NP = {np.dtype(v): k for k, v in NP.items()}
WIDTH = {"f16": 16, "f32": 32, "f64": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
         "u8": 8, "u16": 16, "u32": 32, "u64": 64, "bool": 8}
ULP = {"f16": Fraction(1, 2 ** 11), "f32": Fraction(1, 2 ** 24), "f64": Fraction(1, 2 ** 53)}
TINY = {"f16": Fraction(1, 2 ** 25), "f32": Fraction(1, 2 ** 150), "f64": Fraction(1, 2 ** 1075)}
FMAX = {"f16": 65504.0, "f32": float(np.finfo(np.float32).max), "f64": float(np.finfo(np.float64).max)}


class Unsupported(Exception):
    """The engine cannot encode something (never reported as a violation)."""


def is_float(dt):
    return dt in FLOATS


def is_int(dt):
    return dt in INTS or dt == "int"


def dt_of_np(dtype):
    return FROM_NP[np.dtype(dtype)]


class State:
    """Mutable global interpreter state shared by the shims."""
    engine = None      # current Engine (paths, solver) or None
    numba = 0          # >0 while inside a jit kernel
    guards = []        # guard stack of if-converted regions
    race = None        # access log of parallel loops (engine.race)
    depth_simplify = True


_table: dict = {}
_next = [0]


def reset():
    _table.clear()
    _next[0] = 0
    _sym_info.clear()
    _atoms_memo.clear()
    _simp_memo.clear()
    _tokens.clear()
    _iv_cache.clear()
    CASES.clear()


# numbers counted from truth values: node id -> ((constant node, condition), ...), exhaustive and exclusive
CASES: dict = {}


def _cases(n):
    if n.op == "const":
        return ((n, const(True)),)
    return CASES.get(n.id)


def _from_cases(pairs, node=None):
    by = {}
    for v, c in pairs:
        by[v.id] = (v, c if v.id not in by else lor(by[v.id][1], c))
    cs = [(v, _simp(c)) for v, c in by.values()]
    cs = sorted([x for x in cs if x[1].op != "const" or x[1].val], key=lambda x: float(x[0].val))
    if not cs:
        return pairs[-1][0]
    for v, c in cs:
        if c.op == "const":
            return v
    r = cs[-1][0]
    for v, c in reversed(cs[:-1]):
        if c.op == "const":
            r = v if c.val else r
        elif c.op == "not":
            r = mk("ite", (c.args[0], r, v), v.dt)
        else:
            r = mk("ite", (c, v, r), v.dt)
    if r.op != "const":
        CASES[r.id] = tuple(cs)
    return r


def _combine_cases(op, a, b, dt):
    ca, cb = _cases(a), _cases(b)
    if ca is None or cb is None or (len(ca) == 1 and len(cb) == 1) or len(ca) * len(cb) > 24:
        return None
    out = []
    for x, c in ca:
        for y, e in cb:
            v = fold2(op, x, y, dt)
            if v is None or (is_float(dt) and not math.isfinite(float(v.val))):
                return None
            out.append((v, land(c, e)))
    if len({v.id for v, _ in out}) > 8:
        return None
    return _from_cases(out)


_sym_info: dict = {}   # name -> (dt, lo, hi)
_tokens: dict = {}     # token text -> Node


class Node:
    __slots__ = ("op", "args", "dt", "val", "id")
    __array_priority__ = 1e6

    def __repr__(self):
        return f"<{show(self, 3)}:{self.dt}>"

    # ------------------------------------------------------------ numpy-like
    @property
    def dtype(self):
        if self.dt in NP:
            return np.dtype(NP[self.dt])
        return np.dtype(object)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return py_scalar(self)

    def astype(self, dtype, copy=True):
        return cast(self, dt_of_np(dtype))

    def cpu(self):
        return self

    def is_integer(self):
        return mk("eqv", (self, mk("floor", (self,), self.dt)), "bool")

    # ------------------------------------------------------------- operators
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("fdiv", self, o)
    def __rfloordiv__(self, o): return binop("fdiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o): return binop("mod", o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __lshift__(self, o): return binop("shl", self, o)
    def __rlshift__(self, o): return binop("shl", o, self)
    def __rshift__(self, o): return binop("shr", self, o)
    def __rrshift__(self, o): return binop("shr", o, self)
    def __and__(self, o): return binop("and", self, o)
    def __rand__(self, o): return binop("and", o, self)
    def __or__(self, o): return binop("or", self, o)
    def __ror__(self, o): return binop("or", o, self)
    def __xor__(self, o): return binop("xor", self, o)
    def __rxor__(self, o): return binop("xor", o, self)
    def __neg__(self): return unop("neg", self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)

    def __invert__(self):
        return lnot(self) if self.dt == "bool" else unop("inv", self)

    def __lt__(self, o): return compare("lt", self, o)
    def __le__(self, o): return compare("le", self, o)
    def __gt__(self, o): return compare("gt", self, o)
    def __ge__(self, o): return compare("ge", self, o)
    def __eq__(self, o): return compare("eq", self, o)
    def __ne__(self, o): return compare("ne", self, o)
    def __hash__(self): return hash(("Node", self.id))

    def __bool__(self):
        if self.op == "const":
            return bool(self.val)
        if self.dt != "bool":
            return bool(compare("ne", self, 0))
        if State.engine is None:
            raise Unsupported("symbolic truth value outside an exploration")
        return State.engine.decide(self)

    def __index__(self):
        if self.op == "const" and is_int(self.dt):
            return int(self.val)
        if self.op == "const" and self.dt == "bool":
            return int(self.val)
        if is_float(self.dt):
            raise TypeError("float node used as index")
        if State.engine is None:
            raise Unsupported("symbolic index outside an exploration")
        return State.engine.concretize(self)

    def __int__(self):
        if self.op == "const":
            return int(self.val)
        if is_float(self.dt):
            raise Unsupported("int() of symbolic float")
        return self.__index__()

    def __float__(self):
        if self.op == "const":
            return float(self.val)
        raise Unsupported("float() of symbolic value")

    def __format__(self, spec):
        if self.op == "const":
            if is_int(self.dt) or self.dt == "bool":
                return format(int(self.val), spec)
            return format(float(self.val), spec)
        return token_of(self)

    def __str__(self):
        return self.__format__("")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.function_dispatch(func, types, args, kwargs)


def token_of(n):
    t = f"@S{n.id}@"
    _tokens[t] = n
    return t


def mk(op, args, dt, val=None):
    key = (op, tuple(a.id for a in args), dt, val)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.dt, n.val = op, tuple(args), dt, val
        n.id = _next[0]
        _next[0] += 1
        _table[key] = n
    return n


def const(v, dt=None):
    if isinstance(v, Node):
        return v if dt is None else cast(v, dt)
    if dt is None:
        if isinstance(v, (bool, np.bool_)):
            dt = "bool"
        elif isinstance(v, np.generic):
            dt = dt_of_np(v.dtype)
        elif isinstance(v, int):
            dt = "i64" if State.numba else "int"
        elif isinstance(v, float):
            dt = "f64"
        elif isinstance(v, Fraction):
            dt = "real"
        else:
            raise Unsupported(f"constant {v!r}")
    if dt == "real":
        v = Fraction(v)
        return mk("const", (), dt, v)
    if dt == "int":
        return mk("const", (), dt, int(v))
    if dt == "bool":
        return mk("const", (), dt, bool(v))
    with np.errstate(all="ignore"):
        if is_float(dt):
            f = NP[dt](v)
            # key on bits (distinguish -0.0/NaN)
            return _fconst(f, dt)
        w = WIDTH[dt]
        iv = int(v) & ((1 << w) - 1)
        if dt in SINTS and iv >> (w - 1):
            iv -= 1 << w
        return mk("const", (), dt, iv)


class FVal(float):
    """float constant keyed by bit pattern"""
    __slots__ = ()


def _fconst(f, dt):
    bits = int(f.view({"f16": np.uint16, "f32": np.uint32, "f64": np.uint64}[dt]))
    key = ("const", bits, dt)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.dt, n.val = "const", (), dt, f
        n.id = _next[0]
        _next[0] += 1
        _table[key] = n
    return n


def sym(name, dt, lo=None, hi=None):
    _sym_info[name] = (dt, lo, hi)
    return mk("sym", (), dt, name)


def is_const(n):
    return not isinstance(n, Node) or n.op == "const"


TRUE = lambda: const(True)
FALSE = lambda: const(False)


# ---------------------------------------------------------------- promotion
def weak(v):
    """python scalars are weak under NEP 50 (numpy mode)"""
    return isinstance(v, (bool, int, float)) and not isinstance(v, np.generic)


def promote(a, b):
    """Return (na, nb, dt) following numba typing in kernels, NEP 50 outside."""
    da = a.dt if isinstance(a, Node) else None
    db = b.dt if isinstance(b, Node) else None
    if da == "real" or db == "real":
        return to_real(a), to_real(b), "real"
    if State.numba:
        na, nb = const(a), const(b)
        dt = numba_common(na.dt, nb.dt)
        return cast(na, dt), cast(nb, dt), dt
    wa, wb = weak(a), weak(b)
    if da == "int":
        wa = True
    if db == "int":
        wb = True
    if wa and wb:
        na, nb = const(a), const(b)
        if is_float(na.dt) or is_float(nb.dt):
            return cast(na, "f64"), cast(nb, "f64"), "f64"
        return cast(na, "int"), cast(nb, "int"), "int"
    if wa or wb:
        w, s = (a, b) if wa else (b, a)
        s = const(s)
        wf = isinstance(w, float) or (isinstance(w, Node) and is_float(w.dt))
        dt = s.dt
        if wf and not is_float(dt):
            dt = "f64"
        elif dt == "bool" and not isinstance(w, bool):
            dt = "i64"
        na = cast(const(a), dt)
        nb = cast(const(b), dt)
        return na, nb, dt
    na, nb = const(a), const(b)
    dt = dt_of_np(np.promote_types(NP[na.dt], NP[nb.dt]))
    return cast(na, dt), cast(nb, dt), dt


def numba_common(da, db):
    if da == "int":
        da = "i64"
    if db == "int":
        db = "i64"
    if da == db and is_float(da):
        return da
    if is_float(da) or is_float(db):
        if is_float(da) and is_float(db):
            return "f64" if "f64" in (da, db) else "f32"
        f, i = (da, db) if is_float(da) else (db, da)
        # numba: float32 op (u)int8/16 -> float32 ; with wider ints -> float64
        if f == "f32" and i in ("i8", "u8", "i16", "u16", "bool"):
            return "f32"
        return "f64"
    if da == "bool" and db == "bool":
        return "i64"
    # integers promote to at least intp; all-unsigned -> uint64
    if (da in UINTS or da == "bool") and (db in UINTS or db == "bool"):
        return "u64"
    return "i64"


def to_real(a):
    if isinstance(a, Node):
        if a.dt == "real":
            return a
        if a.op == "const":
            if is_float(a.dt) and not math.isfinite(float(a.val)):
                raise Unsupported("non-finite constant in real spec")
            return const(Fraction(float(a.val)) if is_float(a.dt) else Fraction(int(a.val)), "real")
        if a.dt == "bool":
            return ite(a, const(Fraction(1), "real"), const(Fraction(0), "real"))
        return mk("toreal", (a,), "real")
    if isinstance(a, (float, np.floating)):
        return const(Fraction(float(a)), "real")
    if isinstance(a, Fraction):
        return const(a, "real")
    return const(Fraction(int(a)), "real")


# ---------------------------------------------------------------- casts
def cast(n, dt):
    n = n if isinstance(n, Node) else const(n)
    if n.dt == dt:
        return n
    if dt == "real":
        return to_real(n)
    if n.dt == "real":
        raise Unsupported("cast from spec real")
    if n.op == "const":
        with np.errstate(all="ignore"):
            if dt == "bool":
                return const(bool(n.val))
            if dt == "int":
                return const(int(n.val), "int")
            if is_float(dt):
                return const(n.val if not isinstance(n.val, bool) else float(n.val), dt)
            if is_float(n.dt):
                f = float(n.val)
                if not math.isfinite(f):
                    return const(0, dt)
                return const(int(f), dt)
            return const(int(n.val), dt)
    if dt == "bool":
        return compare("ne", n, const(0, n.dt))
    if n.dt == "bool":
        return _from_cases([(const(1, dt), n), (const(0, dt), lnot(n))])
    if n.id in CASES and dt != "bool":
        return _from_cases([(cast(v, dt), c) for v, c in CASES[n.id]])
    if n.op == "ite" and is_const(n.args[1]) and is_const(n.args[2]):
        return ite(n.args[0], cast(n.args[1], dt), cast(n.args[2], dt))
    if is_float(dt):
        if is_float(n.dt):
            if WIDTH[dt] > WIDTH[n.dt]:
                return mk("fext", (n,), dt)
            # rounding back an extended value is exact
            if n.op == "fext" and n.args[0].dt == dt:
                return n.args[0]
            return mk("fround", (n,), dt)
        return mk("i2f", (n,), dt)
    if is_float(n.dt):
        return mk("f2i", (n,), dt)
    # int -> int
    if dt == "int":
        # reading back what was wrapped from an in-range unbounded int
        return mk("toint", (n,), "int")
    if n.op == "iconv" and WIDTH[dt] <= WIDTH[n.dt] and n.args[0].dt == dt:
        # narrow back to original width: exact
        return n.args[0]
    if n.op == "toint" and n.args[0].dt == dt:
        return n.args[0]
    return mk("iconv", (n,), dt)


def py_scalar(n):
    """.item(): python scalar"""
    if n.op == "const":
        if n.dt == "bool":
            return bool(n.val)
        return float(n.val) if is_float(n.dt) else int(n.val)
    if is_float(n.dt):
        return cast(n, "f64")
    if is_int(n.dt):
        return cast(n, "int")
    return n


# ---------------------------------------------------------------- operators
_PYF = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
}


def fold2(op, a, b, dt):
    x, y = a.val, b.val
    if dt == "real":
        if op in _PYF:
            return const(_PYF[op](x, y), "real")
        if op == "div":
            if y == 0:
                return None
            return const(x / y, "real")
        if op == "min":
            return const(min(x, y), "real")
        if op == "max":
            return const(max(x, y), "real")
        return None
    if is_float(dt):
        t = NP[dt]
        x, y = t(x), t(y)
        with np.errstate(all="ignore"):
            f = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
                 "min": np.minimum, "max": np.maximum, "mod": np.mod, "pow": np.power,
                 "fdiv": np.floor_divide, "atan2": np.arctan2}.get(op)
            return None if f is None else const(f(x, y), dt)
    x, y = int(x), int(y)
    if op in _PYF:
        r = _PYF[op](x, y)
    elif op == "fdiv":
        if y == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        r = x // y
    elif op == "mod":
        if y == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        r = x % y
    elif op == "shl":
        w = WIDTH.get(dt)
        r = 0 if (w is not None and y >= w) else x << y
    elif op == "shr":
        r = x >> y
    elif op == "and":
        r = x & y
    elif op == "or":
        r = x | y
    elif op == "xor":
        r = x ^ y
    elif op == "min":
        r = min(x, y)
    elif op == "max":
        r = max(x, y)
    else:
        return None
    return const(r, dt)


COMM = ("add", "mul", "and", "or", "xor", "min", "max")


def _isarr(o):
    return isinstance(o, np.ndarray) or hasattr(o, "_sx_tensor")


def binop(op, a, b):
    for o in (a, b):
        if _isarr(o):
            return NotImplemented
        if not isinstance(o, (Node, bool, int, float, np.generic, Fraction)):
            return NotImplemented
    an = a.dt if isinstance(a, Node) else None
    bn = b.dt if isinstance(b, Node) else None
    if op in ("and", "or", "xor") and (an == "bool" or isinstance(a, (bool, np.bool_))) and (
            bn == "bool" or isinstance(b, (bool, np.bool_))):
        a, b = const(a), const(b)
        if op == "and":
            return land(a, b)
        if op == "or":
            return lor(a, b)
        return lnot(mk_eqb(a, b))
    na, nb, dt = promote(a, b)
    if op in ("shl", "shr") and State.numba:
        pass
    if op == "div" and not is_float(dt) and dt != "real":
        dt = "f64"
        na, nb = cast(na, dt), cast(nb, dt)
    if dt == "bool":
        dt = "i64"
        na, nb = cast(na, dt), cast(nb, dt)
    return arith(op, na, nb, dt)


def arith(op, a, b, dt):
    if a.op == "const" and b.op == "const":
        r = fold2(op, a, b, dt)
        if r is not None:
            return r
    elif (a.id in CASES or b.id in CASES) and dt != "real" and op not in ("shl", "shr", "and", "or", "xor"):   # (bit fields keep their shape)
        r = _combine_cases(op, a, b, dt)
        if r is not None:
            return r
    if op in COMM and a.op == "const" and b.op != "const":
        a, b = b, a
    bc = b.val if b.op == "const" else None
    ac = a.val if a.op == "const" else None
    if op in ("min", "max"):
        if a is b:
            return a
        # min(min(x,y),y) = min(x,y)
        if a.op == op and (b is a.args[0] or b is a.args[1]):
            return a
        if b.op == op and (a is b.args[0] or a is b.args[1]):
            return b
        if a.id > b.id and b.op != "const":
            a, b = b, a
        return mk(op, (a, b), dt)
    if dt == "real":
        if bc is not None:
            if op in ("add", "sub") and bc == 0:
                return a
            if op in ("mul", "div") and bc == 1:
                return a
            if op == "mul" and bc == 0:
                return b
    elif is_float(dt):
        if bc is not None and op in ("mul", "div") and float(bc) == 1.0:
            return a
        if bc is not None and op == "sub" and float(bc) == 0.0 and not np.signbit(bc):
            return a
    else:
        if bc is not None:
            if bc == 0 and op in ("add", "sub", "shl", "shr", "or", "xor"):
                return a
            if bc == 1 and op in ("mul", "fdiv"):
                return a
            if bc == 0 and op in ("mul", "and"):
                return b
        if op in ("and", "or") and a is b:
            return a
        if op == "sub" and a is b:
            return const(0, dt)
    if op in COMM and b.op != "const" and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), dt)


def unop(op, a):
    dt = a.dt
    if dt == "bool" and op != "abs":
        a = cast(a, "i64")
        dt = "i64"
    if a.op == "const":
        if dt == "real":
            if op == "neg":
                return const(-a.val, "real")
            if op == "abs":
                return const(abs(a.val), "real")
        elif is_float(dt):
            x = NP[dt](a.val)
            with np.errstate(all="ignore"):
                f = {"neg": np.negative, "abs": np.abs}.get(op)
                return const(f(x), dt)
        else:
            x = int(a.val)
            return const({"neg": -x, "abs": abs(x), "inv": ~x}[op], dt)
    if op == "neg" and a.op == "neg":
        return a.args[0]
    if op == "abs" and a.op in ("abs", "neg"):
        return unop("abs", a.args[0])
    return mk(op, (a,), dt)


FUNCS = {
    "sqrt": np.sqrt, "exp": np.exp, "log": np.log, "floor": np.floor, "ceil": np.ceil,
    "rint": np.rint, "log1p": np.log1p, "expm1": np.expm1, "trunc": np.trunc, "log2": np.log2,
    "sign": np.sign, "exp2": np.exp2, "log10": np.log10, "sin": np.sin, "cos": np.cos, "tanh": np.tanh,
}


def func(op, a):
    a = const(a)
    if a.dt == "real":
        return mk(op, (a,), "real")
    if not is_float(a.dt):
        if op in ("floor", "ceil", "rint", "trunc") and not State.numba:
            return a
        a = cast(a, "f64")
    if a.op == "const":
        with np.errstate(all="ignore"):
            return const(FUNCS[op](NP[a.dt](a.val)), a.dt)
    return mk(op, (a,), a.dt)


def power(a, b):
    bb = b.val if isinstance(b, Node) and b.op == "const" else b
    if isinstance(a, Node) and not isinstance(bb, Node) and bb == 2:
        return a * a
    if isinstance(a, Node) and not isinstance(bb, Node) and bb == 0.5:
        return func("sqrt", a)
    na, nb, dt = promote(a, b)
    if is_float(dt) and na.op != "const" and nb.op == "const" and float(nb.val) in (1.0, -1.0):
        return na if float(nb.val) == 1 else arith("div", const(1, dt), na, dt)
    return arith("pow", na, nb, dt)


def mk_eqb(a, b):
    if a is b:
        return const(True)
    if a.op == "const":
        return b if a.val else lnot(b)
    if b.op == "const":
        return a if b.val else lnot(a)
    if a.id > b.id:
        a, b = b, a
    return mk("iff", (a, b), "bool")


def compare(op, a, b):
    for o in (a, b):
        if _isarr(o):
            return NotImplemented
        if not isinstance(o, (Node, bool, int, float, np.generic, Fraction)):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
    if op == "gt":
        return compare("lt", b, a)
    if op == "ge":
        return compare("le", b, a)
    if op == "ne":
        return lnot(compare("eq", a, b))
    an = a.dt if isinstance(a, Node) else None
    bn = b.dt if isinstance(b, Node) else None
    if op == "eq" and (an == "bool" or isinstance(a, (bool, np.bool_))) and (
            bn == "bool" or isinstance(b, (bool, np.bool_))):
        return mk_eqb(const(a), const(b))
    # comparisons of integers: compare values exactly (no wrap through promotion)
    if not State.numba and an != "real" and bn != "real":
        ia = (an is not None and is_int(an)) or (an is None and isinstance(a, (int, np.integer)))
        ib = (bn is not None and is_int(bn)) or (bn is None and isinstance(b, (int, np.integer)))
        if ia and ib and (an != bn):
            na, nb = cast(const(a), "int"), cast(const(b), "int")
            return cmp_nodes(op, na, nb)
    na, nb, dt = promote(a, b)
    return cmp_nodes(op, na, nb)


def cmp_nodes(op, na, nb):
    if na.op == "const" and nb.op == "const":
        x, y = na.val, nb.val
        return const(bool({"lt": x < y, "le": x <= y, "eq": x == y}[op]))
    if na is nb and not is_float(na.dt):
        return const(op != "lt")
    # numbers counted from truth values: the values that satisfy the comparison
    for s, o, flip in ((na, nb, False), (nb, na, True)):
        if o.op == "const" and s.id in CASES:
            yes, no = [], []
            for v, c in CASES[s.id]:
                x, y = (o.val, v.val) if flip else (v.val, o.val)
                (yes if {"lt": x < y, "le": x <= y, "eq": x == y}[op] else no).append(c)
            return _simp(lor(*yes) if len(yes) <= len(no) else lnot(lor(*no)))
    # push through ite with constant branches
    for s, o, flip in ((na, nb, False), (nb, na, True)):
        if s.op == "ite" and o.op == "const" and (s.args[1].op == "const" or s.args[2].op == "const"):
            f = (lambda t: cmp_nodes(op, o, t)) if flip else (lambda t: cmp_nodes(op, t, o))
            return ite(s.args[0], f(s.args[1]), f(s.args[2]))
    if op == "eq":
        if na.id > nb.id:
            na, nb = nb, na
        return mk("eqv", (na, nb), "bool")
    return mk(op, (na, nb), "bool")


def eqbits(a, b):
    """bit-exact equality of two scalars of the same dtype"""
    a, b = const(a), const(b)
    if a.dt != b.dt:
        return const(False)
    if a is b:
        return const(True)
    if a.dt == "bool":
        return mk_eqb(a, b)
    if a.op == "const" and b.op == "const":
        return const(False) if is_float(a.dt) else const(a.val == b.val)
    if a.id > b.id:
        a, b = b, a
    return mk("eqbits", (a, b), "bool")


def lnot(a):
    if not isinstance(a, Node):
        return const(not a)
    if a.dt != "bool":
        a = compare("ne", a, 0)
    if a.op == "const":
        return const(not a.val)
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "bool")


def land(*xs):
    out = []
    seen = set()
    for x in xs:
        x = const(x)
        if x.dt != "bool":
            x = cast(x, "bool")
        if x.op == "const":
            if not x.val:
                return const(False)
            continue
        if x.op == "land":
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return const(False)
    if not out:
        return const(True)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return mk("land", out, "bool")


def lor(*xs):
    return lnot(land(*[lnot(x) for x in xs]))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    c = const(c)
    if c.dt != "bool":
        c = cast(c, "bool")
    if c.op == "const":
        return a if c.val else b
    if a is b:
        return a
    a0, b0 = a, b
    if not isinstance(a, Node) or not isinstance(b, Node) or a.dt != b.dt:
        na, nb, dt = _unify(a, b)
    else:
        na, nb, dt = a, b, a.dt
    if na is nb:
        return na
    if c.op == "not":
        return ite(c.args[0], nb, na)
    if c.op == "land":
        c = _simp(c)
        if c.op != "land":
            return ite(c, na, nb)
    if dt == "bool":
        if na.op == "const":
            return lor(c, nb) if na.val else land(lnot(c), nb)
        if nb.op == "const":
            return lor(lnot(c), na) if nb.val else land(c, na)
    if is_int(dt) or dt == "int":
        ca, cb = _cases(na), _cases(nb)
        if ca is not None and cb is not None and len(ca) + len(cb) <= 12 and len({v.id for v, _ in ca + cb}) <= 8:
            return _from_cases([(v, land(c, e)) for v, e in ca] + [(v, land(lnot(c), e)) for v, e in cb])
    # arms of nested choices that this condition rules out
    if na.op == "ite":
        na = _prune(na, c, True)
    if nb.op == "ite":
        nb = _prune(nb, c, False)
    if na is nb:
        return na
    # canonical min/max
    if is_float(dt) or dt == "real":
        r = _minmax(c, na, nb, dt)
        if r is not None:
            return r
    return mk("ite", (c, na, nb), dt)


_ATOM_MAX = 8
_atoms_memo = {}


def _atoms(c):
    """ids of the atomic conditions a boolean node is built from (None: too many)"""
    r = _atoms_memo.get(c.id, 0)
    if r != 0:
        return r
    if c.op == "const":
        r = frozenset()
    elif c.op in ("not", "land", "iff") or c.op == "ite":
        r = frozenset()
        for a in c.args:
            s = _atoms(a)
            if s is None:
                r = None
                break
            r = r | s
        if r is not None and len(r) > _ATOM_MAX:
            r = None
    else:
        r = frozenset((c.id,))
    _atoms_memo[c.id] = r
    return r


def _order(atoms):
    ids = sorted(atoms)
    size = 1 << len(ids)
    order = {}
    for k, i in enumerate(ids):
        b = ((1 << (1 << k)) - 1) << (1 << k)
        t = 0
        for j in range(0, size, 1 << (k + 1)):
            t |= b << j
        order[i] = t
    return order, (1 << size) - 1


_simp_memo = {}


def _simp(c):
    """a small combination of conditions as a constant, one conjunction or one disjunction of its atoms when it is one"""
    if c.op not in ("land", "not", "ite", "iff") or c.op == "not" and c.args[0].op != "land" and c.args[0].op != "ite":
        return c
    r = _simp_memo.get(c.id)
    if r is not None:
        return r
    r = c
    a = _atoms(c)
    if a and len(a) <= 6:
        order, full = _order(a)
        t = _truth(c, order, full)
        if t == 0 or t == full:
            r = const(t == full)
        else:
            nodes = {}
            stack = [c]
            while stack:
                m = stack.pop()
                if m.id in order:
                    nodes[m.id] = m
                else:
                    stack += m.args
            for pol in (True, False):
                tt = t if pol else full & ~t
                lits, cube = [], full
                for i, ti in order.items():
                    if not tt & ~ti:
                        lits.append(nodes[i])
                        cube &= ti
                    elif not tt & ti:
                        lits.append(lnot(nodes[i]))
                        cube &= ~ti
                if cube == tt:
                    r = land(*lits) if pol else lnot(land(*lits))
                    break
    _simp_memo[c.id] = r
    return r


def _truth(c, order, full):
    """truth table (bit mask over the assignments of the ordered atoms)"""
    i = order.get(c.id)
    if i is not None:
        return i
    if c.op == "const":
        return full if c.val else 0
    if c.op == "not":
        return full & ~_truth(c.args[0], order, full)
    if c.op == "land":
        r = full
        for a in c.args:
            r &= _truth(a, order, full)
        return r
    x = [_truth(a, order, full) for a in c.args]
    if c.op == "iff":
        return full & ~(x[0] ^ x[1])
    return (x[0] & x[1]) | (full & ~x[0] & x[2])


def _prune(n, c, pol):
    """n under the assumption that c is pol: drop the arms it makes unreachable"""
    d = n.args[0]
    if d is c:
        return n.args[1] if pol else n.args[2]
    known = _atoms(c)
    ad = _atoms(d)
    if not known or not ad or not (known & ad):
        return n
    spine, m, atoms = [], n, known
    stack = [n]
    while stack and len(spine) < 16:
        m = stack.pop()
        am = _atoms(m.args[0])
        if am is None or not (am & known) or len(am | atoms) > _ATOM_MAX:
            continue
        atoms = atoms | am
        spine.append(m.id)
        stack += [x for x in m.args[1:] if x.op == "ite"]
    order, full = _order(atoms)
    reach = _truth(c, order, full)
    spine = set(spine)
    memo = {}

    def go(m, reach):
        if m.op != "ite" or m.id not in spine:
            return m
        key = (m.id, reach)
        if key in memo:
            return memo[key]
        t = _truth(m.args[0], order, full)
        yes, no = reach & t, reach & ~t
        if not yes:
            r = go(m.args[2], no)
        elif not no:
            r = go(m.args[1], yes)
        else:
            a, b = go(m.args[1], yes), go(m.args[2], no)
            r = m if a is m.args[1] and b is m.args[2] else a if a is b else mk("ite", (m.args[0], a, b), m.dt)
        memo[key] = r
        return r
    return go(n, reach if pol else full & ~reach)


def _strip(n):
    return n.args[0] if n.op == "fext" else n


def _minmax(c, a, b, dt):
    if c.op in ("lt", "le"):
        x, y = c.args
        ca, cb = _strip(a), _strip(b)
        cx, cy = _strip(x), _strip(y)
        def same(p, q):
            return p is q or (p.op == "const" and q.op == "const" and is_float(p.dt) and is_float(q.dt)
                              and float(p.val) == float(q.val))
        if same(cx, ca) and same(cy, cb):
            return arith("min", a, b, dt)
        if same(cx, cb) and same(cy, ca):
            return arith("max", a, b, dt)
    return None


def _unify(a, b):
    if isinstance(a, Node) and isinstance(b, Node) or State.numba:
        return promote(a, b)
    # merging python scalars with nodes: keep the node dtype when exact
    return promote(a, b)


def fmin(a, b):
    na, nb, dt = promote(a, b)
    return arith("min", na, nb, dt)


def fmax(a, b):
    na, nb, dt = promote(a, b)
    return arith("max", na, nb, dt)


# ---------------------------------------------------------------- bytes
def byte_of(n, k):
    if n.dt == "bool":
        n = cast(n, "u8")
    if n.op == "const":
        return const(int(NP[n.dt](n.val).tobytes()[k]), "u8")
    if WIDTH[n.dt] == 8:
        if n.dt == "u8":
            return n
        return cast(n, "u8")
    if n.op == "frombytes":
        return n.args[k]
    return mk("byte", (n,), "u8", k)


def from_bytes(bs, dt):
    bs = tuple(bs)
    if all(b.op == "const" for b in bs):
        raw = bytes(int(b.val) for b in bs)
        return const(np.frombuffer(raw, dtype=NP[dt])[0], dt)
    b0 = bs[0]
    if dt == "u8":
        return b0
    if all(b.op == "byte" and b.val == k and b.args[0] is b0.args[0] for k, b in enumerate(bs)) \
            and b0.args[0].dt == dt:
        return b0.args[0]
    return mk("frombytes", bs, dt)


# ---------------------------------------------------------------- intervals
_iv_cache: dict = {}
INF = math.inf


def interval(n):
    """conservative (lo, hi) of the value of n, in exact-ish floats with slack"""
    r = _iv_cache.get(n.id)
    if r is None:
        stack = [n]
        while stack:
            m = stack[-1]
            if m.id in _iv_cache:
                stack.pop()
                continue
            todo = [x for x in m.args if x.id not in _iv_cache]
            if todo:
                stack.extend(todo)
                continue
            _iv_cache[m.id] = _interval(m)
            stack.pop()
        r = _iv_cache[n.id]
    return r


def _slack(lo, hi, dt):
    if dt in FLOATS:
        u = float(ULP[dt]) * 8
        lo = lo - abs(lo) * u - 1e-300 if math.isfinite(lo) else lo
        hi = hi + abs(hi) * u + 1e-300 if math.isfinite(hi) else hi
    return (lo, hi)


def _rng(dt):
    if dt in UINTS:
        return (0, (1 << WIDTH[dt]) - 1)
    if dt in SINTS:
        return (-(1 << (WIDTH[dt] - 1)), (1 << (WIDTH[dt] - 1)) - 1)
    if dt == "bool":
        return (0, 1)
    return (-INF, INF)


def _mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _interval(n):
    op, dt = n.op, n.dt
    if op == "const":
        v = n.val
        if dt == "real":
            return (float(v), float(v))
        if is_float(dt):
            v = float(v)
            return (v, v) if math.isfinite(v) else (-INF, INF)
        return (int(v), int(v))
    if op == "sym":
        _, lo, hi = _sym_info[n.val]
        r = _rng(dt)
        return (r[0] if lo is None else lo, r[1] if hi is None else hi)
    A = [_iv_cache[a.id] for a in n.args]
    if is_int(dt) or dt == "bool":
        R = _rng(dt)
        r = None
        if op == "f2i":
            lo, hi = A[0]
            lo = math.trunc(lo) if math.isfinite(lo) else -INF
            hi = math.trunc(hi) if math.isfinite(hi) else INF
            r = (lo, hi)
        elif op in ("iconv", "toint"):
            r = A[0]
        elif op == "add":
            r = (A[0][0] + A[1][0], A[0][1] + A[1][1])
        elif op == "sub":
            r = (A[0][0] - A[1][1], A[0][1] - A[1][0])
        elif op == "mul":
            c = [_mul(x, y) for x in A[0] for y in A[1]]
            r = (min(c), max(c))
        elif op == "shl" and n.args[1].op == "const" and A[0][0] >= 0:
            k = int(n.args[1].val)
            r = (A[0][0] * (1 << k), A[0][1] * (1 << k))
        elif op == "shr" and n.args[1].op == "const" and A[0][0] >= 0:
            k = int(n.args[1].val)
            r = (A[0][0] >> k if A[0][0] != -INF else 0, A[0][1] >> k if A[0][1] != INF else INF)
        elif op == "and" and A[1][0] >= 0:
            r = (0, A[1][1])
        elif op == "and" and A[0][0] >= 0:
            r = (0, A[0][1])
        elif op in ("or", "xor") and A[0][0] >= 0 and A[1][0] >= 0 and A[0][1] != INF and A[1][1] != INF:
            m = max(int(A[0][1]), int(A[1][1]))
            r = (0, (1 << m.bit_length()) - 1)
        elif op == "ite":
            r = (min(A[1][0], A[2][0]), max(A[1][1], A[2][1]))
        elif op == "min":
            r = (min(A[0][0], A[1][0]), min(A[0][1], A[1][1]))
        elif op == "max":
            r = (max(A[0][0], A[1][0]), max(A[0][1], A[1][1]))
        if r is None or r[0] < R[0] or r[1] > R[1]:
            return R
        return r
    # floats / reals
    if op in ("fext", "toreal"):
        return A[0]
    if op in ("fround", "i2f"):
        return _slack(A[0][0], A[0][1], dt)
    if op == "ite":
        return (min(A[1][0], A[2][0]), max(A[1][1], A[2][1]))
    if op == "min":
        return (min(A[0][0], A[1][0]), min(A[0][1], A[1][1]))
    if op == "max":
        return (max(A[0][0], A[1][0]), max(A[0][1], A[1][1]))
    if op == "neg":
        return (-A[0][1], -A[0][0])
    if op == "abs":
        lo, hi = A[0]
        if lo >= 0:
            return (lo, hi)
        if hi <= 0:
            return (-hi, -lo)
        return (0.0, max(-lo, hi))
    r = None
    try:
        if op == "add":
            r = (A[0][0] + A[1][0], A[0][1] + A[1][1])
        elif op == "sub":
            r = (A[0][0] - A[1][1], A[0][1] - A[1][0])
        elif op == "mul":
            c = [_mul(x, y) for x in A[0] for y in A[1]]
            r = (min(c), max(c))
            if n.args[0] is n.args[1]:
                r = (max(r[0], 0.0), r[1])
        elif op == "div":
            lo, hi = A[1]
            if lo > 0 or hi < 0:
                c = [(x / y if math.isfinite(y) else 0.0) for x in A[0] for y in A[1]]
                r = (min(c), max(c))
            elif lo >= 0 and A[0][0] >= 0:
                r = (0.0, INF)
        elif op == "sqrt":
            lo, hi = max(A[0][0], 0.0), max(A[0][1], 0.0)
            r = (math.sqrt(lo), math.sqrt(hi) if math.isfinite(hi) else INF)
        elif op == "exp":
            lo, hi = A[0]
            r = (math.exp(lo) if -700 < lo < 700 else (0.0 if lo <= -700 else INF),
                 math.exp(hi) if hi < 700 else INF)
            if r[0] == INF:
                r = (0.0, INF)
        elif op == "log":
            lo, hi = A[0]
            r = (math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
        elif op == "expm1":
            lo, hi = A[0]
            r = (math.expm1(lo) if lo > -700 else -1.0, math.expm1(hi) if hi < 700 else INF)
        elif op == "log1p":
            lo, hi = A[0]
            r = (math.log1p(lo) if lo > -1 else -INF, math.log1p(hi) if -1 < hi < INF else INF)
        elif op in ("floor", "ceil", "rint", "trunc"):
            lo, hi = A[0]
            r = (math.floor(lo) if math.isfinite(lo) else lo, math.ceil(hi) if math.isfinite(hi) else hi)
        elif op == "sign":
            r = (-1.0, 1.0)
    except (OverflowError, ValueError):
        r = None
    if r is None or r[0] != r[0] or r[1] != r[1]:
        return (-INF, INF)
    if op in ("exp", "sqrt"):
        lo, hi = _slack(r[0], r[1], dt)
        return (max(lo, 0.0), hi)
    return _slack(r[0], r[1], dt)


# ---------------------------------------------------------------- evaluation
def evaluate(roots, env):
    """Concrete evaluation of nodes with numpy scalars under env: name -> value."""
    cache = {}
    out = []
    for root in roots:
        stack = [root]
        while stack:
            m = stack[-1]
            if m.id in cache:
                stack.pop()
                continue
            todo = [x for x in m.args if x.id not in cache]
            if todo:
                stack.extend(todo)
                continue
            cache[m.id] = _eval(m, [cache[a.id] for a in m.args], env)
            stack.pop()
        out.append(cache[root.id])
    return out


def _wrap(v, dt):
    if dt == "int":
        return int(v)
    w = WIDTH[dt]
    v = int(v) & ((1 << w) - 1)
    if dt in SINTS and v >> (w - 1):
        v -= 1 << w
    return v


def _eval(n, A, env):
    op, dt = n.op, n.dt
    if op == "const":
        return n.val
    if op == "sym":
        v = env[n.val]
        if is_float(dt):
            return NP[dt](v)
        return v
    with np.errstate(all="ignore"):
        if op == "ite":
            return A[1] if A[0] else A[2]
        if op == "land":
            return all(bool(x) for x in A)
        if op == "not":
            return not A[0]
        if op == "iff":
            return bool(A[0]) == bool(A[1])
        if op in ("lt", "le", "eqv"):
            return bool({"lt": A[0] < A[1], "le": A[0] <= A[1], "eqv": A[0] == A[1]}[op])
        if op == "eqbits":
            if is_float(n.args[0].dt):
                return NP[n.args[0].dt](A[0]).tobytes() == NP[n.args[0].dt](A[1]).tobytes()
            return A[0] == A[1]
        if op == "byte":
            return int(NP[n.args[0].dt](A[0]).tobytes()[n.val])
        if op == "frombytes":
            v = np.frombuffer(bytes(int(x) for x in A), dtype=NP[dt])[0]
            return v if is_float(dt) else int(v)
        if op == "toreal":
            if is_float(n.args[0].dt):
                return Fraction(float(A[0]))
            return Fraction(int(A[0]))
        if op == "uf":
            raise Unsupported("uf eval")
        if dt == "real":
            if op == "neg":
                return -A[0]
            if op == "abs":
                return abs(A[0])
            if op in ("exp", "log", "sqrt"):
                return Fraction(getattr(math, op)(float(A[0])))
            if op == "add":
                return A[0] + A[1]
            if op == "sub":
                return A[0] - A[1]
            if op == "mul":
                return A[0] * A[1]
            if op == "div":
                return A[0] / A[1]
            if op == "min":
                return min(A)
            if op == "max":
                return max(A)
            raise Unsupported(op)
        if is_float(dt):
            t = NP[dt]
            if op in ("fext", "fround", "i2f"):
                return t(A[0])
            x = t(A[0])
            if op == "neg":
                return -x
            if op == "abs":
                return abs(x)
            if op in FUNCS:
                return FUNCS[op](x)
            y = t(A[1])
            return {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide,
                    "min": np.minimum, "max": np.maximum, "mod": np.mod, "pow": np.power,
                    "fdiv": np.floor_divide, "atan2": np.arctan2}[op](x, y)
        if op == "f2i":
            f = float(A[0])
            return _wrap(math.trunc(f), dt) if math.isfinite(f) else 0
        if op in ("iconv", "toint"):
            return _wrap(A[0], dt)
        x = int(A[0])
        if op == "neg":
            return _wrap(-x, dt)
        if op == "abs":
            return _wrap(abs(x), dt)
        if op == "inv":
            return _wrap(~x, dt)
        y = int(A[1])
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
             "fdiv": lambda: x // y if y else 0, "mod": lambda: x % y if y else 0,
             "shl": lambda: x << min(y, 64), "shr": lambda: x >> min(y, 64), "and": lambda: x & y,
             "or": lambda: x | y, "xor": lambda: x ^ y,
             "min": lambda: min(x, y), "max": lambda: max(x, y)}[op]()
        return _wrap(r, dt)


def show(n, d=4):
    if n.op == "const":
        return f"{n.val}"
    if n.op == "sym":
        return n.val
    if d == 0:
        return "..."
    return f"{n.op}({', '.join(show(a, d - 1) for a in n.args)})"


def walk(roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)
