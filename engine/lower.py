"""Lowering of the IR to z3.

Modes
 'uf'   floats are bit-vectors, float arithmetic is uninterpreted, comparisons,
        negation, abs, min/max, casts to/from bytes are exact.
 'fp'   floats are IEEE values (z3 FP theory, round-nearest-even); exp/log/pow
        are uninterpreted.
 'real' floats are reals, every rounding step gets a fresh error variable with
        the IEEE relative+absolute error bound (this also covers fastmath
        contraction and re-association up to the stated slack); exp/log are
        uninterpreted with monotonicity/inverse axioms; fixed-width ints are
        mathematical integers with wrap-free side conditions.
"""
from __future__ import annotations

import math
from fractions import Fraction

import mpmath
import z3

from . import ir
from .ir import FLOATS, UINTS, SINTS, WIDTH, Unsupported, interval, is_float

FPS = {"f16": z3.Float16(), "f32": z3.Float32(), "f64": z3.Float64()}
RNE = z3.RNE()
TRANS_ULP = 4  # assumed accuracy of exp/log library calls, in units of 2u


class Lowerer:
    def __init__(self, mode="uf", int_relax=True):
        self.mode = mode
        self.cache = {}
        self.fpc = {}
        self.side = {}
        self.nfresh = 0
        self.ufs = {}
        self.trans = []       # (op, arg expr, result expr) for axioms
        self.lemmas = []      # tangents and secants of exp/log learnt from models
        self.points = {}      # (op, id of argument) -> sorted points with lemmas
        self.int_relax = int_relax
        # 'exact': reals without rounding errors (decides identities the error terms make too hard)
        self.noround = mode == "exact"
        self.poly = None
        if mode == "exact":
            self.mode = "real"
            self.poly = Polys(self)
        self.assumptions_used = set()

    # ------------------------------------------------------------------ public
    def lower(self, roots):
        """z3 booleans for roots and the side constraints needed"""
        res = [self.expr(r) for r in roots]
        cons = []
        for n in ir.walk(roots):
            cons.extend(self.side.get(n.id, ()))
        return res, cons

    def expr(self, n):
        if n.id in self.cache:
            return self.cache[n.id]
        stack = [n]
        while stack:
            m = stack[-1]
            if m.id in self.cache:
                stack.pop()
                continue
            todo = [x for x in m.args if x.id not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            self.cache[m.id] = self._expr(m)
            stack.pop()
        return self.cache[n.id]

    def fresh(self, sort, p):
        self.nfresh += 1
        return z3.Const(f"{p}!{self.nfresh}", sort)

    def uf(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function("_".join(key).replace(" ", ""), *sorts)
            self.ufs[key] = f
        return f

    def sort(self, dt):
        if dt == "bool":
            return z3.BoolSort()
        if dt == "int":
            return z3.IntSort()
        if dt == "real":
            return z3.RealSort()
        if self.mode == "real":
            return z3.RealSort() if is_float(dt) else z3.IntSort()
        return z3.BitVecSort(WIDTH[dt])

    # ------------------------------------------------------------------ common
    def _expr(self, n):
        op, dt = n.op, n.dt
        if op == "const":
            return self._const(n)
        if op == "sym":
            return self._sym(n)
        A = [self.cache[a.id] for a in n.args]
        if dt == "bool":
            r = self._bool(n, A)
            if r is not None:
                return r
        if op == "ite":
            return z3.If(A[0], A[1], A[2])
        if dt == "int" or (dt in WIDTH and not is_float(dt) and self.mode == "real"):
            return self._int(n, A)
        if dt == "real":
            return self._real(n, A)
        if self.mode == "real":
            return self._rfloat(n, A)
        if is_float(dt):
            return self._float(n, A)
        return self._bv(n, A)

    def _const(self, n):
        dt, v = n.dt, n.val
        if dt == "bool":
            return z3.BoolVal(bool(v))
        if dt == "int":
            return z3.IntVal(int(v))
        if dt == "real":
            return z3.RealVal(str(v)) if isinstance(v, Fraction) else z3.RealVal(v)
        if self.mode == "real":
            if is_float(dt):
                f = float(v)
                if not math.isfinite(f):
                    raise Unsupported("non-finite constant in real lowering")
                return z3.RealVal(str(Fraction(f)))
            return z3.IntVal(int(v))
        if is_float(dt):
            import numpy as np
            bits = int(ir.NP[dt](v).view({"f16": np.uint16, "f32": np.uint32, "f64": np.uint64}[dt]))
            return z3.BitVecVal(bits, WIDTH[dt])
        return z3.BitVecVal(int(v), WIDTH[dt])

    def _sym(self, n):
        dt = n.dt
        e = z3.Const(n.val, self.sort(dt))
        _, lo, hi = ir._sym_info[n.val]
        s = []
        if dt == "bool":
            return e
        if self.mode == "real" or dt in ("int", "real"):
            r = ir._rng(dt)
            lo2 = lo if lo is not None else (r[0] if r[0] != -math.inf else None)
            hi2 = hi if hi is not None else (r[1] if r[1] != math.inf else None)
            if is_float(dt):
                if lo2 is None:
                    lo2 = -ir.FMAX[dt]
                if hi2 is None:
                    hi2 = ir.FMAX[dt]
            conv = (lambda v: z3.RealVal(str(Fraction(v)))) if e.sort() == z3.RealSort() else (lambda v: z3.IntVal(int(v)))
            if lo2 is not None:
                s.append(e >= conv(lo2))
            if hi2 is not None:
                s.append(e <= conv(hi2))
        elif is_float(dt):
            if lo is not None or hi is not None:
                f = z3.fpBVToFP(e, FPS[dt])
                if lo is not None:
                    s.append(z3.fpGEQ(f, z3.FPVal(lo, FPS[dt])))
                if hi is not None:
                    s.append(z3.fpLEQ(f, z3.FPVal(hi, FPS[dt])))
        else:
            sg = dt in SINTS
            if lo is not None:
                s.append(e >= lo if sg else z3.UGE(e, lo))
            if hi is not None:
                s.append(e <= hi if sg else z3.ULE(e, hi))
        if s:
            self.side[n.id] = s
        return e

    def _bool(self, n, A):
        op = n.op
        if op == "not":
            return z3.Not(A[0])
        if op == "land":
            return z3.And(*A)
        if op == "iff":
            return A[0] == A[1]
        if op == "uf":
            f = self.uf(n.val, *([a.sort() for a in A] + [z3.BoolSort()]))
            return f(*A)
        if op in ("lt", "le", "eqv", "eqbits"):
            t = n.args[0].dt
            if t in ("int", "real") or self.mode == "real":
                x, y = self._same(A[0], A[1])
                return {"lt": x < y, "le": x <= y}.get(op, None) if op in ("lt", "le") else x == y
            if is_float(t):
                if op == "eqbits":
                    if self._native(n.args[0]) and self._native(n.args[1]):
                        return A[0] == A[1]
                    return self.fp(n.args[0]) == self.fp(n.args[1])
                x, y = self.fp(n.args[0]), self.fp(n.args[1])
                return {"lt": z3.fpLT, "le": z3.fpLEQ, "eqv": z3.fpEQ}[op](x, y)
            if op in ("eqv", "eqbits"):
                return A[0] == A[1]
            if t in UINTS:
                return z3.ULT(A[0], A[1]) if op == "lt" else z3.ULE(A[0], A[1])
            return A[0] < A[1] if op == "lt" else A[0] <= A[1]
        return None

    @staticmethod
    def _same(x, y):
        if x.sort() == y.sort():
            return x, y
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        if y.sort() == z3.IntSort():
            y = z3.ToReal(y)
        return x, y

    def _native(self, n):
        return n.op in ("sym", "const", "frombytes", "ite", "uf") or self.mode == "uf"

    # ------------------------------------------------------------------ fp/uf floats (as bit-vectors)
    def fp(self, n):
        f = self.fpc.get(n.id)
        if f is None:
            e = self.expr(n)
            f = self.fpc.get(n.id)
            if f is None:
                f = z3.fpBVToFP(e, FPS[n.dt])
                self.fpc[n.id] = f
        return f

    def _setfp(self, n, f):
        self.fpc[n.id] = f
        return z3.fpToIEEEBV(f)

    def _float(self, n, A):
        op, dt = n.op, n.dt
        w = WIDTH[dt]
        if op == "neg":
            return A[0] ^ z3.BitVecVal(1 << (w - 1), w)
        if op == "abs":
            return A[0] & z3.BitVecVal((1 << (w - 1)) - 1, w)
        if op == "frombytes":
            return z3.Concat(*reversed(A)) if len(A) > 1 else A[0]
        if op in ("min", "max"):
            x, y = self.fp(n.args[0]), self.fp(n.args[1])
            c = z3.fpLEQ(x, y)
            return z3.If(c, A[0], A[1]) if op == "min" else z3.If(c, A[1], A[0])
        if op == "uf" or self.mode == "uf":
            f = self.uf(op + (str(n.val) if n.val is not None else "") + "_" + dt + "_".join(a.dt for a in n.args),
                        *([a.sort() for a in A] + [z3.BitVecSort(w)]))
            return f(*A)
        S = FPS[dt]
        if op in ("add", "sub", "mul", "div"):
            x, y = self.fp(n.args[0]), self.fp(n.args[1])
            return self._setfp(n, {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[op](RNE, x, y))
        if op == "sqrt":
            return self._setfp(n, z3.fpSqrt(RNE, self.fp(n.args[0])))
        if op in ("floor", "ceil", "rint", "trunc"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "rint": RNE, "trunc": z3.RTZ()}[op]
            return self._setfp(n, z3.fpRoundToIntegral(rm, self.fp(n.args[0])))
        if op in ("fext", "fround"):
            return self._setfp(n, z3.fpFPToFP(RNE, self.fp(n.args[0]), S))
        if op == "i2f":
            a = n.args[0]
            if a.dt == "int":
                return self._setfp(n, z3.fpRealToFP(RNE, z3.ToReal(A[0]), S))
            if a.dt in UINTS:
                return self._setfp(n, z3.fpToFPUnsigned(RNE, A[0], S))
            return self._setfp(n, z3.fpSignedToFP(RNE, A[0], S))
        if op in ("exp", "log", "log1p", "expm1", "pow", "tanh", "atan2", "sign", "mod", "fdiv", "sin", "cos", "exp2", "log2", "log10"):
            f = self.uf(op + "_" + dt, *([a.sort() for a in A] + [z3.BitVecSort(w)]))
            return f(*A)
        raise Unsupported(f"fp lowering of {op}:{dt}")

    # ------------------------------------------------------------------ bit-vectors
    def _bv(self, n, A):
        op, dt = n.op, n.dt
        w = WIDTH[dt]
        sg = dt in SINTS
        if op == "byte":
            k = n.val
            return z3.Extract(8 * k + 7, 8 * k, A[0])
        if op == "frombytes":
            return z3.Concat(*reversed(A)) if len(A) > 1 else A[0]
        if op == "f2i":
            if self.mode == "uf":
                f = self.uf(f"f2i_{n.args[0].dt}_{dt}", A[0].sort(), z3.BitVecSort(w))
                return f(A[0])
            x = self.fp(n.args[0])
            # go through 64 bits: matches C conversion then truncation
            lo, hi = interval(n.args[0])
            if lo >= 0:
                if hi < 2 ** w:
                    return z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(w))
                r = z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(64))
            else:
                r = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(64))
            return z3.Extract(w - 1, 0, r) if w < 64 else r
        if op == "iconv":
            a = n.args[0]
            if a.dt == "int":
                return z3.Int2BV(A[0], w)
            wa = WIDTH[a.dt]
            if w <= wa:
                return z3.Extract(w - 1, 0, A[0]) if w < wa else A[0]
            return z3.SignExt(w - wa, A[0]) if a.dt in SINTS else z3.ZeroExt(w - wa, A[0])
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            x, y = A
            return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                    "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
        if op == "shl":
            return A[0] << A[1]
        if op == "shr":
            return A[0] >> A[1] if sg else z3.LShR(A[0], A[1])
        if op == "neg":
            return -A[0]
        if op == "inv":
            return ~A[0]
        if op == "abs":
            return z3.If(A[0] < 0, -A[0], A[0])
        if op in ("min", "max"):
            c = (A[0] <= A[1]) if sg else z3.ULE(A[0], A[1])
            return z3.If(c, A[0], A[1]) if op == "min" else z3.If(c, A[1], A[0])
        if op in ("fdiv", "mod") and not sg:
            return z3.UDiv(A[0], A[1]) if op == "fdiv" else z3.URem(A[0], A[1])
        if op in ("fdiv", "mod"):
            lo, hi = interval(n.args[0])
            lo2, hi2 = interval(n.args[1])
            if lo >= 0 and lo2 > 0:
                return z3.UDiv(A[0], A[1]) if op == "fdiv" else z3.URem(A[0], A[1])
        raise Unsupported(f"bv lowering of {op}:{dt}")

    # ------------------------------------------------------------------ ints
    def _int(self, n, A):
        op, dt = n.op, n.dt
        if op == "toint":
            a = n.args[0]
            if A[0].sort() == z3.IntSort() or A[0].sort() == z3.RealSort():
                return A[0]
            return z3.BV2Int(A[0], a.dt in SINTS)
        if op == "iconv" and A[0].sort() in (z3.IntSort(), z3.RealSort()):
            lo, hi = interval(n.args[0])
            r = ir._rng(dt)
            if lo >= r[0] and hi <= r[1]:
                return A[0]
            return self._wrapint(A[0], dt, (lo, hi))
        if dt != "int" and op in ("shl", "shr", "and", "or", "byte", "frombytes"):
            try:
                return self._bits(n)
            except Unsupported:
                if op not in ("or", "and") or not all(interval(a)[0] >= 0 for a in n.args):
                    raise
                # overlapping fields: only bounds of the result are known
                x, y = A
                v = self.fresh(z3.RealSort() if z3.RealSort() in (x.sort(), y.sort()) else z3.IntSort(), "or")
                if op == "or":
                    self.side[n.id] = [v >= x, v >= y, v <= x + y]
                else:
                    self.side[n.id] = [v >= 0, v <= x, v <= y]
                return v
        R = None
        if op == "f2i":
            x = A[0]
            lo, hi = interval(n.args[0])
            s = []
            v = self.fresh(z3.RealSort() if self.int_relax else z3.IntSort(), "q")
            rv = v if self.int_relax else z3.ToReal(v)
            if lo >= 0:
                s += [rv <= x, x < rv + 1, rv >= 0]
            else:
                s += [z3.Implies(x >= 0, z3.And(rv <= x, x < rv + 1, rv >= 0)),
                      z3.Implies(x < 0, z3.And(rv >= x, rv - 1 < x, rv <= 0))]
            r = ir._rng(dt)
            if lo < r[0] or (hi >= r[1] + 1):
                # out-of-range conversion is unspecified: leave unconstrained
                inr = z3.And(x > r[0] - 1, x < r[1] + 1)
                s = [z3.Implies(inr, z3.And(*s)), rv >= r[0], rv <= r[1]]
            iv = interval(n)
            if math.isfinite(iv[1]):
                s += [rv <= int(iv[1]), rv >= int(iv[0])]
            self.side[n.id] = s
            return v
        x = A[0]
        y = A[1] if len(A) > 1 else None
        if op == "add":
            R = x + y
        elif op == "sub":
            R = x - y
        elif op == "mul":
            R = x * y
        elif op == "neg":
            R = -x
        elif op == "abs":
            R = z3.If(x < 0, -x, x)
        elif op == "min":
            R = z3.If(x <= y, x, y)
        elif op == "max":
            R = z3.If(x <= y, y, x)
        elif op in ("fdiv", "mod"):
            b = n.args[1]
            if x.sort() != z3.IntSort() or y.sort() != z3.IntSort():
                raise Unsupported("real div in int")
            if b.op == "const" and int(b.val) > 0:
                R = x / y if op == "fdiv" else x % y
            else:
                # python floor semantics for any sign of the divisor
                q = z3.If(y > 0, x / y, (-x) / (-y))
                R = q if op == "fdiv" else x - y * q
        elif op == "shr" and n.args[1].op == "const":
            R = x / z3.IntVal(1 << int(n.args[1].val))
        elif op == "shl" and n.args[1].op == "const":
            R = x * z3.IntVal(1 << int(n.args[1].val))
        elif op == "and" and n.args[1].op == "const" and int(n.args[1].val) + 1 & int(n.args[1].val) == 0:
            R = x % z3.IntVal(int(n.args[1].val) + 1)
        if R is None:
            raise Unsupported(f"int lowering of {op}:{dt}")
        if dt != "int":
            lo, hi = self._plainiv(n)
            r = ir._rng(dt)
            if lo < r[0] or hi > r[1]:
                R = self._wrapint(R, dt)
        return R

    def _plainiv(self, n):
        A = [interval(a) for a in n.args]
        if n.op == "add":
            return A[0][0] + A[1][0], A[0][1] + A[1][1]
        if n.op == "sub":
            return A[0][0] - A[1][1], A[0][1] - A[1][0]
        if n.op == "mul":
            c = [ir._mul(x, y) for x in A[0] for y in A[1]]
            return min(c), max(c)
        if n.op == "neg":
            return -A[0][1], -A[0][0]
        return interval(n)

    def _wrapint(self, R, dt, span=None):
        w = WIDTH[dt]
        if R.sort() == z3.RealSort():
            lo, hi = ir._rng(dt)
            if span is None or span[0] < lo - (1 << w) or span[1] > hi + (1 << w):
                raise Unsupported("wrap of relaxed integer")
            return z3.If(R < lo, R + (1 << w), z3.If(R > hi, R - (1 << w), R))
        m = R % z3.IntVal(1 << w)
        if dt in SINTS:
            m = z3.If(m >= (1 << (w - 1)), m - (1 << w), m)
        return m

    # bit provenance
    def sources(self, n):
        """list of (leaf,k) / 0 / 1 for every bit of n, least significant first"""
        w = WIDTH[n.dt] if n.dt != "int" else 64
        if n.op == "const":
            v = int(n.val) & ((1 << w) - 1)
            return [(v >> k) & 1 for k in range(w)]
        if n.op == "iconv":
            lo, hi = interval(n.args[0])
            s = self.sources(n.args[0])
            if len(s) >= w:
                return s[:w]
            if lo >= 0:
                return s + [0] * (w - len(s))
        elif n.op == "shl" and n.args[1].op == "const":
            k = int(n.args[1].val)
            return ([0] * k + self.sources(n.args[0]))[:w]
        elif n.op == "shr" and n.args[1].op == "const":
            lo, hi = interval(n.args[0])
            s = self.sources(n.args[0])
            k = min(int(n.args[1].val), w)
            return s[k:] + [s[-1] if lo < 0 and n.dt in SINTS else 0] * k
        elif n.op in ("and", "or"):
            a, b = self.sources(n.args[0]), self.sources(n.args[1])
            out = []
            ok = True
            for x, y in zip(a, b):
                if n.op == "and":
                    if x == 0 or y == 0:
                        out.append(0)
                    elif x == 1:
                        out.append(y)
                    elif y == 1 or (isinstance(x, _Bit) and x == y):
                        out.append(x)
                    else:
                        ok = False
                        break
                else:
                    if x == 0:
                        out.append(y)
                    elif y == 0 or x == y:
                        out.append(x)
                    elif x == 1 or y == 1:
                        out.append(1)
                    else:
                        ok = False
                        break
            if ok:
                return out
        elif n.op == "byte":
            k = n.val
            if not is_float(n.args[0].dt):
                return self.sources(n.args[0])[8 * k:8 * k + 8]
        elif n.op == "frombytes":
            return [b for a in n.args for b in self.sources(a)]
        lo, hi = interval(n)
        if lo >= 0 and hi != math.inf:
            nb = int(hi).bit_length()
        else:
            nb = w
        return [_Bit(n.id, k, n) for k in range(nb)] + [0] * (w - nb)

    def _bits(self, n):
        s = self.sources(n)
        if any(isinstance(b, _Bit) and b.node is n for b in s):
            raise Unsupported(f"int lowering of {n.op}")
        runs = []
        k = 0
        cst = 0
        while k < len(s):
            b = s[k]
            if not isinstance(b, _Bit):
                cst |= int(b) << k
                k += 1
                continue
            j = k + 1
            while j < len(s) and isinstance(s[j], _Bit) and s[j].node is b.node and s[j].k == b.k + (j - k):
                j += 1
            runs.append((b.node, b.k, j - k, k))
            k = j
        total = None
        for leaf, lo, m, pos in runs:
            e = self.cache[leaf.id] if leaf.id in self.cache else self.expr(leaf)
            _, hi = interval(leaf)
            nb = int(hi).bit_length() if hi != math.inf else WIDTH[leaf.dt]
            full = lo == 0 and m >= nb and interval(leaf)[0] >= 0
            if not full:
                if e.sort() == z3.RealSort():
                    # only the range of the field is known
                    v = self.fresh(z3.RealSort(), "pb")
                    t = self.side.setdefault(n.id, [])
                    t += [v >= 0, v <= (1 << m) - 1, z3.Implies(e >= 0, v <= e / (1 << lo))]
                    if lo + m >= nb:
                        t.append(z3.Implies(e >= 0, v >= e / (1 << lo) - 1))
                    if lo == 0:
                        t.append(z3.Implies(z3.And(e >= 0, e <= (1 << m) - 1), v == e))
                    e = v * (1 << pos) if pos else v
                    total = e if total is None else total + e
                    continue
                if interval(leaf)[0] < 0:
                    e = e % z3.IntVal(1 << WIDTH[leaf.dt])
                if lo:
                    e = e / z3.IntVal(1 << lo)
                e = e % z3.IntVal(1 << m)
            if pos:
                e = e * (1 << pos)
            total = e if total is None else total + e
        w = len(s)
        neg = n.dt in SINTS and s[-1] != 0
        if total is None:
            return z3.IntVal(cst - (1 << w) if neg else cst)
        if cst:
            total = total + cst
        if neg:
            total = z3.If(total >= (1 << (w - 1)), total - (1 << w), total)
        return total

    # ------------------------------------------------------------------ reals
    def _r(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def _transc(self, op, x):
        """exact real function as uninterpreted symbol with axioms"""
        for o, a, r in self.trans:
            if o == op and a.eq(x):
                return r, []
        f = self.uf("R" + op, z3.RealSort(), z3.RealSort())
        r = f(x)
        s = []
        if op == "exp":
            s += [r > 0, r >= 1 + x, z3.Implies(x == 0, r == 1)]
        if op == "log":
            s += [z3.Implies(x > 0, r <= x - 1), z3.Implies(x == 1, r == 0)]
        c = z3.simplify(x)
        if z3.is_rational_value(c):
            s += [r >= z3.RealVal(str(w)) if k == 0 else r <= z3.RealVal(str(w)) for k, w in enumerate(_enclose(op, c.as_fraction()))]
        for o, a, b in self.trans:
            if o == op:
                dom = z3.And(a > 0, x > 0) if op == "log" else z3.BoolVal(True)
                s += [z3.Implies(dom, z3.And(z3.Implies(a < x, b < r), z3.Implies(a > x, b > r), z3.Implies(a == x, b == r)))]
                if op == "exp" and z3.simplify(a + x).eq(z3.RealVal(0)):
                    s += [r * b == 1]
            elif {o, op} == {"exp", "log"}:
                # r = log(x), b = exp(a): compare x with b, a with r
                if op == "log":
                    s += [z3.Implies(x > 0, z3.And(z3.Implies(x == b, r == a), z3.Implies(x < b, r < a), z3.Implies(x > b, r > a)))]
                else:
                    if z3.simplify(b + x).eq(z3.RealVal(0)):
                        s += [z3.Implies(a > 0, r * a == 1)]
                    s += [z3.Implies(a > 0, z3.And(z3.Implies(a == r, b == x), z3.Implies(a < r, b < x), z3.Implies(a > r, b > x)))]
        self.trans.append((op, x, r))
        return r, s

    def refine(self, s):
        """add lemmas that refute the model's wrong values of exp/log; False if it has none"""
        m = s.model()
        used, todo, names = set(), list(s.assertions()), {}
        for op, x, r in self.trans:
            names[r.get_id()] = (op, x, r)
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in used:
                continue
            used.add(i)
            todo.extend(e.children())
        new = 0
        for i in used & set(names):
            op, x, r = names[i]
            a, b = _ratval(m.eval(x, model_completion=True)), _ratval(m.eval(r, model_completion=True))
            if a is None or b is None or z3.is_rational_value(z3.simplify(x)):
                continue
            if op == "log" and a <= 0 or op == "exp" and abs(a) > 700:
                continue
            lo, hi = _enclose(op, a)
            if lo - Fraction(1, 10 ** 7) * abs(lo) - Fraction(1, 10 ** 9) <= b <= hi + Fraction(1, 10 ** 7) * abs(hi) + Fraction(1, 10 ** 9):
                continue
            pts = self.points.setdefault((op, x.get_id()), [])
            w = Fraction(1, 1024) * (a if op == "log" else 1)
            while any(abs(p - a) < w / 2 for p in pts) and w > Fraction(1, 2 ** 40) * (abs(a) + Fraction(1, 2 ** 40)):
                w /= 8
            g = w / 4
            for q in (a - w, a, a + w):
                k = Fraction(math.floor(q / g)) * g if q is not a else _round(a, g)
                if op == "log" and k <= 0 or k in pts:
                    continue
                self._point(op, x, r, k, pts)
                new += 1
        return new > 0

    def _point(self, op, x, r, k, pts):
        V = lambda f: z3.RealVal(str(f))
        lo, hi = _enclose(op, k)
        L = [z3.Implies(x <= V(k), r <= V(hi)), z3.Implies(x >= V(k), r >= V(lo))]
        if op == "exp":
            L.append(r >= V(lo) * (1 + x - V(k)))
        else:
            L[0] = z3.Implies(z3.And(x > 0, x <= V(k)), r <= V(hi))
            L.append(z3.Implies(x > 0, r <= V(hi) + (x - V(k)) * V(1 / k)))
        import bisect
        i = bisect.bisect(pts, k)
        near = pts[max(0, i - 1):i] + pts[i:i + 1]
        pts.insert(i, k)
        for p in near:
            a, b = min(p, k), max(p, k)
            (la, ha), (lb, hb) = _enclose(op, a), _enclose(op, b)
            ya, yb = (ha, hb) if op == "exp" else (la, lb)
            chord = V(ya) + (x - V(a)) * V((yb - ya) / (b - a))
            L.append(z3.Implies(z3.And(x >= V(a), x <= V(b)), r <= chord if op == "exp" else r >= chord))
        self.lemmas += L

    def _real(self, n, A):
        op = n.op
        if op == "toreal":
            a = n.args[0]
            if a.dt == "int" or self.mode == "real":
                return self._r(A[0])
            if is_float(a.dt):
                return z3.fpToReal(self.fp(a))
            return z3.ToReal(z3.BV2Int(A[0], a.dt in SINTS))
        x = A[0]
        y = A[1] if len(A) > 1 else None
        if self.poly is not None and op in POLY_OPS:
            return self.poly.apply(n, op, A)
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        if op == "div":
            return self._div(n, x, y)
        if op == "neg":
            return -x
        if op == "abs":
            return z3.If(x < 0, -x, x)
        if op == "min":
            return z3.If(x <= y, x, y)
        if op == "max":
            return z3.If(x <= y, y, x)
        if op == "sqrt":
            v = self.fresh(z3.RealSort(), "sq")
            self.side[n.id] = [z3.Implies(x >= 0, z3.And(v >= 0, v * v == x))]
            return v
        if op in ("exp", "log"):
            r, s = self._transc(op, x)
            self.side[n.id] = s
            return r
        raise Unsupported(f"real lowering of {op}")

    def _div(self, n, x, y):
        b = n.args[1]
        if b.op == "const":
            return x / y
        q = self.fresh(z3.RealSort(), "d")
        s = self.side.setdefault(n.id, [])
        s.append(z3.Implies(y != 0, q * y == x))
        return q

    def _rfloat(self, n, A):
        """float node under the real-with-rounding-error model"""
        op, dt = n.op, n.dt
        if self.poly is not None and op in POLY_OPS:
            return self.poly.apply(n, op, A)
        u, tiny = ir.ULP[dt], ir.TINY[dt]
        if op in ("fext",):
            return A[0]
        if op == "neg":
            return -A[0]
        if op == "abs":
            return z3.If(A[0] < 0, -A[0], A[0])
        if op == "min":
            return z3.If(A[0] <= A[1], A[0], A[1])
        if op == "max":
            return z3.If(A[0] <= A[1], A[1], A[0])
        if op == "sign":
            return z3.If(A[0] < 0, z3.RealVal(-1), z3.If(A[0] > 0, z3.RealVal(1), z3.RealVal(0)))
        if op in ("floor", "trunc", "rint", "ceil"):
            v = self.fresh(z3.RealSort() if self.int_relax else z3.IntSort(), "fl")
            rv = v if self.int_relax else z3.ToReal(v)
            x = A[0]
            if op == "floor":
                s = [rv <= x, x < rv + 1]
            elif op == "ceil":
                s = [rv >= x, x > rv - 1]
            elif op == "rint":
                s = [rv - x <= z3.RealVal("1/2"), x - rv <= z3.RealVal("1/2")]
            else:
                s = [z3.Implies(x >= 0, z3.And(rv <= x, x < rv + 1)), z3.Implies(x < 0, z3.And(rv >= x, rv - 1 < x))]
            lo, hi = interval(n)
            if math.isfinite(lo):
                s.append(rv >= int(lo))
            if math.isfinite(hi):
                s.append(rv <= int(hi))
            self.side[n.id] = s
            return rv
        side = []
        exact = False
        k = 1
        if op == "fround":
            r = A[0]
        elif op == "i2f":
            r = self._r(A[0])
            lo, hi = interval(n.args[0])
            if max(abs(lo), abs(hi)) <= 2 ** {"f16": 11, "f32": 24, "f64": 53}[dt]:
                exact = True
        elif op == "add":
            r = A[0] + A[1]
        elif op == "sub":
            r = A[0] - A[1]
        elif op == "mul":
            r = A[0] * A[1]
            for a in n.args:
                if a.op == "const" and _pow2(a.val):
                    exact = True
        elif op == "div":
            b = n.args[1]
            if b.op == "const":
                if float(b.val) == 0:
                    raise Unsupported("division by zero constant")
                r = A[0] / A[1]
                exact = _pow2(b.val)
            else:
                q = self.fresh(z3.RealSort(), "d")
                side.append(z3.Implies(A[1] != 0, q * A[1] == A[0]))
                r = q
        elif op == "sqrt":
            v = self.fresh(z3.RealSort(), "sq")
            side.append(z3.Implies(A[0] >= 0, z3.And(v >= 0, v * v == A[0])))
            r = v
        elif op in ("exp", "log"):
            r, s = self._transc(op, A[0])
            side += s
            k = TRANS_ULP * 2
        elif op in ("expm1", "log1p"):
            r, s = self._transc(op[:3], A[0] if op == "expm1" else A[0] + 1)
            side += s
            r = r - 1 if op == "expm1" else r
            k = TRANS_ULP * 2
        elif op == "pow" and n.args[1].op == "const" and float(n.args[1].val) * 2 == int(float(n.args[1].val) * 2) and abs(float(n.args[1].val)) <= 8:
            h = int(float(n.args[1].val) * 2)
            base, r = A[0], z3.RealVal(1)
            for _ in range(abs(h) // 2):
                r = r * base
            if h % 2:
                v = self.fresh(z3.RealSort(), "sq")
                side.append(z3.Implies(base >= 0, z3.And(v >= 0, v * v == base)))
                r = r * v
            if h < 0:
                q = self.fresh(z3.RealSort(), "d")
                side.append(z3.Implies(r != 0, q * r == 1))
                r = q
            k = TRANS_ULP * 2
        else:
            raise Unsupported(f"real-error lowering of {op}:{dt}")
        if exact or self.noround:
            if side:
                self.side[n.id] = side
            return r
        e = self.fresh(z3.RealSort(), "e")
        # relative+absolute rounding error, linear in r
        uu = z3.RealVal(str(u * k))
        tt = z3.RealVal(str(tiny * 2))
        lo, hi = interval(n)
        ar = r if lo >= 0 else (-r if hi <= 0 else z3.If(r < 0, -r, r))
        side += [e <= uu * ar + tt, e >= -(uu * ar + tt)]
        res = r + e
        v = self.fresh(z3.RealSort(), "v")
        side.append(v == res)
        # a correctly rounded operation is monotone: keep interval facts
        if math.isfinite(lo):
            side.append(v >= z3.RealVal(str(Fraction(lo))))
        if math.isfinite(hi):
            side.append(v <= z3.RealVal(str(Fraction(hi))))
        self.side[n.id] = side
        return v


POLY_OPS = ("add", "sub", "mul", "div", "neg", "sqrt")


class Polys:
    """sums of products (integer powers, negative ones for divisions) of atoms, kept in
    one normal form so that equal exact-real expressions become the same z3 term"""
    MAX = 60

    def __init__(self, lw):
        self.lw = lw
        self.of = {}        # id of z3 term -> poly
        self.term = {}      # poly -> z3 term
        self.atoms = {}     # id -> z3 term
        self.inv = {}       # atom id -> z3 term of its inverse
        self.sides = {}     # atom id -> constraints
        self.roots = {}     # poly -> atom id of its square root
        self.square = {}    # atom id of a square root -> poly
        self.dens = {}      # poly -> atom id standing for it as a denominator
        self.keep = []
        self.prods = {}     # monomial -> z3 constant standing for it
        self.defs = {}      # name of a z3 constant -> its non-linear definition

    def get(self, e):
        if e.sort() == z3.IntSort():
            e = z3.ToReal(e)
        i = e.get_id()
        if i not in self.of:
            self.keep.append(e)
            v = z3.simplify(e)
            if z3.is_rational_value(v):
                f = v.as_fraction()
                self.of[i] = {(): f} if f else {}
            else:
                self.atoms[i] = e
                self.of[i] = {((i, 1),): Fraction(1)}
        return self.of[i]

    def apply(self, n, op, A):
        P = [self.get(a) for a in A]
        if op in ("add", "sub"):
            r = self._add(P[0], P[1], 1 if op == "add" else -1)
        elif op == "neg":
            r = self._scale(P[0], -1)
        elif op == "mul":
            r = self._mul(P[0], P[1])
        elif op == "sqrt":
            r = self._sqrt(P[0])
        else:
            r = self._mul(P[0], self._inverse(P[1]))
        if len(r) > self.MAX:
            r = self._opaque(r)
        e = self._term(r)
        side = []
        for a in {a for m in r for a, _ in m}:
            side += self.sides.get(a, ())
        if side:
            self.lw.side[n.id] = side
        return e

    def _add(self, p, q, s):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def _scale(self, p, k):
        return {m: c * k for m, c in p.items()}

    def _mono(self, m1, m2):
        d = dict(m1)
        for a, k in m2:
            d[a] = d.get(a, 0) + k
        return d

    def _mul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = self._mono(m1, m2)
                c = c1 * c2
                extra = None
                for a, k in d.items():
                    if k >= 2 and a in self.square:
                        extra = self.square[a]
                        d[a] = k - 2
                        break
                m = tuple(sorted((a, k) for a, k in d.items() if k))
                t = {m: c} if extra is None else self._mul({m: c}, dict(extra))
                for mm, cc in t.items():
                    v = r.get(mm, 0) + cc
                    if v:
                        r[mm] = v
                    else:
                        r.pop(mm, None)
        return r

    def _inverse(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            for a, _ in m:
                self._invvar(a)
            return {tuple((a, -k) for a, k in m): 1 / c}
        if not p:
            v = self.lw.fresh(z3.RealSort(), "d")
            return self.get(v)
        key = frozenset(p.items())
        if key not in self.dens:
            v = self.lw.fresh(z3.RealSort(), "n")
            self.get(v)
            self.dens[key] = v.get_id()
            self.sides[v.get_id()] = [v == self._term(p)] + [c for a in {a for m in p for a, _ in m} for c in self.sides.get(a, ())]
        a = self.dens[key]
        self._invvar(a)
        return {((a, -1),): Fraction(1)}

    def _invvar(self, a):
        if a not in self.inv:
            v = self.lw.fresh(z3.RealSort(), "i")
            self.keep.append(v)
            self.inv[a] = v
            b = self.atoms[a]
            s = self.sides.setdefault(a, [])
            self.defs[v.decl().name()] = z3.Implies(b != 0, v * b == 1)
            s += [z3.Implies(b > 0, v > 0), z3.Implies(b < 0, v < 0)]
            if a in self.square:
                p = dict(self.square[a])
                q = self._mul(p, {((a, -2),): Fraction(1)})
                s.append(z3.Implies(b != 0, self._term(q) == 1))
                if all(c > 0 and all(k % 2 == 0 for _, k in m) for m, c in p.items()):
                    # every term of a sum of squares is at most the sum
                    for m, c in p.items():
                        h = tuple(sorted([(x, k // 2) for x, k in m] + [(a, -1)]))
                        t = self._term({h: Fraction(1)})
                        if c >= 1:
                            s.append(z3.Implies(b != 0, z3.And(t <= 1, t >= -1)))

    def _sqrt(self, p):
        if not p:
            return {}
        key = frozenset(p.items())
        if key not in self.roots:
            v = self.lw.fresh(z3.RealSort(), "sq")
            self.get(v)
            e = self._term(p)
            self.roots[key] = v.get_id()
            self.square[v.get_id()] = tuple(p.items())
            self.defs[v.decl().name()] = z3.Implies(e >= 0, v * v == e)
            self.sides[v.get_id()] = [z3.Implies(e >= 0, v >= 0), z3.Implies(e > 0, v > 0)] + \
                [c for a in {a for m in p for a, _ in m} for c in self.sides.get(a, ())]
        return {((self.roots[key], 1),): Fraction(1)}

    def _opaque(self, p):
        key = frozenset(p.items())
        if key not in self.dens:
            v = self.lw.fresh(z3.RealSort(), "n")
            self.get(v)
            self.dens[key] = v.get_id()
            self.sides[v.get_id()] = [v == self._term(p)] + [c for a in {a for m in p for a, _ in m} for c in self.sides.get(a, ())]
        return {((self.dens[key], 1),): Fraction(1)}

    def _term(self, p):
        key = frozenset(p.items())
        if key in self.term:
            return self.term[key]
        parts = []
        for m, c in sorted(p.items()):
            if not m:
                parts.append(z3.RealVal(str(c)))
            else:
                f = self._prod(m)
                parts.append(f if c == 1 else z3.RealVal(str(c)) * f)
        e = z3.RealVal(0) if not parts else parts[0] if len(parts) == 1 else z3.Sum(parts)
        self.term[key] = e
        self.keep.append(e)
        self.of[e.get_id()] = dict(p)
        return e

    def _prod(self, m):
        if len(m) == 1 and abs(m[0][1]) == 1:
            a, k = m[0]
            return self.atoms[a] if k > 0 else self.inv[a]
        if m not in self.prods:
            f = []
            for a, k in m:
                f += [self.atoms[a] if k > 0 else self.inv[a]] * abs(k)
            v = self.lw.fresh(z3.RealSort(), "m")
            self.prods[m] = v
            self.defs[v.decl().name()] = v == z3.Product(f)
            self.keep.append(v)
        return self.prods[m]

    def definitions(self, asserts):
        """the definitions of the products, roots and inverses the assertions mention"""
        out, names, seen, todo = [], set(), set(), list(asserts)
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if e.num_args() == 0:
                n = e.decl().name() if z3.is_app(e) else None
                if n in self.defs and n not in names:
                    names.add(n)
                    out.append(self.defs[n])
                    todo.append(self.defs[n])
            else:
                todo.extend(e.children())
        return out


def _ratval(v):
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_rational_value(v):
        return v.as_fraction()
    return Fraction(v.as_long()) if z3.is_int_value(v) else None


def _round(a, g):
    """a simple rational close to a (much closer than g)"""
    k = g / 2 ** 20
    return Fraction(math.floor(a / k)) * k


def _enclose(op, x):
    """rational bounds of exp/log at a rational point"""
    if op == "log" and x <= 0 or op == "exp" and abs(x) > 700:
        return ()
    with mpmath.workdps(60):
        a = mpmath.mpf(x.numerator) / x.denominator
        v = mpmath.exp(a) if op == "exp" else mpmath.log(a)
        m, e = mpmath.frexp(v)
        k = int(mpmath.floor(m * 2 ** 90))
    w = Fraction(2) ** int(e) / 2 ** 90
    return (k - 1) * w, (k + 2) * w


class _Bit:
    __slots__ = ("nid", "k", "node")

    def __init__(self, nid, k, node):
        self.nid, self.k, self.node = nid, k, node

    def __eq__(self, o):
        return isinstance(o, _Bit) and o.nid == self.nid and o.k == self.k

    def __hash__(self):
        return hash((self.nid, self.k))


def _pow2(v):
    f = abs(float(v))
    if f == 0 or not math.isfinite(f):
        return False
    m, _ = math.frexp(f)
    return m == 0.5


def model_env(lw, model, names=None):
    """name -> python/numpy value for every declared symbol occurring in lw"""
    env = {}
    for name, (dt, lo, hi) in ir._sym_info.items():
        n = ir.mk("sym", (), dt, name)
        e = lw.cache.get(n.id)
        if e is None:
            env[name] = default_value(dt, lo, hi)
            continue
        v = model.eval(e, model_completion=True)
        env[name] = z3_value(v, dt)
    return env


def default_value(dt, lo, hi):
    if dt == "bool":
        return False
    if is_float(dt):
        v = 0.0
        if lo is not None and v < lo:
            v = lo
        if hi is not None and v > hi:
            v = hi
        return float(ir.NP[dt](v))
    v = 0
    if lo is not None and v < lo:
        v = lo
    if hi is not None and v > hi:
        v = hi
    return v


def z3_value(v, dt):
    import numpy as np
    if dt == "bool":
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if dt in ("int",) or dt in ir.INTS:
            return int(f)
        if is_float(dt):
            with np.errstate(all="ignore"):
                return float(ir.NP[dt](float(f)))
        return f
    if z3.is_bv_value(v):
        b = v.as_long()
        if is_float(dt):
            ut = {"f16": np.uint16, "f32": np.uint32, "f64": np.uint64}[dt]
            return ir.NP[dt](np.array(b, dtype=ut).view(ir.NP[dt]))
        if dt in SINTS and b >> (WIDTH[dt] - 1):
            b -= 1 << WIDTH[dt]
        return b
    raise Unsupported(f"model value {v}")
