"""C19: sigmoid and logit are the stable functions they claim to be, and inverse to each other."""
from engine.driver import H

BOUNDS = ("scalars and arrays of shapes (0,), (1,), (3,), (2,2), (2,1,2), contiguous, strided, transposed and both; float32, float64 and int32 elements; "
          "sigmoid arguments in [-80,80] (float64: [-600,600]); logit arguments in [-2,3] with eps 1e-6 (default), 1e-4, 1e-3")
OUTSIDE = "NaN and infinite arguments, larger arrays (the kernels treat elements independently), 0-d arrays"
ASSUMPTIONS = ["library exp/log accurate to a few ulp", "exp/log otherwise known only through monotonicity, inverse, sign and exp(-x)=1/exp(x)",
               "float rounding modelled by error bounds; where the solver cannot decide with them, by exact reals"]

SHAPES = ((1,), (3,), (2, 2), (2, 1, 2))


def sig(cx, x):
    """1/(1+e^-x) on reals, in the form without overflow"""
    F = cx.F
    p = F(1) / (F(1) + cx.exp(-x))
    e = cx.exp(x)
    return cx.ite(x >= 0, p, e / (F(1) + e))


def layout(cx, a, how):
    np = cx.np
    if how == "c":
        return a
    if how == "strided":
        return a.repeat(2, axis=0)[::2]
    if how == "transposed strided":
        return a.T.repeat(2, axis=0)[::2].T
    return a.T.copy().T


def items(cx, a):
    return list(a.reshape(-1)) if a.ndim else [a]


def frame(cx, fn, x, s, y, shape, dt):
    """shape, dtype, independence; every element as when it is alone in an array"""
    np = cx.np
    cx.check("shape", y.shape == tuple(shape))
    cx.check("dtype", y.dtype == (np.float32 if dt == "f32" else np.float64))
    cx.same("argument unchanged", x, s)
    cx.check("independent result", y is not x)
    if len(shape) > 1 or shape[0] > 1:
        for i, (a, b) in enumerate(zip(items(cx, s), items(cx, y))):
            one = np.zeros((1,), dtype=x.dtype)
            one[0] = a
            cx.close("element alone", cx.R(b), cx.R(fn(one)[0]), cx.F(1, 100000), margin=cx.F(1, 100))


def h_sigmoid(cx, shape, dt, how, lim):
    np = cx.np
    x = layout(cx, cx.arr("x", shape, dt, *((-lim, lim))), how)
    s = cx.snap(x)
    y = cx.gs.sigmoid(x)
    frame(cx, cx.gs.sigmoid, x, s, y, shape, dt)
    F = cx.F
    if shape == (1,):
        a, b = cx.R(s[0]), cx.R(y[0])
        cx.close("value", b, sig(cx, a), F(1, 1000000), margin=F(1, 100))
        cx.check("sign", cx.land(cx.implies(a > F(1, 100), b > F(1, 2)), cx.implies(a < F(-1, 100), b < F(1, 2))))
    cx.observe("y", y)


def h_sigmoid_scalar(cx, kind):
    x = cx.int("x", -30, 30) if kind == "int" else cx.scalar("x", "f64" if kind == "float" else "f32", -600.0 if kind == "float" else -80.0,
                                                             600.0 if kind == "float" else 80.0)
    y = cx.gs.sigmoid(x)
    a, b = cx.R(x), cx.R(y)
    cx.close("value", b, sig(cx, a), cx.F(1, 1000000), margin=cx.F(1, 100))
    cx.observe("y", y)


def want_logit(cx, label, b, p, eps, slack):
    """b = log(q/(1-q)) for q = p clamped into [eps, 1-eps], up to a relative error of the odds and of the result"""
    F = cx.F
    q = cx.clamp(p, eps, F(1) - eps)
    odds = q / (F(1) - q)
    lo, hi = cx.log(odds * (F(1) - slack)), cx.log(odds * (F(1) + slack))
    t = F(1, 100000)
    cx.check(label, cx.land(b >= lo - t - cx.abs(lo) * t, b <= hi + t + cx.abs(hi) * t),
             cx.land(b >= lo - F(1, 10), b <= hi + F(1, 10)))


EPS = {"default": None, "1e-4": 1e-4, "1e-3": 1e-3}


def h_logit(cx, shape, dt, how, eps):
    np = cx.np
    x = layout(cx, cx.arr("p", shape, dt, -2 if dt == "i32" else -2.0, 3 if dt == "i32" else 3.0), how)
    s = cx.snap(x)
    e = EPS[eps]
    y = cx.gs.logit(x) if e is None else cx.gs.logit(x, eps=e)
    frame(cx, (lambda v: cx.gs.logit(v)) if e is None else (lambda v: cx.gs.logit(v, eps=e)), x, s, y, shape, dt)
    from fractions import Fraction
    ef = Fraction(1e-6 if e is None else e)
    if shape == (1,):
        want_logit(cx, "value", cx.R(y[0]), cx.R(s[0]), cx.F(ef.numerator, ef.denominator), cx.F(1, 100000))
    cx.observe("y", y)


def h_logit_scalar(cx, kind, eps):
    x = cx.int("p", -2, 3) if kind == "int" else cx.scalar("p", "f64" if kind == "float" else "f32", -2.0, 3.0)
    e = EPS[eps]
    y = cx.gs.logit(x) if e is None else cx.gs.logit(x, eps=e)
    from fractions import Fraction
    ef = Fraction(1e-6 if e is None else e)
    want_logit(cx, "value", cx.R(y), cx.R(x), cx.F(ef.numerator, ef.denominator), cx.F(1, 100000))
    cx.observe("y", y)


def h_inverse(cx, dt, scalar):
    """sigmoid(logit(p)) == p for eps <= p <= 1-eps"""
    gs = cx.gs
    F = cx.F
    if scalar:
        x = cx.scalar("p", "f64", 0.00001, 0.99999)
        y = gs.sigmoid(gs.logit(x))
        pairs = [(x, y)]
    else:
        x = cx.arr("p", (1,), dt, 0.00001, 0.99999)
        y = gs.sigmoid(gs.logit(x))
        pairs = list(zip(x, y))
    for a, b in pairs:
        cx.close("inverse", cx.R(b), cx.R(a), F(1, 50000), margin=F(1, 100))
    cx.observe("y", y)


OBS = {"abs": 1e-5, "rel": 1e-4}
ESC = (("exact", 20),)


def harnesses(tier):
    out = []

    def add(name, harness, mode="real", **p):
        out.append(H(name, harness, p, mode=mode, obs=OBS, witnesses=2, escalate=ESC, timeout=10))
    for dt, lim in (("f32", 80.0), ("f64", 600.0), ("i32", 30)):
        for shape in SHAPES if tier == "thorough" or dt == "f32" else SHAPES[:3]:
            add(f"sigmoid[{dt},{shape}]", h_sigmoid, shape=shape, dt=dt, how="c", lim=lim)
            for e in EPS if shape == (1,) else ("default",):
                add(f"logit[{dt},{shape},{e}]", h_logit, shape=shape, dt=dt, how="c", eps=e)
        add(f"sigmoid[{dt},empty]", h_sigmoid, shape=(0,), dt=dt, how="c", lim=lim)
        add(f"logit[{dt},empty]", h_logit, shape=(0,), dt=dt, how="c", eps="default")
    for how in ("strided", "fortran", "transposed strided"):
        add(f"sigmoid[f32,(2,2),{how}]", h_sigmoid, shape=(2, 2), dt="f32", how=how, lim=80.0)
        add(f"logit[f32,(2,2),{how}]", h_logit, shape=(2, 2), dt="f32", how=how, eps="default")
    for kind in ("float", "f32", "int"):
        add(f"sigmoid[scalar {kind}]", h_sigmoid_scalar, kind=kind)
        for e in EPS:
            add(f"logit[scalar {kind},{e}]", h_logit_scalar, kind=kind, eps=e)
    for dt in ("f32", "f64"):
        add(f"inverse[{dt}]", h_inverse, mode="exact", dt=dt, scalar=False)
    add("inverse[scalar]", h_inverse, mode="exact", dt="f64", scalar=True)
    return out
