"""C12: log/exp, logit/sigmoid and quaternion conversions of a whole container."""
from fractions import Fraction

from engine.driver import H
from .common import FIELDS, Snap, fields, same_shn, tags, with_prov
from .c19 import sig

BOUNDS = ("containers of 0..2 Gaussians (other rows fixed), SH degree 0 and 1, 9 provenances; one field symbolic at a time: log scales in [-30,30], "
          "linear scales in [-1,1000], logits in [-80,80], linear opacities in [-1,2], quaternion components in [-100,100]; default limits and other "
          "limits; in place, into a new object and by default; all four tag mixtures; opacities of shape (N,) and (N,1)")
OUTSIDE = "NaN and infinite values, larger scenes (the kernels treat Gaussians independently)"
ASSUMPTIONS = ["library exp/log accurate to a few ulp, otherwise known through monotonicity, inverse and sign only",
               "float rounding modelled by error bounds; where the solver cannot decide with them (quaternions, inverses), by exact reals"]


def frac(cx, v):
    f = Fraction(v)
    return cx.F(f.numerator, f.denominator)


def f32(v):
    import numpy
    return float(numpy.float32(v))


def log_near(cx, label, got, arg, slack=(1, 100000)):
    """got = log(arg) up to a relative error of the argument and of the result"""
    F = cx.F
    s, t = F(*slack), F(1, 100000)
    lo, hi = cx.log(arg * (F(1) - s)), cx.log(arg * (F(1) + s))
    cx.check(label, cx.land(got >= lo - t - cx.abs(lo) * t, got <= hi + t + cx.abs(hi) * t), cx.land(got >= lo - F(1, 10), got <= hi + F(1, 10)))


def want_logscale(cx, got, s, lo=1e-9):
    log_near(cx, "scale", got, cx.max(s, frac(cx, lo)))


def want_logit(cx, got, o, lo=1e-4, hi=1 - 1e-4):
    q = cx.clamp(o, frac(cx, lo), frac(cx, hi))
    # 1-hi is only known to float32 precision
    log_near(cx, "opacity", got, q / (cx.F(1) - q), (1, 1000))


def want_scale(cx, got, s, lo=1e-4, hi=100.0):
    w = cx.clamp(cx.exp(s), frac(cx, lo), frac(cx, hi))
    cx.close("scale", got, w, w * cx.F(1, 100000), margin=w * cx.F(1, 100))


def want_sigmoid(cx, got, o):
    cx.close("opacity", got, sig(cx, o), cx.F(1, 1000000), margin=cx.F(1, 100))


BASE = {"means": [[1.5, -2.0, 3.25], [0.5, 4.0, -8.0]], "scales": [[-1.0, -2.0, -3.0], [-4.0, -0.5, -2.5]],
        "quats": [[1.0, 0.0, 0.0, 0.0], [0.0, -2.0, 0.0, 0.0]], "opacities": [0.25, -1.5], "sh0": [[0.5, -0.5, 0.25], [1.0, 2.0, 3.0]]}
LIN = {"scales": [[0.5, 0.25, 2.0], [0.125, 4.0, 1.0]], "opacities": [0.25, 0.75]}


def scene(cx, n, deg, prov, sc, op, sym, rng):
    """container with one symbolic field; sc/op: 'PLY' or 'LINEAR' tags"""
    gs, np = cx.gs, cx.np
    from gsply.gsdata import DataFormat
    f = {}
    for k, v in BASE.items():
        if k in LIN and {"scales": sc, "opacities": op}[k] == "LINEAR":
            v = LIN[k]
        f[k] = cx.carr(v[:n]) if n else np.zeros((0,) + np.asarray(v).shape[1:], dtype=np.float32)
    f["shN"] = np.ones((n, 3, 3), dtype=np.float32) if deg else np.zeros((n, 0, 3), dtype=np.float32)
    if sym and n:
        a = cx.arr(sym, (1,) + f[sym].shape[1:], "f32", *rng)
        f[sym][n - 1] = a[0]
    d = gs.GSData.from_arrays(**f, format="ply")
    d = with_prov(cx, d, prov)
    d.masks, d.mask_names = None, None
    if (sc, op) != ("PLY", "PLY"):
        d = d.with_format(scales=getattr(DataFormat, "SCALES_" + sc), opacities=getattr(DataFormat, "OPACITIES_" + op))
    return d


def kept(cx, r, old, names):
    for k in names:
        if k == "shN":
            same_shn(cx, "shN kept", r.shN, old["shN"])
        else:
            cx.same(k + " kept", getattr(r, k), old[k])


def run(cx, d, call, inplace):
    """call the conversion; new objects leave the source alone"""
    s = Snap(cx, d) if inplace is False else None
    r = call(d) if inplace is None else call(d, inplace=inplace)
    if inplace is False:
        cx.check("new object", r is not d)
        s.unchanged(cx, "source:")
    else:
        cx.check("same object", r is d)
    return r


def h_normalize(cx, n, deg, prov, sc, op, sym, inplace):
    d = scene(cx, n, deg, prov, sc, op, sym, (-1.0, 1000.0) if sym == "scales" else (-1.0, 2.0))
    old = {k: cx.snap(getattr(d, k)) for k in FIELDS}
    t = tags(d)
    r = run(cx, d, lambda x, **k: x.normalize(**k), inplace)
    kept(cx, r, old, ("means", "quats", "sh0", "shN"))
    if sc == "PLY" and op == "LINEAR":
        kept(cx, r, old, ("scales",))
    else:
        for i in range(n):
            for j in range(3):
                want_logscale(cx, cx.R(r.scales[i, j]), cx.R(old["scales"][i, j]))
    if op == "PLY" and sc == "LINEAR":
        kept(cx, r, old, ("opacities",))
    else:
        for i in range(n):
            want_logit(cx, cx.R(r.opacities[i]), cx.R(old["opacities"][i]))
    cx.check("tags", tags(r) == dict(t, scales="SCALES_PLY", opacities="OPACITIES_PLY"))
    cx.check("shapes", r.scales.shape == (n, 3) and r.opacities.shape == (n,))
    cx.observe("scales", r.scales)
    cx.observe("opacities", r.opacities)


def h_denormalize(cx, n, deg, prov, sc, op, sym, inplace):
    d = scene(cx, n, deg, prov, sc, op, sym, (-30.0, 30.0) if sym == "scales" else (-80.0, 80.0))
    old = {k: cx.snap(getattr(d, k)) for k in FIELDS}
    t = tags(d)
    r = run(cx, d, lambda x, **k: x.denormalize(**k), inplace)
    kept(cx, r, old, ("means", "sh0", "shN"))
    if sc == "LINEAR" and op == "PLY":
        kept(cx, r, old, ("scales",))
    else:
        for i in range(n):
            for j in range(3):
                want_scale(cx, cx.R(r.scales[i, j]), cx.R(old["scales"][i, j]))
    if op == "LINEAR" and sc == "PLY":
        kept(cx, r, old, ("opacities",))
    else:
        for i in range(n):
            want_sigmoid(cx, cx.R(r.opacities[i]), cx.R(old["opacities"][i]))
    cx.check("tags", tags(r) == dict(t, scales="SCALES_LINEAR", opacities="OPACITIES_LINEAR"))
    for i in range(n):
        for j in range(4):
            cx.close("fixed quaternion", cx.R(r.quats[i, j]), cx.F((1, 0, 0, 0)[j] if i == 0 else (0, -1, 0, 0)[j]), cx.F(1, 100000), margin=cx.F(1, 100))
    cx.observe("scales", r.scales)
    cx.observe("opacities", r.opacities)


def h_quat(cx, via, prov, floor):
    """unit norm, same direction; (nearly) zero quaternions get a fixed unit rotation"""
    gs = cx.gs
    F = cx.F
    d = scene(cx, 1, 0, prov, "PLY", "PLY", "quats", (-100.0, 100.0))
    q = [cx.R(v) for v in cx.snap(d.quats)[0]]
    n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
    if via == "denormalize":
        r = d.denormalize(inplace=False)
    elif floor is None:
        r = gs.apply_pre_activations(d, inplace=False)
    else:
        r = gs.apply_pre_activations(d, min_quat_norm=floor, inplace=False)
    lim = frac(cx, f32(1e-8 if floor is None else floor))
    z = [cx.R(v) for v in r.quats[0]]
    # at the limit itself rounding may decide either way
    big = n2 >= lim * lim * F(1001, 1000)
    small = n2 <= lim * lim * F(999, 1000)
    m = cx.sqrt(n2)
    for j in range(4):
        e = z[j] * m - q[j]
        tol = m * F(1, 10000)
        cx.check("direction and length", cx.implies(big, cx.land(e <= tol, -e <= tol)), cx.implies(big, cx.land(e <= m * F(1, 10), -e <= m * F(1, 10))))
    s = z[0] * z[0] + z[1] * z[1] + z[2] * z[2] + z[3] * z[3]
    cx.check("unit rotation for zero", cx.implies(small, cx.land(s <= F(1001, 1000), s >= F(999, 1000))))
    cx.observe("quats", r.quats)


def h_limits(cx, which, lo, hi):
    """other limits of the kernels' public entry points"""
    gs = cx.gs
    if which == "act":
        d = scene(cx, 1, 0, "fresh", "PLY", "PLY", "scales", (-30.0, 30.0))
        old = cx.snap(d.scales)
        r = gs.apply_pre_activations(d, min_scale=lo, max_scale=hi, inplace=False)
        for j in range(3):
            want_scale(cx, cx.R(r.scales[0, j]), cx.R(old[0, j]), f32(lo), f32(hi))
    elif which == "deact scale":
        d = scene(cx, 1, 0, "fresh", "LINEAR", "LINEAR", "scales", (-1.0, 1000.0))
        old = cx.snap(d.scales)
        r = gs.apply_pre_deactivations(d, min_scale=lo, inplace=False)
        for j in range(3):
            want_logscale(cx, cx.R(r.scales[0, j]), cx.R(old[0, j]), f32(lo))
    else:
        d = scene(cx, 1, 0, "fresh", "LINEAR", "LINEAR", "opacities", (-1.0, 2.0))
        old = cx.snap(d.opacities)
        r = gs.apply_pre_deactivations(d, min_opacity=lo, max_opacity=hi, inplace=False)
        want_logit(cx, cx.R(r.opacities[0]), cx.R(old[0]), f32(lo), f32(hi))
    cx.observe("scales", r.scales)
    cx.observe("opacities", r.opacities)


def h_column(cx, direction):
    """opacities of shape (N,1) keep their shape"""
    gs = cx.gs
    np = cx.np
    d = scene(cx, 2, 0, "fresh", "PLY", "PLY", None, None)
    o = cx.arr("o", (2, 1), "f32", -20.0, 20.0) if direction == "act" else cx.arr("o", (2, 1), "f32", -1.0, 2.0)
    d.opacities = o
    s = cx.snap(o)
    r = gs.apply_pre_activations(d, inplace=False) if direction == "act" else gs.apply_pre_deactivations(d, inplace=False)
    cx.check("shape", r.opacities.shape == (2, 1))
    for i in range(2):
        (want_sigmoid if direction == "act" else want_logit)(cx, cx.R(r.opacities[i, 0]), cx.R(s[i, 0]))
    cx.observe("o", r.opacities)


def h_errors(cx):
    """impossible limits and shapes are refused and nothing is changed"""
    gs, np = cx.gs, cx.np
    act, deact = gs.apply_pre_activations, gs.apply_pre_deactivations
    d = scene(cx, 2, 0, "fresh", "PLY", "PLY", "scales", (-1.0, 1.0))
    s = Snap(cx, d)
    for k in (dict(min_scale=0.0), dict(min_scale=-1.0), dict(max_scale=0.0), dict(min_scale=2.0, max_scale=1.0), dict(min_quat_norm=0.0),
              dict(min_quat_norm=-1e-3)):
        cx.raises("activation limits", lambda: act(d, **k))
    for k in (dict(min_scale=0.0), dict(min_scale=-1.0), dict(min_opacity=0.0), dict(min_opacity=-0.5), dict(max_opacity=1.0), dict(max_opacity=1.5),
              dict(min_opacity=0.5, max_opacity=0.25), dict(min_opacity=0.5, max_opacity=0.5)):
        cx.raises("deactivation limits", lambda: deact(d, **k))
    s.unchanged(cx, "after refused limits:")
    for name, shape in (("scales", (2, 2)), ("scales", (1, 3)), ("quats", (2, 3)), ("quats", (1, 4)), ("opacities", (3,)), ("opacities", (2, 2))):
        for f in (act, deact):
            if f is deact and name == "quats":
                continue
            e = d.copy()
            setattr(e, name, cx.arr(f"bad{name}{shape}", shape))
            t = Snap(cx, e)
            cx.raises(f"{name} of shape {shape}", lambda: f(e))
            t.unchanged(cx, "after refused shapes:")


def h_inverse(cx, order, sym):
    """one conversion undoes the other inside the limits"""
    F = cx.F
    if order == "ply":
        lim = 9.0 if sym == "opacities" else 4.5
        d = scene(cx, 1, 0, "fresh", "PLY", "PLY", sym, (-9.0, lim))
        # exp at the ends of the range, so that the solver has them to compare with
        anchors = [cx.exp(F(-9)), cx.exp(frac(cx, lim))]
        old = cx.snap(getattr(d, sym))
        r = d.denormalize(inplace=False).normalize(inplace=False)
        tol = F(1, 1000)
    else:
        d = scene(cx, 1, 0, "fresh", "LINEAR", "LINEAR", sym, (0.00015, 90.0) if sym == "scales" else (0.00015, 0.9998))
        anchors = []
        old = cx.snap(getattr(d, sym))
        r = d.normalize(inplace=False).denormalize(inplace=False)
        tol = F(1, 1000)
    cx.check("tags", tags(r) == tags(d))
    for a in anchors:
        cx.check("anchor", a > F(0))
        cx.assume(a > F(0))
    for a, b in zip(list(old.reshape(-1)), list(getattr(r, sym).reshape(-1))):
        a, b = cx.R(a), cx.R(b)
        cx.close("there and back", b, a, tol + tol * cx.abs(a), margin=F(1, 10))
    cx.observe(sym, getattr(r, sym))


OBS = {"abs": 1e-4, "rel": 1e-3}
PROVS = ("fresh", "consolidated", "read", "sliced", "stepped", "strided", "contiguous", "fortran", "flipped")
TAGS = [("PLY", "PLY"), ("PLY", "LINEAR"), ("LINEAR", "PLY"), ("LINEAR", "LINEAR")]


def harnesses(tier):
    out = []
    thorough = tier != "quick"

    def add(name, harness, mode="real", **p):
        out.append(H(name, harness, p, mode=mode, obs=OBS, witnesses=2, timeout=20, escalate=(("exact", 20),)))
    for name, fn in (("normalize", h_normalize), ("denormalize", h_denormalize)):
        for sym in ("scales", "opacities"):
            for sc, op in TAGS:
                # both fields already converted: user error, converts again
                if (sc, op) == (("PLY", "PLY") if name == "normalize" else ("LINEAR", "LINEAR")):
                    continue
                for inplace in (True, False, None):
                    for prov in PROVS:
                        mixed = sc != op
                        if not thorough and (mixed and prov not in ("fresh", "consolidated") or inplace is None and prov != "fresh"):
                            continue
                        add(f"{name}[{sym},{sc}/{op},{prov},{'in place' if inplace else 'default' if inplace is None else 'copy'}]", fn,
                            n=2 if prov != "fresh" else 1, deg=1 if prov in ("consolidated", "read") else 0, prov=prov, sc=sc, op=op, sym=sym, inplace=inplace)
        sc = "LINEAR" if name == "normalize" else "PLY"
        for inplace in (True, False):
            add(f"{name}[empty,{inplace}]", fn, n=0, deg=0, prov="fresh", sc=sc, op=sc, sym=None, inplace=inplace)
    for via, prov, floor in (("denormalize", "fresh", None), ("denormalize", "consolidated", None), ("denormalize", "read", None), ("kernel", "fresh", None),
                             ("kernel", "fresh", 0.5), ("kernel", "fresh", 10.0)):
        add(f"quaternion[{via},{prov},{floor}]", h_quat, mode="exact", via=via, prov=prov, floor=floor)
    for which, lo, hi in (("act", 1e-3, 10.0), ("act", 0.5, 0.5), ("act", 1e-6, 1e4), ("deact scale", 1e-4, None), ("deact scale", 1.0, None),
                          ("deact opacity", 0.01, 0.99), ("deact opacity", 0.25, 0.5)):
        add(f"limits[{which},{lo},{hi}]", h_limits, which=which, lo=lo, hi=hi)
    for k in ("act", "deact"):
        add(f"column[{k}]", h_column, direction=k)
    add("refused", h_errors, mode="uf")
    for order in ("ply", "linear"):
        for sym in ("scales", "opacities"):
            add(f"inverse[{order},{sym}]", h_inverse, mode="exact", order=order, sym=sym)
    return out
