"""C21: tensor containers convert between log/linear and SH/RGB by the documented formulas, like the CPU container."""
from engine.driver import H
from .common import FIELDS, same_fields, tags
from .c12 import BASE, LIN, frac, kept, log_near, want_logit, want_logscale, want_sigmoid
from .tcommon import TSnap, tensor_of

BOUNDS = ("containers of 0..2 Gaussians (other rows fixed), SH degree 0 and 1, 10 in-memory provenances; one field symbolic at a time: log scales in [-30,30], "
          "linear scales in [-1,1000], logits in [-80,80], linear opacities in [-1,2], colours in [-1000,1000]; in place, into a new object and by default; "
          "all four tag mixtures; inverse pairs; agreement with the CPU container inside its scale limits")
OUTSIDE = "NaN and infinite values, larger scenes (every operation is element by element), float16/float64 tensors, CUDA devices"
ASSUMPTIONS = ["library exp/log accurate to a few ulp, otherwise known through monotonicity, inverse and sign only",
               "float rounding modelled by error bounds; where the solver cannot decide with them (inverses), by exact reals"]
C0 = (28209479177387814, 10 ** 17)


def scene(cx, n, deg, prov, sc, op, sym, rng, col="SH"):
    from gsply.gsdata import DataFormat
    gs, np = cx.gs, cx.np
    f = {}
    for k, v in BASE.items():
        if k in LIN and {"scales": sc, "opacities": op}[k] == "LINEAR":
            v = LIN[k]
        f[k] = cx.carr(v[:n]) if n else np.zeros((0,) + np.asarray(v).shape[1:], dtype=np.float32)
    f["shN"] = np.ones((n, 3, 3), dtype=np.float32) if deg else np.zeros((n, 0, 3), dtype=np.float32)
    if sym and n:
        a = cx.arr(sym, (1,) + f[sym].shape[1:], "f32", *rng)
        f[sym][n - 1] = a[0]
    d = gs.GSData.from_arrays(**f, format="ply")
    t = tensor_of(cx, d, prov)
    t.masks, t.mask_names = None, None
    if (sc, op, col) != ("PLY", "PLY", "SH"):
        d = d.with_format(scales=getattr(DataFormat, "SCALES_" + sc), opacities=getattr(DataFormat, "OPACITIES_" + op), sh0=getattr(DataFormat, "SH0_" + col))
        t = t.with_format(scales=getattr(DataFormat, "SCALES_" + sc), opacities=getattr(DataFormat, "OPACITIES_" + op), sh0=getattr(DataFormat, "SH0_" + col))
    return t, d


def run(cx, t, call, inplace):
    s = TSnap(cx, t) if inplace is False else None
    r = call(t) if inplace is None else call(t, inplace=inplace)
    if inplace is False:
        cx.check("new object", r is not t)
        s.unchanged(cx, "source:")
    else:
        cx.check("same object", r is t)
    return r


def derived(cx, r, n):
    """what is derived from the result has its values and its tags"""
    v = {k: cx.snap(getattr(r, k)) for k in FIELDS}
    for label, e in (("to_gsdata:", r.to_gsdata()), ("clone:", r.clone()), ("slice:", r[:]), ("consolidate:", r.consolidate())):
        same_fields(cx, label, e, v)
        cx.check(label + "tags", tags(e) == tags(r))


def expscale(cx, got, s):
    w = cx.exp(s)
    cx.close("scale", got, w, w * cx.F(1, 100000), margin=w * cx.F(1, 100))


def h_normalize(cx, n, deg, prov, sc, op, sym, how):
    t, d = scene(cx, n, deg, prov, sc, op, sym, (-1.0, 1000.0) if sym == "scales" else (-1.0, 2.0))
    old = {k: cx.snap(getattr(t, k)) for k in FIELDS}
    g = tags(t)
    if how in ("to_ply_tensor", "to_ply_data"):
        s = TSnap(cx, t)
        r = getattr(t, how)()
        s.unchanged(cx, "source:")
    else:
        r = run(cx, t, lambda x, **k: x.normalize(**k), {"in place": True, "copy": False, "default": None}[how])
    kept(cx, r, old, ("means", "quats", "sh0", "shN"))
    if sc == "PLY" and op == "LINEAR":
        kept(cx, r, old, ("scales",))
    else:
        for i in range(n):
            for j in range(3):
                want_logscale(cx, cx.R(cx.nd(r.scales)[i, j]), cx.R(old["scales"][i, j]))
    if op == "PLY" and sc == "LINEAR":
        kept(cx, r, old, ("opacities",))
    else:
        for i in range(n):
            want_logit(cx, cx.R(cx.nd(r.opacities)[i]), cx.R(old["opacities"][i]))
    cx.check("tags", tags(r) == dict(g, scales="SCALES_PLY", opacities="OPACITIES_PLY"))
    cx.check("shapes", tuple(r.scales.shape) == (n, 3) and tuple(r.opacities.shape) == (n,))
    if how != "to_ply_data":
        derived(cx, r, n)
    cx.observe("scales", r.scales)
    cx.observe("opacities", r.opacities)


def h_denormalize(cx, n, deg, prov, sc, op, sym, how):
    t, d = scene(cx, n, deg, prov, sc, op, sym, (-30.0, 30.0) if sym == "scales" else (-80.0, 80.0))
    old = {k: cx.snap(getattr(t, k)) for k in FIELDS}
    g = tags(t)
    r = run(cx, t, lambda x, **k: x.denormalize(**k), {"in place": True, "copy": False, "default": None}[how])
    kept(cx, r, old, ("means", "quats", "sh0", "shN"))
    if sc == "LINEAR" and op == "PLY":
        kept(cx, r, old, ("scales",))
    else:
        for i in range(n):
            for j in range(3):
                expscale(cx, cx.R(cx.nd(r.scales)[i, j]), cx.R(old["scales"][i, j]))
    if op == "LINEAR" and sc == "PLY":
        kept(cx, r, old, ("opacities",))
    else:
        for i in range(n):
            want_sigmoid(cx, cx.R(cx.nd(r.opacities)[i]), cx.R(old["opacities"][i]))
    cx.check("tags", tags(r) == dict(g, scales="SCALES_LINEAR", opacities="OPACITIES_LINEAR"))
    derived(cx, r, n)
    cx.observe("scales", r.scales)
    cx.observe("opacities", r.opacities)


def h_colour(cx, n, deg, prov, to, how):
    F = cx.F
    t, d = scene(cx, n, deg, prov, "PLY", "PLY", "sh0", (-1000.0, 1000.0), col="SH" if to == "rgb" else "RGB")
    old = {k: cx.snap(getattr(t, k)) for k in FIELDS}
    g = tags(t)
    r = run(cx, t, lambda x, **k: (x.to_rgb if to == "rgb" else x.to_sh)(**k), {"in place": True, "copy": False, "default": None}[how])
    kept(cx, r, old, ("means", "scales", "quats", "opacities", "shN"))
    for i in range(n):
        for j in range(3):
            v, got = cx.R(old["sh0"][i, j]), cx.R(cx.nd(r.sh0)[i, j])
            w = v * F(*C0) + F(1, 2) if to == "rgb" else (v - F(1, 2)) * F(C0[1], C0[0])
            cx.close("colour", got, w, F(1, 100000) * (F(1) + cx.abs(v)), margin=F(1, 100) * (F(1) + cx.abs(v)))
    cx.check("tags", tags(r) == dict(g, sh0="SH0_RGB" if to == "rgb" else "SH0_SH"))
    derived(cx, r, n)
    cx.observe("sh0", r.sh0)


def h_inverse(cx, order, sym, inplace):
    F = cx.F
    if order == "ply":
        rng = (-9.0, 9.0)
        t, d = scene(cx, 1, 0, "base", "PLY", "PLY", sym, rng)
        anchors = [cx.exp(F(-9)), cx.exp(F(9))]
    elif order == "linear":
        t, d = scene(cx, 1, 0, "separate", "LINEAR", "LINEAR", sym, (0.00015, 90.0) if sym == "scales" else (0.00015, 0.9998))
        anchors = []
    else:
        t, d = scene(cx, 1, 0, "base", "PLY", "PLY", "sh0", (-100.0, 100.0), col="SH" if order == "sh" else "RGB")
        anchors = []
    old = cx.snap(getattr(t, sym))
    g = tags(t)
    a, b = {"ply": ("denormalize", "normalize"), "linear": ("normalize", "denormalize"), "sh": ("to_rgb", "to_sh"), "rgb": ("to_sh", "to_rgb")}[order]
    r = getattr(getattr(t, a)(inplace=inplace), b)(inplace=inplace)
    cx.check("tags", tags(r) == g)
    for x in anchors:
        cx.check("anchor", x > F(0))
        cx.assume(x > F(0))
    for u, v in zip(list(old.reshape(-1)), list(cx.nd(getattr(r, sym)).reshape(-1))):
        u, v = cx.R(u), cx.R(v)
        if (order, sym) == ("ply", "opacities"):
            # v = u, stated as exp(v) * exp(-u) = 1
            cx.close("there and back", cx.exp(v) * cx.exp(F(0) - u), F(1), F(1, 500), margin=F(1, 10))
            continue
        cx.close("there and back", v, u, F(1, 1000) + F(1, 1000) * cx.abs(u), margin=F(1, 10))
    cx.observe(sym, getattr(r, sym))


def h_agree(cx, op, sym):
    """inside the CPU container's limits both containers give the same values"""
    F = cx.F
    rng = {"scales": (-9.0, 4.5), "opacities": (-30.0, 30.0), "sh0": (-100.0, 100.0)}[sym]
    lin = {"scales": (-1.0, 90.0), "opacities": (-1.0, 2.0), "sh0": (-100.0, 100.0)}[sym]
    k = "LINEAR" if op in ("normalize", "apply_pre_deactivations") else "PLY"
    col = "RGB" if op == "to_sh" else "SH"
    t, d = scene(cx, 1, 0, "base", k, k, sym, lin if k == "LINEAR" else rng, col)
    a = [cx.exp(F(-9)), cx.exp(F(9, 2))] if sym == "scales" and k == "PLY" else []
    for x in a:
        cx.check("anchor", cx.land(x > F(0)))
        cx.assume(x > F(0))
    r, e = getattr(t, op)(inplace=False), getattr(d, op)(inplace=False)
    cx.check("tags", tags(r) == tags(e))
    for u, v in zip(list(cx.nd(getattr(r, sym)).reshape(-1)), list(getattr(e, sym).reshape(-1))):
        u, v = cx.R(u), cx.R(v)
        cx.close("same value", u, v, F(1, 1000) + F(1, 1000) * cx.abs(v), margin=F(1, 10) + F(1, 10) * cx.abs(v))
    cx.observe(sym, getattr(r, sym))


OBS = {"abs": 1e-4, "rel": 1e-3}
PROVS = ("base", "stacked", "separate", "consolidated", "sliced", "indexed", "cloned", "loaded", "strided", "colmajor")
TAGS = [("PLY", "PLY"), ("PLY", "LINEAR"), ("LINEAR", "PLY"), ("LINEAR", "LINEAR")]


def harnesses(tier):
    out = []
    th = tier != "quick"

    def add(name, harness, mode="real", **p):
        out.append(H(name, harness, p, mode=mode, obs=OBS, witnesses=2, timeout=20, torch=True, escalate=(("exact", 20),)))
    for name, fn in (("normalize", h_normalize), ("denormalize", h_denormalize)):
        hows = ("in place", "copy", "default") + (("to_ply_tensor", "to_ply_data") if name == "normalize" else ())
        for sym in ("scales", "opacities"):
            for sc, op in TAGS:
                if (sc, op) == (("PLY", "PLY") if name == "normalize" else ("LINEAR", "LINEAR")):
                    continue        # converts again, as asked
                for how in hows:
                    for prov in PROVS:
                        if not th and (sc != op and prov not in ("separate", "base") or how not in ("in place", "copy") and prov != "base"):
                            continue
                        add(f"{name}[{sym},{sc}/{op},{prov},{how}]", fn, n=2 if prov != "separate" else 1, deg=1 if prov in ("base", "sliced") else 0,
                            prov=prov, sc=sc, op=op, sym=sym, how=how)
        sc = "LINEAR" if name == "normalize" else "PLY"
        for how in hows:
            add(f"{name}[empty,{how}]", fn, n=0, deg=0, prov="stacked", sc=sc, op=sc, sym=None, how=how)
    for to in ("rgb", "sh"):
        for how in ("in place", "copy", "default"):
            for prov in PROVS:
                if th or how != "default" or prov == "base":
                    add(f"to_{to}[{prov},{how}]", h_colour, n=2 if prov != "separate" else 1, deg=1 if prov in ("base", "sliced") else 0, prov=prov, to=to, how=how)
            add(f"to_{to}[empty,{how}]", h_colour, n=0, deg=0, prov="stacked", to=to, how=how)
    for order, syms in (("ply", ("scales", "opacities")), ("linear", ("scales", "opacities")), ("sh", ("sh0",)), ("rgb", ("sh0",))):
        for sym in syms:
            for inplace in (True, False):
                add(f"inverse[{order},{sym},{inplace}]", h_inverse, mode="exact", order=order, sym=sym, inplace=inplace)
    for op, syms in (("normalize", ("scales", "opacities")), ("denormalize", ("scales", "opacities")), ("to_rgb", ("sh0",)), ("to_sh", ("sh0",))):
        for sym in syms:
            add(f"agree[{op},{sym}]", h_agree, mode="exact", op=op, sym=sym)
    return out
