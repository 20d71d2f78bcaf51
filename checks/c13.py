"""C13: colour conversions SH <-> RGB."""
from engine.driver import H
from .common import FIELDS, Snap, fields, same_shn, tags, with_prov

BOUNDS = ("scalars (float, float32, int), arrays of shapes (0,3), (1,3), (2,3), (4,), (2,2,3) in float32/float64, (2,3) in five integer dtypes, contiguous and strided; containers of 0..3 "
          "Gaussians (thorough 5), SH degree 0 and 1, of 8 provenances, with and without mask layers, in place and into a new object; "
          "|values| <= 1000")
OUTSIDE = "NaN and infinite values, larger scenes (the conversion is element by element)"
ASSUMPTIONS = ["float rounding modelled by error bounds, which also covers fastmath contraction"]

C0 = (28209479177387814, 10 ** 17)


def to_rgb(cx, v):
    return v * cx.F(*C0) + cx.F(1, 2)


def to_sh(cx, v):
    return (v - cx.F(1, 2)) * cx.F(C0[1], C0[0])


WANT = {"sh2rgb": to_rgb, "rgb2sh": to_sh, "to_rgb": to_rgb, "to_sh": to_sh}


def near(cx, label, got, want):
    cx.close(label, got, want, cx.F(1, 1000000) + cx.abs(want) * cx.F(1, 500000), margin=cx.F(1, 100))


def flat(a):
    return list(a.reshape(-1))


def h_fn(cx, fn, shape, dt, how):
    np = cx.np
    x = cx.arr("x", shape, dt, -1000.0, 1000.0)
    if how == "strided":
        x = x.repeat(2, axis=0)[::2]
    s = cx.snap(x)
    y = getattr(cx.gs, fn)(x)
    cx.check("shape", y.shape == tuple(shape))
    cx.check("dtype", y.dtype == x.dtype)
    for a, b in zip(flat(s), flat(y)):
        near(cx, "value", cx.R(b), WANT[fn](cx, cx.R(a)))
    cx.same("argument unchanged", x, s)
    back = getattr(cx.gs, "rgb2sh" if fn == "sh2rgb" else "sh2rgb")(y)
    for a, b in zip(flat(s), flat(back)):
        cx.close("there and back", cx.R(b), cx.R(a), cx.F(1, 100000) + cx.abs(cx.R(a)) * cx.F(1, 100000), margin=cx.F(1, 100))
    cx.observe("y", y)


def h_int(cx, fn, shape, dt, how):
    """arrays of whole numbers mean the numbers they hold"""
    np = cx.np
    x = cx.arr("x", shape, dt)
    if dt != "u8":
        for a in flat(x):
            cx.assume(cx.land(a >= -1000, a <= 1000))
    if how == "strided":
        x = x.repeat(2, axis=0)[::2]
    s = cx.snap(x)
    y = getattr(cx.gs, fn)(x)
    cx.check("shape", y.shape == tuple(shape))
    cx.check("floating result", np.issubdtype(y.dtype, np.floating))
    for a, b in zip(flat(s), flat(y)):
        near(cx, "value", cx.R(b), WANT[fn](cx, cx.R(a)))
    cx.same("argument unchanged", x, s)
    back = getattr(cx.gs, "rgb2sh" if fn == "sh2rgb" else "sh2rgb")(y)
    for a, b in zip(flat(s), flat(back)):
        cx.close("there and back", cx.R(b), cx.R(a), cx.F(1, 100000) + cx.abs(cx.R(a)) * cx.F(1, 100000), margin=cx.F(1, 100))
    cx.observe("y", y)


def h_scalar(cx, fn, kind):
    x = cx.int("x", -100, 100) if kind == "int" else cx.scalar("x", "f64" if kind == "float" else "f32", -1000.0, 1000.0)
    y = getattr(cx.gs, fn)(x)
    near(cx, "value", cx.R(y), WANT[fn](cx, cx.R(x)))
    cx.observe("y", y)


def h_data(cx, op, n, deg, prov, inplace, masks):
    """only the colours change, by the formula; the tag follows"""
    gs, np = cx.gs, cx.np
    from gsply.gsdata import DataFormat
    f = fields(cx, n, deg, ranges=dict(sh0=(-1000.0, 1000.0)))
    d = gs.GSData.from_arrays(**f, format="ply", sh0_format=DataFormat.SH0_SH if op == "to_rgb" else DataFormat.SH0_RGB)
    if prov != "read":
        d = with_prov(cx, d, prov)
    else:
        e = with_prov(cx, d.with_format(sh0=DataFormat.SH0_SH), prov)
        d = e.with_format(sh0=DataFormat.SH0_SH if op == "to_rgb" else DataFormat.SH0_RGB)
    d.masks, d.mask_names = None, None
    if masks:
        d.add_mask_layer("a", cx.arr("m", (n,), "bool"))
    old = {k: cx.snap(getattr(d, k)) for k in FIELDS}
    m = cx.snap(d.masks)
    t = tags(d)
    s = None if inplace else Snap(cx, d)
    other = None if not inplace else d.copy()
    default = inplace is None
    r = getattr(d, op)() if default else getattr(d, op)(inplace=inplace)
    if inplace is False:
        cx.check("new object", r is not d)
        s.unchanged(cx, "source:")
    else:
        cx.check("same object", r is d)
    cx.check("rows", r.sh0.shape == (n, 3) and r.sh0.dtype == np.float32)
    for a, b in zip(flat(old["sh0"]), flat(r.sh0)):
        near(cx, "colour", cx.R(b), WANT[op](cx, cx.R(a)))
    for k in ("means", "scales", "quats", "opacities"):
        cx.same(k + " kept", getattr(r, k), old[k])
    same_shn(cx, "shN kept", r.shN, old["shN"])
    cx.same("masks kept", r.masks, m)
    cx.check("names kept", r.mask_names == (["a"] if masks else None))
    want = dict(t, sh0="SH0_RGB" if op == "to_rgb" else "SH0_SH")
    cx.check("tags", tags(r) == want)
    cx.check("queries", r.is_sh0_rgb == (op == "to_rgb") and r.is_sh0_sh == (op == "to_sh"))
    if other is not None:
        o = getattr(other, op)(inplace=False)
        for a, b in zip(flat(r.sh0), flat(o.sh0)):
            cx.close("both forms agree", cx.R(a), cx.R(b), cx.F(1, 100000) + cx.abs(cx.R(b)) * cx.F(1, 100000), margin=cx.F(1, 100))
    back = getattr(r, "to_sh" if op == "to_rgb" else "to_rgb")(inplace=False)
    for a, b in zip(flat(old["sh0"]), flat(back.sh0)):
        cx.close("there and back", cx.R(b), cx.R(a), cx.F(1, 100000) + cx.abs(cx.R(a)) * cx.F(1, 100000), margin=cx.F(1, 100))
    cx.check("tags back", tags(back) == t)
    cx.observe("sh0", r.sh0)


OBS = {"abs": 1e-4, "rel": 1e-5}
PROVS = ("fresh", "consolidated", "read", "sliced", "stepped", "strided", "fortran", "flipped")


def harnesses(tier):
    out = []

    def add(name, harness, **p):
        out.append(H(name, harness, p, mode="real", obs=OBS, witnesses=2, timeout=20, escalate=(("exact", 20),)))
    for fn in ("sh2rgb", "rgb2sh"):
        for shape in ((0, 3), (1, 3), (2, 3), (4,), (2, 2, 3)):
            for dt in ("f32", "f64"):
                for how in ("c", "strided"):
                    if how == "strided" and shape[0] < 2:
                        continue
                    add(f"{fn}[{shape},{dt},{how}]", h_fn, fn=fn, shape=shape, dt=dt, how=how)
        for dt in ("u8", "i8", "u16", "i32", "i64"):
            for how in ("c", "strided"):
                add(f"{fn}[(2, 3),{dt},{how}]", h_int, fn=fn, shape=(2, 3), dt=dt, how=how)
        for kind in ("float", "f32", "int"):
            add(f"{fn}[scalar {kind}]", h_scalar, fn=fn, kind=kind)
    for op in ("to_rgb", "to_sh"):
        for inplace in (True, False, None):
            for prov in PROVS:
                for n in (0, 1, 3) if tier == "quick" else (0, 1, 2, 3, 5):
                    if n != 3 and inplace is None or n == 0 and prov in ("stepped", "strided"):
                        continue
                    add(f"{op}[{prov},n={n},{'in place' if inplace else 'default' if inplace is None else 'copy'}]", h_data, op=op, n=n,
                        deg=1 if n == 3 else 0, prov=prov, inplace=inplace, masks=n != 1)
    return out
