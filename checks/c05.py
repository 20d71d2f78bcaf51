"""C05: what a compressed file gives back is within the quantisation error of what was saved."""
from engine.driver import H
from .common import BANDS

BOUNDS = ("one component symbolic at a time: N in {1,2,3} with every row symbolic, N in {256,257,513} with the rows at the chunk edges symbolic; "
          "|means|<=1000, log scales in [-30,30], |sh0|<=20, |opacity logit|<=30, |shN|<=10, quaternion components in [-10,10] with one of them "
          "the largest; SH degree 0..3; four write/read paths")
OUTSIDE = "NaN/infinite inputs, magnitudes above the stated ranges, larger N (packing is per row, chunk bounds per 256 rows)"
ASSUMPTIONS = ["library exp/log accurate to a few ulp, otherwise known through monotonicity, inverse, tangents and secants only",
               "float rounding modelled by error bounds (covers fastmath contraction); where the solver cannot decide with them, by exact reals"]


def through(cx, d, via):
    gs = cx.gs
    if via == "file":
        p = cx.path("a.compressed.ply")
        gs.plywrite(p, d)
        return gs.plyread(p)
    if via == "flag":
        gs.plywrite(cx.path("a.ply"), d, compressed=True)
        return gs.plyread(cx.path("a.compressed.ply"))
    if via == "save":
        d.save(cx.path("a.ply_compressed"))
        return gs.GSData.load(cx.path("a.ply_compressed"))
    return gs.decompress_from_bytes(gs.compress_to_bytes(d))


RANGES = dict(means=(-1000.0, 1000.0), scales=(-30.0, 30.0), sh0=(-20.0, 20.0))
C0 = (28209479177387814, 10 ** 17)


def base(cx, n, **kw):
    z = cx.np.zeros
    f32 = cx.np.float32
    f = dict(means=z((n, 3), dtype=f32), scales=z((n, 3), dtype=f32), quats=cx.carr([[1, 0, 0, 0]] * n),
             opacities=z((n,), dtype=f32), sh0=z((n, 3), dtype=f32), shN=None)
    f.update(kw)
    return cx.gs.GSData.from_arrays(**f, format="ply")


def h_linear(cx, n, via, field, k, rows):
    """positions, scales (clamped to [-20,20]) and colours: half a step of the chunk's range"""
    F = cx.F
    a = cx.np.zeros((n, 3), dtype=cx.np.float32)
    lo, hi = RANGES[field]
    x = cx.arr(field, (len(rows),), "f32", lo, hi)
    for i in range(n):
        # other rows repeat the first symbolic row of their chunk
        j = max([r for r in range(len(rows)) if rows[r] <= i and rows[r] // 256 == i // 256], default=None)
        if i in rows:
            j = rows.index(i)
        else:
            j = next(r for r in range(len(rows)) if rows[r] // 256 == i // 256)
        a[i, k] = x[j]
    e = through(cx, base(cx, n, **{field: a}), via)
    cx.check("count", len(e) == n)
    dec = getattr(e, field)
    lev = 255 if field == "sh0" else (1023 if k == 1 else 2047)
    for c in sorted({r // 256 for r in rows}):
        js = [j for j in range(len(rows)) if rows[j] // 256 == c]
        v = [cx.R(x[j]) for j in js]
        if field == "scales":
            v = [cx.clamp(u, F(-20), F(20)) for u in v]
        lo = hi = v[0]
        for u in v[1:]:
            lo, hi = cx.min(lo, u), cx.max(hi, u)
        rng = hi - lo
        slack = (cx.abs(lo) + cx.abs(hi)) * F(1, 500000) + F(1, 500000)
        for j, u in zip(js, v):
            cx.close("value", cx.R(dec[rows[j], k]), u, rng * F(1, 2 * lev) + slack, margin=rng * F(1, lev) + F(1, 1000))
    for i in (0, n - 1):
        for kk in range(3):
            if kk != k:
                cx.close("other components", cx.R(dec[i, kk]), F(0), F(1, 100000), margin=F(1, 1000))
    cx.observe(field, dec)


def h_opacity(cx, n, via, part):
    """linear opacity moves by at most half of 1/255 (codes 0 and 255 come back as logit -10 and 10)"""
    F = cx.F
    op = cx.np.zeros((n,), dtype=cx.np.float32)
    x = cx.scalar("opacity", "f32", *part)
    op[n - 1] = x
    e = through(cx, base(cx, n, opacities=op), via)
    a, b = cx.R(x), cx.R(e.opacities[n - 1])
    ea, eb = cx.exp(F(0) - a), cx.exp(F(0) - b)
    # 255*|sigmoid(a) - sigmoid(b)| <= 0.51
    d = F(255) / (F(1) + ea) - F(255) / (F(1) + eb)
    cx.check("opacity", cx.land(d <= F(51, 100), -d <= F(51, 100)), cx.land(d <= F(2), -d <= F(2)))
    cx.observe("opacities", e.opacities)


def h_quat(cx, n, via, big, neg):
    """rotation up to sign and length"""
    F = cx.F
    q = cx.carr([[1, 0, 0, 0]] * n)
    x = cx.arr("quats", (4,), "f32", -10.0, 10.0)
    w = [cx.R(x[j]) for j in range(4)]
    for j in range(4):
        q[n - 1, j] = x[j]
    norm = cx.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + w[3] * w[3])
    cx.assume(norm >= F(1, 100))
    s = F(-1) if neg else F(1)
    u = [s * v / norm for v in w]
    for j in range(4):
        if j != big:
            cx.assume(cx.land(u[j] < u[big], -u[j] < u[big]))
            cx.assume(cx.land(u[j] <= F(70711, 100000), -u[j] <= F(70711, 100000)))     # follows from the two lines above
    e = through(cx, base(cx, n, quats=q), via)
    r = [cx.R(e.quats[n - 1, j]) for j in range(4)]
    for j in range(4):
        if j != big:
            d = r[j] - u[j]
            t = F(1, 1400)
            cx.check("component", cx.land(d <= t, -d <= t), cx.land(d <= t * 10, -d <= t * 10))
    cx.observe("quats", e.quats)


def h_sh(cx, n, deg, via):
    F = cx.F
    K = BANDS[deg]
    sh = cx.arr("shN", (n, K, 3), "f32", -10.0, 10.0)
    orig = cx.snap(sh)
    e = through(cx, base(cx, n, shN=sh), via)
    cx.check("degree", e.get_sh_degree() == deg)
    cx.check("shape", e.shN.shape == (n, K, 3))
    for i in range(n):
        for k in range(K):
            for c in range(3):
                v = cx.clamp(cx.R(orig[i, k, c]), F(-4), F(4))
                cx.close("shN", cx.R(e.shN[i, k, c]), v, F(1, 64) + F(1, 100000), margin=F(1, 50))
    cx.observe("shN", e.shN)


OBS = {"int": 1, "abs": 1e-2, "rel": 1e-2}
VIAS = ("file", "flag", "save", "bytes")


def harnesses(tier):
    out = []

    def add(name, fn, mode="exact", **p):
        out.append(H(name, fn, p, mode=mode, obs=OBS, witnesses=2, timeout=20, escalate=(), int_relax=fn is not h_sh))
    for f in ("means", "scales", "sh0"):
        for k in range(3):
            for n in (1, 2, 3):
                add(f"{f}[{k},n={n},file]", h_linear, n=n, via="file", field=f, k=k, rows=list(range(n)))
            for via in VIAS[1:]:
                add(f"{f}[{k},n=2,{via}]", h_linear, n=2, via=via, field=f, k=k, rows=[0, 1])
        for n, rows in ((256, (0, 255)), (257, (0, 255, 256)), (513, (0, 256, 512))):
            add(f"{f}[0,n={n},bytes]", h_linear, n=n, via="bytes", field=f, k=0, rows=list(rows))
    for via in VIAS:
        for part in ((-30.0, -7.0), (-7.0, 7.0), (7.0, 30.0)):
            add(f"opacity[n=1,{via},{part[0]}..{part[1]}]", h_opacity, n=1, via=via, part=part)
        for deg in (1, 2, 3):
            add(f"sh[deg={deg},{via}]", h_sh, n=1, deg=deg, via=via)
    for via in VIAS[:1] if tier == "quick" else VIAS:
        for n in (1, 2):
            for big in range(4):
                for neg in (0, 1):
                    add(f"quat[{big},{'-' if neg else '+'},n={n},{via}]", h_quat, n=n, via=via, big=big, neg=neg)
    return out
