"""C14: SOG bundles are decoded by the published rules, whatever the container and the metadata version."""
from engine.driver import H
from .common import BANDS, FIELDS

BOUNDS = ("1..4 Gaussians in textures of 1..6 pixels; every pixel byte of the Gaussian under test, every codebook entry and range bound "
          "(positions [-20,20] in log space, others [-100,100]) symbolic; SH degree 0..3 with palettes of 64, 65 and 128 entries; "
          "folder, .sog file and bytes; both metadata versions; each entry missing, unreadable or too small in turn")
OUTSIDE = "the WebP decoder and the ZIP and JSON readers themselves (library code), other texture sizes, metadata of other versions"
ASSUMPTIONS = ["arithmetic decided in exact reals with explicit slack for float rounding",
               "images are decoded losslessly by the image library (stand-in for symbolic pixels; the real one runs in replays)"]

C = ("means_l.webp", "means_u.webp", "quats.webp", "scales.webp", "sh0.webp", "shN_centroids.webp", "shN_labels.webp")


def fill(cx, h, w, seed=0, ch=4):
    """distinct constant pixels"""
    a = cx.np.zeros((h, w, ch), dtype=cx.np.uint8)
    for i in range(h * w):
        for c in range(ch):
            a[i // w, i % w, c] = (37 * i + 91 * c + 53 * seed + 11) % 251
    return a


def put(a, w, i, vals):
    for c, v in enumerate(vals):
        if v is not None:
            a[i // w, i % w, c] = v
    return a


def bundle(cx, ver, n, h, w, deg=0, pal=64, **o):
    """metadata and images of a bundle; o overrides parts"""
    k = BANDS[deg]
    imgs = dict(means_l=fill(cx, h, w, 1), means_u=fill(cx, h, w, 2), quats=fill(cx, h, w, 3), scales=fill(cx, h, w, 4), sh0=fill(cx, h, w, 5))
    cb = [(i - 128) / 16 for i in range(256)]
    m = dict(means=dict(mins=[-1.0, -2.0, 0.5], maxs=[1.0, 3.0, 0.5], files=list(C[:2])), quats=dict(files=[C[2]]),
             scales=dict(files=[C[3]]), sh0=dict(files=[C[4]]))
    if ver == 2:
        m = dict(version=2, count=n, **m)
        m["scales"]["codebook"] = list(cb)
        m["sh0"]["codebook"] = list(cb)
    else:
        m["means"]["shape"] = [n, 3]
        m["scales"].update(shape=[n, 3], mins=[-9.0, -8.0, -7.0], maxs=[-1.0, 2.0, 3.0])
        m["sh0"].update(shape=[n, 1, 4], mins=[-1.0, -2.0, -3.0, -5.0], maxs=[1.0, 2.0, 4.0, 6.0])
    if deg:
        imgs["shN_centroids"] = o.pop("centroids", None)
        if imgs["shN_centroids"] is None:
            imgs["shN_centroids"] = cx.np.zeros(((pal + 63) // 64, 64 * k, 4), dtype=cx.np.uint8)
        imgs["shN_labels"] = cx.np.zeros((h, w, 4), dtype=cx.np.uint8)
        m["shN"] = dict(bands=deg, count=pal, codebook=list(cb)) if ver == 2 else dict(shape=[n, k], mins=-2.0, maxs=2.0, quantization=8)
        m["shN"]["files"] = list(C[5:])
    return m, imgs


def entries(cx, m, imgs):
    e = {"meta.json": list(cx.json(m).encode())}
    for k, v in imgs.items():
        e[k + ".webp"] = cx.image(v)
    return e


def arg(cx, e, via):
    if via == "bytes":
        return cx.zip(e)
    if via == "folder":
        return cx.folder("scene", e)
    if via == "dotfolder":
        from pathlib import Path
        return Path(cx.folder("scene.sog", e)) if not cx.sym else _path(cx, cx.folder("scene.sog", e))
    name = "A.SOG" if via == "SOG" else "a.sog"
    cx.write(cx.path(name), list(cx.zip(e)))
    return cx.path(name)


def _path(cx, p):
    import pathlib
    return pathlib.Path(p)


def u8(cx, name):
    return cx.scalar(name, "u8")


def lin(cx, px, mn, mx):
    return mn + cx.R(px) / 255 * (mx - mn)


def h_means(cx, ver, n, h, w, i, k, eq):
    F = cx.F
    m, im = bundle(cx, ver, n, h, w)
    lo, hi = u8(cx, "lo"), u8(cx, "hi")
    put(im["means_l"], w, i, [lo if c == k else None for c in range(3)])
    put(im["means_u"], w, i, [hi if c == k else None for c in range(3)])
    mn = cx.scalar("mn", "f32", -20.0, 20.0)
    mx = mn if eq else cx.scalar("mx", "f32", -20.0, 20.0)
    m["means"]["mins"][k] = mn
    m["means"]["maxs"][k] = mx
    if not eq:
        cx.assume(cx.R(mn) < cx.R(mx))
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    x = cx.R(d.means[i, k])
    cx.observe("x", d.means[i, k])
    rng = F(1) if eq else cx.R(mx) - cx.R(mn)
    v = cx.R(mn) + rng * ((cx.R(lo) + 256 * cx.R(hi)) / 65535)
    # the inverse of sign(v) * ln(|v| + 1)
    t = F(1, 1000)
    cx.check("sign", cx.land(cx.implies(v > t, x > 0), cx.implies(v < -t, x < 0)))
    cx.close("magnitude", cx.log(cx.abs(x) + 1), cx.abs(v), F(1, 2000), margin=F(1, 2))


def h_quat(cx, ver, n, h, w, i, tag):
    F = cx.F
    m, im = bundle(cx, ver, n, h, w)
    p = [u8(cx, f"p{c}") for c in range(3)]
    t = u8(cx, "tag") if tag is None else tag
    if tag is None:
        cx.assume(cx.R(t) < 252)
    put(im["quats"], w, i, p + [t])
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    q = [cx.R(d.quats[i, c]) for c in range(4)]
    cx.observe("q", d.quats[i])
    if tag is None:
        for c in range(4):
            cx.check("other tags", cx.land(q[c] <= (1 if c == 3 else 0), q[c] >= (1 if c == 3 else 0)))
        return
    big = tag - 252
    s = F(7071067811865475244, 10 ** 19)
    rest = [c for c in range(4) if c != big]
    e = F(1, 100000)
    tot = F(0)
    for c, px in zip(rest, p):
        want = (cx.R(px) / 255 * 2 - 1) * s
        cx.close("small component", q[c], want, e, margin=F(1, 100))
        tot = tot + q[c] * q[c]
    cx.check("largest component is not negative", q[big] >= 0)
    over = tot - 1
    cx.check("unit length", cx.implies(over <= -e, cx.land(q[big] * q[big] + tot <= 1 + e, q[big] * q[big] + tot >= 1 - e)))
    cx.check("largest component of an overlong code", cx.implies(over >= e, q[big] <= F(0)))


def h_book(cx, n, h, w, i, k, field, size=256):
    """codebook entries are used as they are"""
    m, im = bundle(cx, 2, n, h, w)
    cb = cx.arr("cb", (size,), "f32", -100.0, 100.0)
    px = u8(cx, "px")
    key = field
    put(im[key], w, i, [px if c == k else 7 for c in range(3)])
    m[key]["codebook"] = cb
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    got = getattr(d, field)
    cx.same("entry", got[i, k], cb[px])
    for c in range(3):
        if c != k:
            cx.same("other entry", got[i, c], cb[7])
    cx.observe("v", got[i, k])


def h_linear(cx, n, h, w, i, k, field):
    m, im = bundle(cx, 3, n, h, w)
    key = "scales" if field == "scales" else "sh0"
    mn, mx = cx.scalar("mn", "f32", -100.0, 100.0), cx.scalar("mx", "f32", -100.0, 100.0)
    px = u8(cx, "px")
    put(im[key], w, i, [px if c == k else None for c in range(4)])
    m[key]["mins"][k] = mn
    m[key]["maxs"][k] = mx
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    got = d.opacities[i] if field == "opacities" else getattr(d, field)[i, k]
    cx.close("value", cx.R(got), lin(cx, px, cx.R(mn), cx.R(mx)), cx.F(1, 5000), margin=cx.F(1, 2))
    cx.observe("v", got)


def h_opacity(cx, n, h, w, i):
    F = cx.F
    m, im = bundle(cx, 2, n, h, w)
    px = u8(cx, "px")
    put(im["sh0"], w, i, [None, None, None, px])
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    op = cx.R(d.opacities[i])
    y = cx.clamp(cx.R(px) / 255, F(1, 10 ** 6), 1 - F(1, 10 ** 6))
    cx.observe("op", d.opacities[i])
    # logit(y), through its inverse, and where that is too flat, through brackets of the value
    cx.close("odds", cx.exp(op) * (1 - y), y, F(1, 2000000), margin=F(1, 100))


def h_opaque(cx, ver, n, h, w):
    """images without an alpha channel are opaque"""
    F = cx.F
    m, im = bundle(cx, ver, n, h, w)
    for k in im:
        im[k] = fill(cx, h, w, 9, ch=3)
    px = u8(cx, "px")
    put(im["scales"], w, n - 1, [px])
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    for i in range(n):
        if ver == 2:
            cx.check("opacity", cx.R(d.opacities[i]) >= F(138, 10))
        else:
            cx.close("opacity", cx.R(d.opacities[i]), F(6), F(1, 1000))
        cx.check("last quaternion component is rebuilt", cx.R(d.quats[i, 3]) >= 0)
    cx.observe("s", d.scales)
    want = lin(cx, px, F(-9), F(-1)) if ver == 3 else (cx.R(px) - 128) / 16
    cx.close("scale", cx.R(d.scales[n - 1, 0]), want, F(1, 10000))


def h_sh(cx, ver, n, h, w, deg, pal, i, label, j, k):
    """one coefficient of one palette entry"""
    F = cx.F
    kk = BANDS[deg]
    cent = cx.np.zeros(((pal + 63) // 64, 64 * kk, 4), dtype=cx.np.uint8)
    m, im = bundle(cx, ver, n, h, w, deg, pal, centroids=cent)
    px = u8(cx, "px")
    inside = label < (pal if ver == 2 else (pal + 63) // 64 * 64)
    if label < (pal + 63) // 64 * 64:
        cent[label // 64, (label % 64) * kk + j, k] = px
    put(im["shN_labels"], w, i, [label & 255, label >> 8, 77, 200])
    if ver == 2:
        cb = cx.arr("cb", (256,), "f32", -100.0, 100.0)
        m["shN"]["codebook"] = cb
    else:
        mn, mx = cx.scalar("mn", "f32", -100.0, 100.0), cx.scalar("mx", "f32", -100.0, 100.0)
        m["shN"]["mins"], m["shN"]["maxs"] = mn, mx
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    cx.check("shape", tuple(d.shN.shape) == (n, kk, 3))
    for jj in range(kk):
        for c in range(3):
            v = d.shN[i, jj, c]
            if not inside:
                cx.check("unused label gives zero", cx.land(cx.R(v) <= F(0), cx.R(v) >= F(0)))
            elif ver == 2:
                u, w_ = cx.R(v), cx.R(cb[px] if (jj, c) == (j, k) else cb[0])
                cx.check("entry", cx.land(u <= w_, w_ <= u))
            else:
                q = px if (jj, c) == (j, k) else 0
                cx.close("value", cx.R(v), lin(cx, q, cx.R(mn), cx.R(mx)) if (jj, c) == (j, k) else cx.R(mn), F(1, 5000), margin=F(1, 2))
    cx.observe("v", d.shN[i, j, k])


def h_label(cx, ver, n, h, w, pal, hi):
    """every value of the two label bytes"""
    F = cx.F
    rows = (pal + 63) // 64
    cent = cx.np.zeros((rows, 64 * 3, 4), dtype=cx.np.uint8)
    for l in range(64 * rows):
        cent[l // 64, (l % 64) * 3 + 1, 2] = l + 1
    m, im = bundle(cx, ver, n, h, w, 1, pal, centroids=cent)
    lo = u8(cx, "lo")
    put(im["shN_labels"], w, n - 1, [lo, hi])
    if ver == 2:
        m["shN"]["codebook"] = [float(x) for x in range(256)]
    else:
        m["shN"]["mins"], m["shN"]["maxs"] = 0.0, 255.0
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    lim = pal if ver == 2 else 64 * rows
    l = cx.R(lo) + 256 * hi
    v = cx.R(d.shN[n - 1, 1, 2])
    cx.check("palette entry", cx.land(cx.implies(l < lim, cx.land(v <= l + 1 + F(1, 1000), v >= l + 1 - F(1, 1000))),
                                      cx.implies(l >= lim, cx.land(v <= F(0), v >= F(0)))))
    cx.observe("v", d.shN[n - 1, 1, 2])


def h_rows(cx, ver, n, h, w, deg):
    """each Gaussian takes its own pixel, in row order"""
    m, im = bundle(cx, ver, n, h, w, deg)
    px = [u8(cx, f"px{i}") for i in range(n)]
    for i in range(n):
        put(im["scales"], w, i, [None, px[i]])
        put(im["sh0"], w, i, [None, None, px[i]])
        put(im["quats"], w, i, [None, None, px[i], 252])
        put(im["means_u"], w, i, [px[i]])
        put(im["means_l"], w, i, [0])
    m["means"]["mins"][0], m["means"]["maxs"][0] = 0.0, 65535.0 / 65536
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), "bytes"))
    F = cx.F
    cx.check("count", len(d) == n and tuple(d.means.shape) == (n, 3) and tuple(d.scales.shape) == (n, 3) and tuple(d.quats.shape) == (n, 4)
             and tuple(d.opacities.shape) == (n,) and tuple(d.sh0.shape) == (n, 3))
    for i in range(n):
        p = cx.R(px[i])
        s = (p - 128) / 16 if ver == 2 else F(-8) + p / 255 * 10
        c = (p - 128) / 16 if ver == 2 else F(-3) + p / 255 * 7
        cx.close("scale", cx.R(d.scales[i, 1]), s, F(1, 10000))
        cx.close("colour", cx.R(d.sh0[i, 2]), c, F(1, 10000))
        cx.close("rotation", cx.R(d.quats[i, 3]), (p / 255 * 2 - 1) * F(70710678, 10 ** 8), F(1, 10000))
        cx.close("position", cx.log(cx.R(d.means[i, 0]) + 1), p / 256, F(1, 10000))
    cx.observe("scales", d.scales)


def h_tags(cx, ver, deg, via):
    m, im = bundle(cx, ver, 2, 1, 2, deg)
    px = u8(cx, "px")
    put(im["scales"], 2, 0, [px])
    d = cx.gs.sogread(arg(cx, entries(cx, m, im), via))
    cx.check("type", type(d) is cx.gs.GSData)
    cx.check("degree", d.get_sh_degree() == deg)
    cx.check("tags", d.is_scales_ply and d.is_opacities_ply and d.is_sh0_sh and not d.is_scales_linear and not d.is_opacities_linear and not d.is_sh0_rgb)
    cx.check("sh order", (d.is_sh_order_0, d.is_sh_order_1, d.is_sh_order_2, d.is_sh_order_3) == tuple(deg == x for x in range(4)))
    f32 = cx.np.float32
    for f in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        a = getattr(d, f)
        if a is not None:
            cx.check("float32 " + f, a.dtype == f32)
    cx.check("coefficients", tuple(d.shN.shape) == (2, BANDS[deg], 3) if d.shN is not None else deg == 0)
    cx.check("masks", tuple(d.masks.shape)[0] == 2 and d.masks.dtype == cx.np.bool_ and bool(d.masks.all()))
    cx.check("value", cx.R(d.scales[0, 0]) <= cx.F(100))
    cx.observe("s", d.scales)


def h_container(cx, ver, deg, via):
    """every container gives the same scene"""
    m, im = bundle(cx, ver, 2, 2, 2, deg)
    for k in im:
        if not k.startswith("shN_c"):
            put(im[k], 2, 1, [u8(cx, f"{k}{c}") for c in range(4)])
    e = entries(cx, m, im)
    a = cx.gs.sogread(arg(cx, e, "bytes"))
    b = cx.gs.sogread(arg(cx, e, via))
    for f in ("means", "scales", "quats", "opacities", "sh0", "shN", "masks"):
        cx.same(f, getattr(a, f), getattr(b, f))
    cx.check("tags", a._format == b._format)
    cx.observe("means", a.means)


def h_missing(cx, ver, deg, via, name):
    m, im = bundle(cx, ver, 2, 1, 2, deg)
    put(im["scales"], 2, 0, [u8(cx, "px")])
    e = entries(cx, m, im)
    cx.check("is there", name in e)
    del e[name]
    a = arg(cx, e, via)
    cx.raises("missing entry", lambda: cx.gs.sogread(a))


def h_small(cx, ver, name, h, w, n):
    """a texture with fewer pixels than Gaussians"""
    m, im = bundle(cx, ver, n, 2, 2, 1)
    im[name] = fill(cx, h, w, 4)
    im[name][0, 0, 0] = u8(cx, "px")
    e = entries(cx, m, im)
    a = arg(cx, e, "bytes")
    k, _ = cx.outcome(lambda: cx.gs.sogread(a))
    cx.check("accepted exactly when there are enough pixels", (k == "ok") == (h * w >= n))
    if k != "ok":
        cx.raises("error type", lambda: cx.gs.sogread(a))


def h_garbage(cx, ver, what):
    m, im = bundle(cx, ver, 2, 1, 2, 1)
    px = u8(cx, "px")
    put(im["scales"], 2, 0, [px])
    e = entries(cx, m, im)
    if what == "zip":
        a = list(cx.zip(e))[:40]
        a = bytes(a)
    elif what == "nofile":
        a = cx.path("nothing.sog")
    elif what == "file":
        cx.write(cx.path("a.bin"), list(b"xyz"))
        a = cx.path("a.bin")
    elif what == "meta":
        e["meta.json"] = list(b"{]")
        a = cx.zip(e)
    else:
        e[what] = list(b"not an image")
        a = cx.zip(e)
    cx.raises("invalid input", lambda: cx.gs.sogread(a))


def h_short_book(cx, field, size, k, i):
    """labels beyond a codebook never yield values from outside the file"""
    m, im = bundle(cx, 2, 2, 1, 2)
    cb = cx.arr("cb", (size,), "f32", -100.0, 100.0)
    px = u8(cx, "px")
    for r in range(2):
        put(im[field], 2, r, [0, 0, 0])
    put(im[field], 2, i, [px if c == k else 0 for c in range(3)])
    m[field]["codebook"] = cb
    a = arg(cx, entries(cx, m, im), "bytes")
    st, d = cx.outcome(lambda: cx.gs.sogread(a))
    ok = cx.R(px) < size
    if st == "ok":
        v = getattr(d, field)[i, k]
        cx.check("accepted only inside the codebook", ok)
        cx.check("inside", cx.lor(*[cx.eq(v, cb[x]) for x in range(size)]))
        cx.observe("v", v)
    else:
        cx.check("rejected only outside the codebook", cx.lnot(ok))
        cx.check("error type", d == "ValueError")


def h_short_range(cx, field, key, size):
    m, im = bundle(cx, 3, 2, 1, 2)
    need = 3 if field == "scales" else 4
    m[field][key] = (m[field][key] + [1.0, 2.0])[:size]
    put(im[field], 2, 0, [u8(cx, "px")])
    a = arg(cx, entries(cx, m, im), "bytes")
    st, d = cx.outcome(lambda: cx.gs.sogread(a))
    cx.check("accepted exactly when every channel has a bound", (st == "ok") == (size >= need))
    if st != "ok":
        cx.check("error type", d == "ValueError")


def harnesses(tier):
    out = []
    th = tier == "thorough"

    def add(fn, tag_, mode="exact", **p):
        out.append(H(f"{fn.__name__[2:]}:{tag_}", fn, p, mode=mode, budget=60, timeout=20, obs={} if mode == "exact" else "exact"))

    geo = [(1, 1, 1, 0), (2, 1, 2, 1), (3, 2, 2, 2), (4, 2, 3, 3), (4, 3, 2, 1)]
    for ver in (2, 3):
        for k in range(3):
            n, h, w, i = geo[(k + ver) % len(geo)]
            for eq in (False, True):
                add(h_means, f"v{ver}-{k}-{eq}", ver=ver, n=n, h=h, w=w, i=i, k=k, eq=eq)
        for t in (252, 253, 254, 255, None):
            n, h, w, i = geo[(t or 1) % len(geo)]
            add(h_quat, f"v{ver}-{t}", ver=ver, n=n, h=h, w=w, i=i, tag=t)
        for g in geo if th else geo[2:4]:
            add(h_rows, f"v{ver}-{g}", ver=ver, n=g[0], h=g[1], w=g[2], deg=g[0] % 2)
        for n in (1, 3):
            add(h_opaque, f"v{ver}-{n}", ver=ver, n=n, h=2, w=2)
        for deg in range(4):
            for via in ("bytes", "folder", "sog"):
                add(h_tags, f"v{ver}-{deg}-{via}", ver=ver, deg=deg, via=via)
        for deg in (0, 1):
            for via in ("folder", "dotfolder", "sog", "SOG"):
                add(h_container, f"v{ver}-{deg}-{via}", ver=ver, deg=deg, via=via)
        for via in ("bytes", "folder", "sog"):
            for nm in ("meta.json",) + C:
                add(h_missing, f"v{ver}-{via}-{nm}", ver=ver, deg=1, via=via, name=nm)
        for nm in ("means_l", "means_u", "quats", "scales", "sh0", "shN_labels"):
            for h, w, n in ((1, 2, 3), (1, 3, 4), (2, 2, 4), (3, 1, 3)):
                add(h_small, f"v{ver}-{nm}-{h}x{w}-{n}", ver=ver, name=nm, h=h, w=w, n=n)
        for what in ("zip", "nofile", "file", "meta") + C:
            add(h_garbage, f"v{ver}-{what}", ver=ver, what=what)
        for pal in (1, 64, 65, 128) if ver == 2 else (64, 128):
            for hi in (0, 1, 255):
                add(h_label, f"v{ver}-{pal}-{hi}", ver=ver, n=3, h=2, w=2, pal=pal, hi=hi)
    for ver in (2, 3):
        cases = [(1, 64, 0, 0, 0), (1, 64, 63, 2, 1), (1, 64, 64, 1, 1), (2, 65, 64, 7, 2), (3, 128, 65, 14, 1), (3, 128, 127, 0, 2), (2, 128, 300, 1, 0),
                 (1, 1088, 1087, 1, 2), (1, 70, 69, 0, 0), (1, 70, 70, 0, 0)]
        if th:
            cases += [(d, 128, l, j, k) for d in (1, 2, 3) for l in (1, 62, 66, 100) for j in range(BANDS[d]) for k in range(3)]
        for x, (deg, pal, label, j, k) in enumerate(cases):
            n, h, w, i = geo[x % len(geo)]
            add(h_sh, f"v{ver}-{deg}-{pal}-{label}-{j}-{k}", ver=ver, n=n, h=h, w=w, deg=deg, pal=pal, i=i, label=label, j=j, k=k)
    for field in ("scales", "sh0"):
        for k in range(3):
            n, h, w, i = geo[k + 1]
            add(h_book, f"{field}-{k}", mode="uf", n=n, h=h, w=w, i=i, k=k, field=field)
            add(h_linear, f"{field}-{k}", n=n, h=h, w=w, i=i, k=k, field=field)
            for size in (1, 5, 255):
                add(h_short_book, f"{field}-{k}-{size}", mode="uf", field=field, size=size, k=k, i=k % 2)
        for key in ("mins", "maxs"):
            for size in (1, 2, 3, 4, 5):
                add(h_short_range, f"{field}-{key}-{size}", field=field, key=key, size=size)
    for n, h, w, i in geo[:3]:
        add(h_linear, f"opacities-{n}", n=n, h=h, w=w, i=i, k=3, field="opacities")
        add(h_opacity, f"{n}", n=n, h=h, w=w, i=i)
    return out
