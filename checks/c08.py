"""C08: concatenation."""
from engine.driver import H
from .common import BANDS, FIELDS, Snap, fields, layers2d, observe, ply_tags, same_fields, tags, with_prov

BOUNDS = ("2 or 3 scenes of 0..3 Gaussians, every float32 bit pattern of every field and every mask bit symbolic; SH degree 0-3; provenances "
          "fresh/consolidated/read/sliced in all pairs, column-major and backward views in five pairs; mask layouts none, (N,), (N,) named, (N,1), (N,2), (N,3) in all pairs; all five entry "
          "points (add, +, reflected +/sum, concatenate, chained); every single-tag and degree mismatch")
OUTSIDE = "larger scenes; non-float32 fields; SH arrays whose coefficient count is not that of degree 0-3"

MASKS = {"none": (None, None), "1d": (1, None), "1dn": (1, ["a"]), "2x1": ("c1", ["a"]), "2x2": (2, ["a", "b"]), "2x2u": (2, None),
         "2x3": (3, ["p", "q", "r"])}


def put_masks(cx, d, kind, pre):
    w, names = MASKS[kind]
    n = len(d)
    if w is None:
        d.masks, d.mask_names = None, None
        return
    if w == 1:
        d.masks = cx.arr(pre + "mask", (n,), "bool")
    else:
        d.masks = cx.arr(pre + "mask", (n, 1 if w == "c1" else w), "bool")
    d.mask_names = None if names is None else [x for x in names]


def scene(cx, n, deg, pre, prov, masks, fmt="ply", shn="empty"):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg, pre, shn=shn), format=fmt)
    d = with_prov(cx, d, prov, deg, pre)
    put_masks(cx, d, masks, pre)
    return d


def cat(cx, parts):
    """row-wise concatenation of snapshots"""
    np = cx.np
    out = {}
    for k in FIELDS:
        vs = [p[k] for p in parts]
        if any(v is None or (k == "shN" and v.shape[1] == 0) for v in vs):
            out[k] = None
        else:
            out[k] = np.concatenate(vs, axis=0)
    return out


def want_masks(cx, snaps, lens):
    """(layers, names) of a two-scene add"""
    np = cx.np
    (ma, na), (mb, nb) = [(layers2d(s.masks), s.names) for s in snaps]
    if ma is None and mb is None:
        return None, None
    if ma is not None and mb is not None:
        if ma.shape[1] != mb.shape[1]:
            return None, None
        return np.concatenate([ma, mb], axis=0), na if na is not None else nb
    if ma is not None:
        return np.concatenate([ma, np.zeros((lens[1], ma.shape[1]), dtype=bool)], axis=0), na
    return np.concatenate([np.zeros((lens[0], mb.shape[1]), dtype=bool), mb], axis=0), nb


def h_add(cx, na, nb, deg, pa, pb, ma, mb, op):
    gs = cx.gs
    shn = "none" if op == "add_none" else "empty"
    a = scene(cx, na, deg, "a", pa, ma, shn=shn)
    b = scene(cx, nb, deg, "b", pb, mb)
    sa, sb = Snap(cx, a), Snap(cx, b)
    if op in ("add", "add_none"):
        r = a.add(b)
    elif op == "plus":
        r = a + b
    elif op == "concat":
        r = gs.GSData.concatenate([a, b])
    elif op == "sum":
        r = sum([a, b])
    cx.check("length", len(r) == na + nb)
    cx.check("degree", r.get_sh_degree() == deg)
    same_fields(cx, "rows:", r, cat(cx, [sa.vals, sb.vals]))
    if op == "concat":
        cx.check("no masks", r.masks is None and r.mask_names is None)
    else:
        m, names = want_masks(cx, (sa, sb), (na, nb))
        cx.same("mask layers", layers2d(r.masks), m)
        cx.check("mask names", (None if r.mask_names is None else list(r.mask_names)) == names)
        if r.masks is not None:
            cx.observe("masks", r.masks)
    cx.check("tags", tags(r) == sa.tags)
    observe(cx, "r:", r)
    # the result is new data: writing to it leaves the inputs alone
    if na + nb:
        r.means[:] = cx.scalar("w1")
        r.scales[:] = cx.scalar("w2")
        r.quats[:] = cx.scalar("w3")
        r.opacities[:] = cx.scalar("w4")
        r.sh0[:] = cx.scalar("w5")
        if r.shN is not None:
            r.shN[:] = cx.scalar("w6")
        if r.masks is not None:
            r.masks[:] = cx.np.logical_not(r.masks)
    r.denormalize()
    if r.mask_names is not None:
        r.mask_names.append("zz")
    sa.unchanged(cx, "first:")
    sb.unchanged(cx, "second:")


def h_many(cx, lens, deg, provs, op):
    gs = cx.gs
    ds = [scene(cx, n, deg, "abcd"[i], p, "none") for i, (n, p) in enumerate(zip(lens, provs))]
    ss = [Snap(cx, d) for d in ds]
    if op == "concat":
        r = gs.GSData.concatenate(ds)
    elif op == "sum":
        r = sum(ds)
    elif op == "chain":
        r = ds[0]
        for d in ds[1:]:
            r = r + d
    elif op == "nested":
        r = gs.GSData.concatenate([ds[0], gs.GSData.concatenate(ds[1:])])
    elif op == "mixed":
        r = gs.GSData.concatenate([ds[0] + ds[1]] + ds[2:])
    cx.check("length", len(r) == sum(lens))
    same_fields(cx, "rows:", r, cat(cx, [s.vals for s in ss]))
    cx.check("tags", tags(r) == ss[0].tags)
    for i, s in enumerate(ss):
        s.unchanged(cx, f"input {i}:")
    observe(cx, "r:", r)


def h_reject(cx, kind):
    gs = cx.gs
    from gsply.gsdata import DataFormat as F
    if kind == "empty list":
        cx.raises("empty list", lambda: gs.GSData.concatenate([]))
        return
    pa, pb = cx.choice("pa", ["fresh", "consolidated"]), cx.choice("pb", ["fresh", "consolidated"])
    if kind == "degree":
        da = cx.choice("da", [0, 1, 2, 3])
        db = cx.choice("db", [0, 1, 2, 3])
        a, b = scene(cx, 2, da, "a", pa, "none"), scene(cx, 1, db, "b", pb, "none")
        bad = da != db
    else:
        a, b = scene(cx, 2, 1, "a", pa, "none"), scene(cx, 1, 1, "b", pb, "none")
        key, vals = {"scales": ("scales", [F.SCALES_PLY, F.SCALES_LINEAR]), "opacities": ("opacities", [F.OPACITIES_PLY, F.OPACITIES_LINEAR]),
                     "sh0": ("sh0", [F.SH0_SH, F.SH0_RGB])}[kind]
        va, vb = cx.choice("va", vals), cx.choice("vb", vals)
        a, b = a.with_format(**{key: va}), b.with_format(**{key: vb})
        bad = va is not vb
    sa, sb = Snap(cx, a), Snap(cx, b)
    c = a[0:1]
    for name, fn in (("add", lambda: a.add(b)), ("plus", lambda: a + b), ("concatenate", lambda: gs.GSData.concatenate([a, b])),
                     ("concatenate late", lambda: gs.GSData.concatenate([a, c, b])), ("sum", lambda: sum([a, b]))):
        k, v = cx.outcome(fn)
        cx.check(name + (" rejected" if bad else " accepted"), (k, v) == ("err", "ValueError") if bad else k == "ok")
    sa.unchanged(cx, "first:")
    sb.unchanged(cx, "second:")


def harnesses(tier):
    out = []
    big = tier != "quick"
    provs = ("fresh", "consolidated", "read", "sliced")

    def add(na, nb, deg, pa="fresh", pb="fresh", ma="none", mb="none", op="add"):
        out.append(H(f"add[{na}+{nb},deg={deg},{pa}+{pb},masks={ma}+{mb},{op}]", h_add,
                     dict(na=na, nb=nb, deg=deg, pa=pa, pb=pb, ma=ma, mb=mb, op=op), witnesses=1, obs={"abs": 1e-6, "rel": 1e-5}))
    for deg in range(4):
        for op in ("add", "plus", "concat", "sum", "add_none"):
            for pa, pb in (("fresh", "fresh"), ("consolidated", "consolidated")):
                if op == "add_none" and (deg or pa != "fresh"):
                    continue
                add(2, 3, deg, pa, pb, op=op)
    for pa in provs:
        for pb in provs:
            for deg in (0, 1) if not big else range(4):
                add(2, 1, deg, pa, pb)
    for pa, pb in (("fortran", "fortran"), ("flipped", "flipped"), ("fortran", "consolidated"), ("fresh", "flipped"), ("flipped", "fortran")):
        for op in ("add", "concat"):
            add(2, 3, 1, pa, pb, op=op)
    for na, nb in ((0, 0), (0, 2), (2, 0)):
        for pa in ("fresh", "consolidated"):
            for op in ("add", "concat"):
                add(na, nb, 1, pa, pa, op=op)
    for ma in MASKS:
        for mb in MASKS:
            for p in ("fresh", "consolidated"):
                add(2, 1, 1 if p == "fresh" else 0, p, p, ma, mb, "add")
    add(2, 1, 0, "fresh", "fresh", "2x2", "2x2", "concat")
    add(0, 2, 0, "fresh", "consolidated", "none", "2x2", "plus")
    for op in ("concat", "sum", "chain", "nested", "mixed"):
        for deg in (0, 1, 3):
            out.append(H(f"many[{op},deg={deg}]", h_many, dict(lens=(2, 1, 2), deg=deg, provs=("fresh", "consolidated", "sliced"), op=op), witnesses=1))
        out.append(H(f"many[{op},empty middle]", h_many, dict(lens=(1, 0, 2, 1), deg=1, provs=("consolidated", "fresh", "consolidated", "read"), op=op),
                     witnesses=1))
    for k in ("empty list", "degree", "scales", "opacities", "sh0"):
        out.append(H(f"reject[{k}]", h_reject, dict(kind=k), witnesses=3, paths=200))
    return out
