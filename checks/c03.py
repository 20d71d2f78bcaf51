"""C03: after any history of operations, everything derived from the data equals its visible fields."""
from engine.driver import H
from .common import Snap, BANDS, fields, same_fields, snap

BOUNDS = ("N=3 Gaussians (up to 6 after concatenation), SH degree 0/1 (thorough 0-3), all field values symbolic (every bit pattern; "
          "arithmetic of the conversions uninterpreted); every history of 2 operations out of 31 (thorough: 3 out of 31), from 3 provenances; "
          "then every derived form (saved file, copy, slices, masks, index lists, consolidation, contiguous form, concatenation, "
          "unpacked tuple/dict) compared bit for bit with the fields before it was derived")
OUTSIDE = "longer histories; arrays shared with objects outside the container"

OPS = ("set_means", "set_scales", "set_quats", "set_opac", "set_sh0", "set_shN", "edit_means", "edit_shN", "edit_mixed", "consolidate",
       "copy", "slice", "step", "mask", "index", "contig", "contig_copy", "apply_masks", "add_self", "concat", "with_format",
       "reread", "denorm", "denorm_copy", "norm", "rgb", "rgb_copy", "sh", "sh_copy", "norm_copy", "copy_slice")


def apply(cx, d, op, tag):
    gs, np = cx.gs, cx.np
    n = len(d)

    def new(shape):
        return cx.arr(f"new{tag}", shape)
    if op == "set_means":
        d.means = new((n, 3))
    elif op == "set_scales":
        d.scales = new((n, 3))
    elif op == "set_quats":
        d.quats = new((n, 4))
    elif op == "set_opac":
        d.opacities = new((n,))
    elif op == "set_sh0":
        d.sh0 = new((n, 3))
    elif op == "set_shN":
        if d.shN is not None:
            d.shN = new(d.shN.shape)
    elif op == "edit_means":
        if n:
            d.means[0, 1] = cx.scalar(f"e{tag}")
    elif op == "edit_shN":
        if n and d.shN is not None and d.shN.shape[1]:
            d.shN[n - 1, 1, 2] = cx.scalar(f"e{tag}")
    elif op == "edit_mixed":
        if n:
            d.opacities[n - 1] = cx.scalar(f"e{tag}")
            d.scales[0, 2] = cx.scalar(f"f{tag}")
            d.quats[0] = cx.arr(f"g{tag}", (4,))
            d.sh0[:, 1] = cx.scalar(f"h{tag}")
    elif op == "consolidate":
        d = d.consolidate()
    elif op == "copy":
        d = d.copy()
    elif op == "slice":
        d = d[1:]
    elif op == "step":
        d = d[::2]
    elif op == "mask":
        d = d[np.array([i != 1 for i in range(n)], dtype=bool)]
    elif op == "index":
        if n:
            d = d[[n - 1, 0, -1]]
    elif op == "contig":
        d.make_contiguous()
    elif op == "contig_copy":
        d = d.make_contiguous(inplace=False)
    elif op == "apply_masks":
        d.masks, d.mask_names = None, None
        d.add_mask_layer("m", np.array([i != 0 for i in range(n)], dtype=bool))
        d.apply_masks(inplace=True)
    elif op == "add_self":
        d = d + d
    elif op == "concat":
        d = gs.GSData.concatenate([d, d[:1]])
    elif op == "with_format":
        d = d.with_format()
    elif op == "reread":
        if d.is_scales_ply and d.is_opacities_ply and d.is_sh0_sh:
            p = cx.path(f"r{tag}.ply")
            d.save(p)
            d = gs.plyread(p)
    elif op == "denorm":
        if d.is_scales_ply:
            d.denormalize()
    elif op == "denorm_copy":
        if d.is_scales_ply:
            d = d.denormalize(inplace=False)
    elif op == "norm":
        if d.is_scales_linear:
            d.normalize()
    elif op == "rgb":
        if d.is_sh0_sh:
            d.to_rgb()
    elif op == "rgb_copy":
        if d.is_sh0_sh:
            d = d.to_rgb(inplace=False)
    elif op == "sh":
        if d.is_sh0_rgb:
            d.to_sh()
    elif op == "sh_copy":
        if d.is_sh0_rgb:
            d = d.to_sh(inplace=False)
    elif op == "norm_copy":
        if d.is_scales_linear:
            d = d.normalize(inplace=False)
    elif op == "copy_slice":
        d = d.copy_slice(slice(0, 2))
    return d


def pick(cx, w, rows):
    """rows of a snapshot"""
    idx = cx.np.array(rows, dtype=cx.np.int64)
    return {k: (None if v is None else v[idx] if len(rows) else v[:0]) for k, v in w.items()}


def check_views(cx, d):
    gs, np = cx.gs, cx.np
    w = snap(cx, d)
    n = len(d)
    for k in ("means", "scales", "quats", "opacities", "sh0"):
        cx.check("rows of " + k, w[k].shape[0] == n)
    same_fields(cx, "copy:", d.copy(), w)
    same_fields(cx, "full slice:", d[:], w)
    same_fields(cx, "part:", d[1:3], pick(cx, w, list(range(n))[1:3]))
    same_fields(cx, "copy_slice:", d.copy_slice(slice(0, 2)), pick(cx, w, list(range(n))[0:2]))
    m = [i % 2 == 0 for i in range(n)]
    same_fields(cx, "mask:", d[np.array(m, dtype=bool)], pick(cx, w, [i for i in range(n) if m[i]]))
    if n:
        same_fields(cx, "index:", d[[n - 1, 0]], pick(cx, w, [n - 1, 0]))
        same_fields(cx, "gaussian:", d.get_gaussian(0), pick(cx, w, [0]))
        t = d[n - 1]
        for v, k in zip(t[:5], ("means", "scales", "quats", "opacities", "sh0")):
            cx.same("row:" + k, v, w[k][n - 1])
    u = d.unpack()
    for v, k in zip(u[:5], ("means", "scales", "quats", "opacities", "sh0")):
        cx.same("unpack:" + k, v, w[k])
    same_fields(cx, "contiguous:", d.make_contiguous(inplace=False), w)
    same_fields(cx, "consolidated:", d.consolidate(), w)
    both = pick(cx, w, list(range(n)) * 2)
    same_fields(cx, "add:", d + d, both)
    same_fields(cx, "add consolidated:", d.consolidate() + d, both)
    same_fields(cx, "concatenate:", gs.GSData.concatenate([d, d]), both)
    if d.is_scales_ply and d.is_opacities_ply and d.is_sh0_sh:
        p = cx.path("final.ply")
        d.save(p)
        same_fields(cx, "saved:", gs.plyread(p), w)
        q = cx.path("final2.ply")
        d.consolidate().save(q)
        cx.same_items("saved consolidated", cx.read(q), cx.read(p))
    same_fields(cx, "unchanged:", d, w)
    for k in ("means", "scales", "quats", "opacities", "sh0"):
        cx.observe(k, w[k])


def h_hist(cx, deg, prov, first, length):
    gs = cx.gs
    d = gs.GSData.from_arrays(**fields(cx, 3, deg), format="ply")
    if prov == "consolidated":
        d = d.consolidate()
    elif prov == "read":
        d.save(cx.path("s.ply"))
        d = gs.plyread(cx.path("s.ply"))
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", OPS)
        prev, s = d, Snap(cx, d)
        d = apply(cx, d, op, i)
        if d is not prev:
            s.unchanged(cx, "the previous object:")
    check_views(cx, d)


def harnesses(tier):
    out = []
    for prov in ("fresh", "consolidated", "read"):
        for deg in (0, 1) if tier == "quick" else (0, 1, 2, 3):
            for op in OPS:
                out.append(H(f"hist[{prov},deg={deg},{op}]", h_hist, dict(deg=deg, prov=prov, first=op, length=2 if tier == "quick" else 3),
                             paths=2000, budget=60, witnesses=1, obs={"abs": 1e-6, "rel": 1e-5}))
    return out
