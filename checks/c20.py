"""C20: operations that return a result or write a file leave their inputs untouched."""
from engine.driver import H
from .common import FIELDS, Snap, fields, with_prov

BOUNDS = ("scenes of 1..3 Gaussians, every float32 bit pattern, SH degree 0-3, every mask bit symbolic, PLY / linear / mixed / RGB tags, "
          "provenances fresh/consolidated/read/stepped/strided/contiguous/column-major arrays; every listed operation; every history of 2 (thorough 3) of them")
OUTSIDE = "operations documented as in-place; larger scenes; caches"

WRITES = ("save", "save compressed", "plywrite", "plywrite compressed", "plywrite name", "raw arrays", "raw compressed", "compress_to_bytes", "compress_to_arrays",
          "compress raw")
DERIVES = ("copy", "slice", "mask", "list", "int", "iter", "get_gaussian", "copy_slice", "consolidate", "add", "concatenate", "combine", "apply", "get layer",
           "queries", "with_format", "noncontig", "unpack", "from_dict")
CONVERTS = ("normalize", "denormalize", "to_rgb", "to_sh", "activations", "deactivations", "sh2rgb", "logit")


def run(cx, d, op, tag):
    gs, np = cx.gs, cx.np
    n = len(d)
    if op == "save":
        d.save(cx.path(f"o{tag}.ply"))
    elif op == "save compressed":
        d.save(cx.path(f"o{tag}.ply"), compressed=True)
    elif op == "plywrite":
        gs.plywrite(cx.path(f"o{tag}.ply"), d)
    elif op == "plywrite compressed":
        gs.plywrite(cx.path(f"o{tag}.ply"), d, compressed=True)
    elif op == "plywrite name":
        gs.plywrite(cx.path(f"o{tag}.compressed.ply"), d)
    elif op == "compress_to_bytes":
        gs.compress_to_bytes(d)
    elif op == "compress_to_arrays":
        gs.compress_to_arrays(d)
    elif op == "copy":
        d.copy()
    elif op == "slice":
        d[1:]
        d[::-1]
    elif op == "mask":
        m = np.array([i % 2 == 0 for i in range(n)], dtype=bool)
        k = cx.snap(m)
        d[m]
        cx.same("key kept", m, k)
    elif op == "list":
        key, arr = [-1, 0], np.array([-1, 0])
        k = cx.snap(arr)
        d[key]
        d[arr]
        cx.check("list key kept", key == [-1, 0])
        cx.same("array key kept", arr, k)
    elif op == "int":
        d[0]
        d[-1]
    elif op == "iter":
        [x for x in d]
    elif op == "get_gaussian":
        d.get_gaussian(-1)
    elif op == "copy_slice":
        d.copy_slice(slice(0, 1))
    elif op == "consolidate":
        d.consolidate()
    elif op == "add":
        d + d
        sum([d, d])
    elif op == "concatenate":
        lst = [d, d]
        gs.GSData.concatenate(lst)
        cx.check("list kept", len(lst) == 2 and lst[0] is d and lst[1] is d)
    elif op == "combine":
        if d.masks is not None:
            d.combine_masks()
            d.combine_masks(mode="or")
    elif op == "apply":
        if d.masks is not None:
            d.masks[...] = np.array([[i % 2 == 0] for i in range(n)], dtype=bool) if d.masks.ndim == 2 else np.array([i % 2 == 0 for i in range(n)], dtype=bool)
            s = Snap(cx, d)
            d.apply_masks()
            s.unchanged(cx, "apply_masks:")
            return True
    elif op == "get layer":
        if d.mask_names:
            d.get_mask_layer(d.mask_names[0])
    elif op == "queries":
        len(d), d.get_sh_degree(), d.is_contiguous(), d.format_state, d.is_scales_ply, d.is_sh0_rgb
    elif op == "with_format":
        d.with_format(sh0=d.format_state["sh0"])
    elif op == "noncontig":
        d.make_contiguous(inplace=False)
    elif op == "unpack":
        d.unpack()
        d.unpack(include_shN=False)
        d.to_dict()
    elif op == "from_dict":
        w = d.to_dict()
        before = dict(w)
        gs.GSData.from_dict(w, format="ply")
        gs.GSData.from_arrays(**w, format="linear")
        cx.check("dictionary kept", list(w) == list(before) and all(w[k] is before[k] for k in w))
    elif op == "normalize":
        if d.is_scales_linear or d.is_opacities_linear:
            d.normalize(inplace=False)
    elif op == "denormalize":
        if d.is_scales_ply or d.is_opacities_ply:
            d.denormalize(inplace=False)
    elif op == "to_rgb":
        d.to_rgb(inplace=False)
    elif op == "to_sh":
        d.to_sh(inplace=False)
    elif op == "activations":
        gs.apply_pre_activations(d, inplace=False)
    elif op == "deactivations":
        gs.apply_pre_deactivations(d, inplace=False)
    elif op == "sh2rgb":
        gs.sh2rgb(d.sh0)
        gs.rgb2sh(d.sh0)
    elif op == "logit":
        gs.logit(d.opacities)
        gs.sigmoid(d.opacities)
    else:
        raise KeyError(op)
    return False


def scene(cx, n, deg, prov, layers, fmt):
    rgb = fmt.endswith("rgb")
    kind = fmt.replace("-rgb", "")
    from gsply.gsdata import DataFormat
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="ply")
    d = with_prov(cx, d, prov, deg)
    t = {}
    if kind in ("linear", "mixed-o"):
        t["opacities"] = DataFormat.OPACITIES_LINEAR
    if kind in ("linear", "mixed-s"):
        t["scales"] = DataFormat.SCALES_LINEAR
    if rgb:
        t["sh0"] = DataFormat.SH0_RGB
    if t:
        d = d.with_format(**t)
    if layers == 0:
        d.masks, d.mask_names = None, None
    elif layers == 1:
        d.masks, d.mask_names = cx.arr("mask", (n,), "bool"), ["a"]
    else:
        d.masks, d.mask_names = cx.arr("mask", (n, layers), "bool"), ["a", "b", "c"][:layers]
    return d


def h_hist(cx, n, deg, prov, layers, fmt, first, length, ops):
    d = scene(cx, n, deg, prov, layers, fmt)
    s = Snap(cx, d)
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", ops)
        if run(cx, d, op, i):
            s = Snap(cx, d)  # the harness itself rewrote the mask bits
    s.unchanged(cx, "after:")
    c, r = d.copy(), d[::-1]
    for k in FIELDS:
        if s.vals[k] is not None and 0 not in s.vals[k].shape:
            cx.same("copied afterwards: " + k, getattr(c, k), s.vals[k])
            cx.same("sliced afterwards: " + k, getattr(r, k), s.vals[k][::-1])
    cx.observe("m", d.means)


def h_raw(cx, n, deg, layout, op):
    """writing plain arrays (also read-only, strided, sharing one buffer)"""
    gs, np = cx.gs, cx.np
    f = fields(cx, n, deg, lo=-1.0, hi=-0.125, shn="none")
    if layout == "strided":
        f = {k: (None if v is None else v.repeat(2, axis=0)[::2]) for k, v in f.items()}
    elif layout == "fortran":
        f = {k: (None if v is None else np.asfortranarray(v)) for k, v in f.items()}
    elif layout == "flipped":
        f = {k: (None if v is None else v[::-1].copy()[::-1]) for k, v in f.items()}
    elif layout == "flat" and f["shN"] is not None and op != "from_arrays":
        f["shN"] = f["shN"].transpose(0, 2, 1).reshape(n, 3 * f["shN"].shape[1])
    elif layout == "wide":
        f = {k: (None if v is None else v.astype(np.float64)) for k, v in f.items()}
    want = {k: cx.snap(v) for k, v in f.items()}
    kw = dict(means=f["means"], scales=f["scales"], quats=f["quats"], opacities=f["opacities"], sh0=f["sh0"], shN=f["shN"])
    if op == "raw arrays":
        gs.plywrite(cx.path("o.ply"), **_args(kw))
    elif op == "raw compressed":
        gs.plywrite(cx.path("o.ply"), compressed=True, **_args(kw))
    elif op == "compress bytes":
        gs.compress_to_bytes(*kw.values())
    elif op == "compress arrays":
        gs.compress_to_arrays(*kw.values())
    elif op == "from_arrays":
        d = gs.GSData.from_arrays(**kw, format="ply")
        d.save(cx.path("o.ply"))
        d.consolidate()
    for k, v in f.items():
        cx.same("array kept: " + k, v, want[k])
        if v is not None:
            cx.observe(k, v)


def _args(kw):
    kw = dict(kw)
    kw["data"] = kw.pop("means")
    return kw


def h_bytes(cx, n, deg):
    """decompressing leaves the caller's buffer alone"""
    gs = cx.gs
    d = gs.GSData.from_arrays(**fields(cx, n, deg), format="ply")
    buf = gs.compress_to_bytes(d)
    items = cx.items(buf)
    x = gs.decompress_from_bytes(buf)
    x.means[...] = 0
    x.to_rgb()
    y = gs.decompress_from_bytes(buf)
    cx.same_items("buffer kept", cx.items(buf), items)
    cx.observe("y", y.sh0)


def harnesses(tier):
    out = []
    th = tier != "quick"
    o = {"abs": 1e-6, "rel": 1e-5}
    ops = WRITES[:5] + WRITES[7:9] + DERIVES + CONVERTS
    for op in ops:
        for prov in ("fresh", "consolidated", "stepped", "fortran") if not th else ("fresh", "consolidated", "read", "stepped", "strided", "contiguous", "fortran", "flipped"):
            for fmt in ("ply", "linear-rgb") if not th else ("ply", "linear", "mixed-o", "mixed-s-rgb", "linear-rgb"):
                for deg in (1,) if not th else (0, 1, 3):
                    if op in ("save", "save compressed", "plywrite", "compress_to_bytes"):
                        deg = {"fresh": 1, "consolidated": 0, "stepped": 3}.get(prov, deg)
                    out.append(H(f"{op}[deg={deg},{prov},{fmt}]", h_hist, dict(n=2, deg=deg, prov=prov, layers=2, fmt=fmt, first=op, length=1, ops=ops),
                                 witnesses=1, obs=o))
    for fmt in ("mixed-o", "mixed-s-rgb"):
        for op in WRITES[:5] + CONVERTS[:2]:
            out.append(H(f"{op}[fresh,{fmt}]", h_hist, dict(n=2, deg=0, prov="fresh", layers=1, fmt=fmt, first=op, length=1, ops=ops), witnesses=1, obs=o))
    for first in ops:
        out.append(H(f"two[{first}]", h_hist, dict(n=2, deg=0, prov="consolidated", layers=1, fmt="linear", first=first, length=3 if th else 2, ops=ops), witnesses=1, obs=o,
                     paths=3000))
    for op in ("raw arrays", "raw compressed", "compress bytes", "compress arrays", "from_arrays"):
        for layout in ("plain", "strided", "fortran", "flipped", "flat", "wide"):
            for deg in (0, 1, 3):
                # the raw-array writers look at the values to choose the format: ranges make the choice certain
                out.append(H(f"{op}[deg={deg},{layout}]", h_raw, dict(n=2, deg=deg, layout=layout, op=op), witnesses=1, obs=o))
    for deg in (0, 2):
        out.append(H(f"bytes[deg={deg}]", h_bytes, dict(n=2, deg=deg), witnesses=1, obs=o))
    return out
