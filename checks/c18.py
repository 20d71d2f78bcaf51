"""C18: after any history of operations a tensor container and everything derived from it agree, and copies are independent."""
from engine.driver import H
from .common import FIELDS, fields, rows_snap, same_fields, snap, tags
from .tcommon import TSnap, tensor_of, tn

BOUNDS = ("N=3 Gaussians (up to 6 after joining), SH degree 0/1 (thorough 0-3), all field values symbolic (every bit pattern; the arithmetic of the conversions "
          "uninterpreted); every history of 2 operations out of 32 (thorough: 3) from 3 provenances, then every derived form (NumPy container, saved file, "
          "clone, slices, masks, index lists, consolidation, join, dtype change, unpacked tuple/dict) compared bit for bit with the fields; "
          "11 ways of copying x 7 kinds of later change on either side; device cpu")
OUTSIDE = "longer histories; memory shared with arrays or tensors outside the container; CUDA devices; gradients"

OPS = ("set_means", "set_scales", "set_quats", "set_opac", "set_sh0", "set_shN", "edit_means", "edit_shN", "edit_mixed", "inplace_op", "consolidate",
       "clone", "slice", "step", "mask", "index", "apply_masks", "add_self", "add_part", "with_format", "numpy", "reread",
       "denorm", "denorm_copy", "norm", "rgb", "rgb_copy", "sh", "sh_copy", "norm_copy", "double", "to_ply")


def apply(cx, t, op, tag):
    gs, np, torch = cx.gs, cx.np, cx.torch()
    n = len(t)

    def new(shape):
        return tn(cx, cx.arr(f"new{tag}", tuple(shape))).to(t.dtype)
    if op == "set_means":
        t.means = new((n, 3))
    elif op == "set_scales":
        t.scales = new((n, 3))
    elif op == "set_quats":
        t.quats = new((n, 4))
    elif op == "set_opac":
        t.opacities = new((n,))
    elif op == "set_sh0":
        t.sh0 = new((n, 3))
    elif op == "set_shN":
        if t.shN is not None:
            t.shN = new(t.shN.shape)
    elif op == "edit_means":
        if n:
            t.means[0, 1] = new((1,))[0]
    elif op == "edit_shN":
        if n and t.shN is not None and t.shN.shape[1]:
            t.shN[n - 1, 1, 2] = new((1,))[0]
    elif op == "edit_mixed":
        if n:
            v = new((7,))
            t.opacities[n - 1] = v[0]
            t.scales[0, 2] = v[1]
            t.quats[0] = v[2:6]
            t.sh0[:, 1] = v[6]
    elif op == "inplace_op":
        # an optimiser step written in place
        t.means.add_(new((n, 3)))
        t.opacities.copy_(new((n,)))
        if t.shN is not None:
            t.shN.mul_(0.5)
    elif op == "consolidate":
        t = t.consolidate()
    elif op == "clone":
        t = t.clone()
    elif op == "slice":
        t = t[1:]
    elif op == "step":
        t = t[::2]
    elif op == "mask":
        t = t[torch.tensor([i != 1 for i in range(n)], dtype=torch.bool)]
    elif op == "index":
        if n:
            t = t[[n - 1, 0, -1]]
    elif op == "apply_masks":
        t.masks, t.mask_names = None, None
        t.add_mask_layer("m", torch.tensor([i != 0 for i in range(n)], dtype=torch.bool))
        t.apply_masks(inplace=True)
    elif op == "add_self":
        t = t + t
    elif op == "add_part":
        t = t + t[:1].clone()
    elif op == "with_format":
        t = t.with_format()
    elif op == "numpy":
        if t.dtype == torch.float32:
            t = gs.GSTensor.from_gsdata(t.to_gsdata(), device="cpu")
    elif op == "reread":
        if t.dtype == torch.float32 and t.is_scales_ply and t.is_opacities_ply and t.is_sh0_sh:
            p = cx.path(f"r{tag}.ply")
            t.save(p, compressed=False)
            t = gs.GSTensor.load(p, device="cpu")
    elif op == "denorm":
        if t.is_scales_ply:
            t.denormalize()
    elif op == "denorm_copy":
        if t.is_scales_ply:
            t = t.denormalize(inplace=False)
    elif op == "norm":
        if t.is_scales_linear:
            t.normalize()
    elif op == "to_ply":
        if t.is_scales_linear:
            t = t.to_ply_tensor()
    elif op == "rgb":
        if t.is_sh0_sh:
            t.to_rgb()
    elif op == "rgb_copy":
        if t.is_sh0_sh:
            t = t.to_rgb(inplace=False)
    elif op == "sh":
        if t.is_sh0_rgb:
            t.to_sh()
    elif op == "sh_copy":
        if t.is_sh0_rgb:
            t = t.to_sh(inplace=False)
    elif op == "norm_copy":
        if t.is_scales_linear:
            t = t.normalize(inplace=False)
    elif op == "double":
        t = t.double()
    else:
        raise KeyError(op)
    return t


def pick(cx, w, rows):
    return rows_snap(cx, w, rows)


def check_views(cx, t):
    gs, np, torch = cx.gs, cx.np, cx.torch()
    w = {k: cx.snap(getattr(t, k)) for k in FIELDS}
    n = len(t)
    g = tags(t)
    for k in FIELDS[:5]:
        cx.check("rows of " + k, w[k].shape[0] == n)
    for label, r, rows in (("clone:", t.clone(), range(n)), ("full slice:", t[:], range(n)), ("part:", t[1:3], list(range(n))[1:3]),
                           ("mask:", t[np.array([i % 2 == 0 for i in range(n)], dtype=bool)], range(0, n, 2)),
                           ("consolidated:", t.consolidate(), range(n)), ("add:", t + t, list(range(n)) * 2),
                           ("add consolidated:", t.consolidate() + t, list(range(n)) * 2), ("add clone:", t + t.clone().consolidate(), list(range(n)) * 2),
                           ("cpu:0:", t.to("cpu:0"), range(n)), ("to_gsdata:", t.to_gsdata(), range(n))):
        same_fields(cx, label, r, pick(cx, w, list(rows)))
        cx.check(label + "tags", tags(r) == g)
    if n:
        same_fields(cx, "index:", t[[n - 1, 0]], pick(cx, w, [n - 1, 0]))
        same_fields(cx, "gaussian:", t.get_gaussian(0), pick(cx, w, [0]))
        for v, k in zip(t[n - 1][:5], FIELDS[:5]):
            cx.same("row:" + k, v, w[k][n - 1])
    d = t.double()
    same_fields(cx, "double:", d, {k: None if v is None else v.astype(np.float64) for k, v in w.items()})
    u = t.unpack()
    q = t.to_dict()
    for v, k in zip(u[:5], FIELDS[:5]):
        cx.same("unpack:" + k, v, w[k])
        cx.same("dict:" + k, q[k], w[k])
    if t.dtype == torch.float32 and t.is_scales_ply and t.is_opacities_ply and t.is_sh0_sh:
        p = cx.path("final.ply")
        t.save(p, compressed=False)
        same_fields(cx, "saved:", gs.plyread(p), w)
        p2 = cx.path("final2.ply")
        t.consolidate().save(p2, compressed=False)
        cx.same_items("saved consolidated", cx.read(p2), cx.read(p))
    same_fields(cx, "unchanged:", t, w)
    for k in FIELDS[:5]:
        cx.observe(k, w[k])


def h_hist(cx, deg, prov, first, length):
    t = tensor_of(cx, cx.gs.GSData.from_arrays(**fields(cx, 3, deg), format="ply"), prov)
    t.masks, t.mask_names = None, None
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", OPS)
        prev, s = t, TSnap(cx, t)
        t = apply(cx, t, op, i)
        if t is not prev:
            s.unchanged(cx, "the previous object:")
    check_views(cx, t)


# ------------------------------------------------------------------------------ independence

MAKERS = ("clone", "clone of slice", "mask", "list", "index tensor", "apply_masks", "consolidate", "add", "add part", "sum", "double and back", "add empty", "empty add", "sum empty", "add empty slice")
CHANGES = ("write", "masks", "names", "add layer", "remove layer", "convert", "colour", "tags", "apply inplace")


def make(cx, t, how):
    torch = cx.torch()
    n = len(t)
    if how == "clone":
        return t.clone()
    if how == "clone of slice":
        return t[:n].clone()
    if how == "mask":
        return t[torch.ones(n, dtype=torch.bool)]
    if how == "list":
        return t[list(range(n))]
    if how == "index tensor":
        return t[torch.arange(n)]
    if how == "apply_masks":
        if t.masks is None:
            return None
        t.masks.fill_(True)
        return t.apply_masks()
    if how == "consolidate":
        r = t.consolidate()
        return None if r is t else r
    if how == "add":
        return t + t
    if how == "add part":
        return t.add(t[:1])
    if how == "sum":
        return sum([t, t])
    if "empty" in how:
        e = t[:0] if how == "add empty slice" else cx.gs.GSTensor(
            **{k: None if getattr(t, k) is None else torch.zeros((0,) + tuple(getattr(t, k).shape[1:])) for k in FIELDS}, _format=t.format_state)
        return e + t if how == "empty add" else sum([e, t]) if how == "sum empty" else t + e
    if how == "double and back":
        return t.double().float()
    raise KeyError(how)


def change(cx, t, what, tag):
    torch = cx.torch()
    if what == "write":
        for k in FIELDS:
            a = getattr(t, k)
            if a is not None and 0 not in a.shape:
                a.copy_(tn(cx, cx.arr(f"w{tag}{k}", tuple(a.shape))))
    elif what == "masks":
        if t.masks is not None:
            t.masks.copy_(~t.masks)
    elif what == "names":
        if t.mask_names is not None:
            t.mask_names[0] = "renamed"
    elif what == "add layer":
        t.add_mask_layer("extra", tn(cx, cx.arr(f"x{tag}", (len(t),), "bool")))
    elif what == "remove layer":
        if t.mask_names:
            t.remove_mask_layer(t.mask_names[0])
    elif what == "convert":
        if t.is_scales_ply:
            t.denormalize()
        else:
            t.normalize()
    elif what == "colour":
        if t.is_sh0_sh:
            t.to_rgb()
        else:
            t.to_sh()
    elif what == "tags":
        f = t.format_state
        f["scales"] = None
        t.copy_format_from(t.with_format(scales=f["opacities"]))
    elif what == "apply inplace":
        if t.masks is not None:
            t.masks.fill_(False)
            t.apply_masks(inplace=True)


def h_copy(cx, n, deg, prov, layers, how):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="ply")
    t = tensor_of(cx, d, prov)
    t.masks = None if not layers else tn(cx, cx.arr("mask", (n,) if layers == 1 else (n, layers), "bool"))
    t.mask_names = ["a", "b"][:layers] if layers else None
    what = cx.choice("change", CHANGES)
    first = cx.bool("change the copy")
    s0 = TSnap(cx, t)
    r = make(cx, t, how)
    if r is None:
        return
    # lists of layer names may be shared except by clones and joins
    if what == "names" and how not in ("clone", "clone of slice", "add", "add part", "sum") and "empty" not in how:
        return
    cx.check("a new object", r is not t)
    if how != "apply_masks":
        s0.unchanged(cx, "making the copy:")
    for k in FIELDS:
        a, b = getattr(r, k), getattr(t, k)
        if a is not None and b is not None and 0 not in a.shape:
            cx.check(f"{k} shares no memory", not cx.shares(a, b))
    if how != "double and back" and r.masks is not None and t.masks is not None:
        cx.check("masks share no memory", not cx.shares(r.masks, t.masks))
    if how == "double and back" and what in ("masks", "apply inplace"):
        return
    s, u = TSnap(cx, t), TSnap(cx, r)
    if first:
        change(cx, r, what, "r")
        s.unchanged(cx, f"source after the copy changes ({what}):")
    else:
        change(cx, t, what, "d")
        u.unchanged(cx, f"copy after the source changes ({what}):")
    x, v = (t, s) if first else (r, u)
    same_fields(cx, "copied again:", x.clone(), v.vals)
    same_fields(cx, "sliced later:", x[:1], rows_snap(cx, v.vals, [0]))
    same_fields(cx, "to_gsdata later:", x.to_gsdata(), v.vals)
    cx.observe("means", x.means)


def h_view(cx, n, deg, prov, key):
    """slices are views: writes go through in both directions, and both stay consistent"""
    t = tensor_of(cx, cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="ply"), prov)
    key = slice(*key)
    v = t[key]
    idx = list(range(n))[key]
    for k in FIELDS:
        x = getattr(v, k)
        if x is None or 0 in x.shape:
            continue
        w = cx.arr("w" + k, tuple(x.shape))
        x.copy_(tn(cx, w))
        cx.same(k + " seen in the source", getattr(t, k)[idx], w)
        w2 = cx.arr("z" + k, tuple(x.shape))
        getattr(t, k)[key] = tn(cx, w2)
        cx.same(k + " seen in the slice", x, w2)
    for label, q in (("source ", t), ("slice ", v)):
        s = {k: cx.snap(getattr(q, k)) for k in FIELDS}
        same_fields(cx, label + "to_gsdata:", q.to_gsdata(), s)
        same_fields(cx, label + "clone:", q.clone(), s)
        same_fields(cx, label + "consolidate:", q.consolidate(), s)
        same_fields(cx, label + "tail:", q[1:], rows_snap(cx, s, list(range(1, len(q)))))
    cx.observe("m", t.means)


def h_numpy(cx, n, deg, prov):
    """objects converted with separate storage do not follow each other"""
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="ply")
    t = cx.gs.GSTensor.from_gsdata(d, device="cpu")
    s = snap(cx, d)
    for k in FIELDS:
        a = getattr(t, k)
        if a is not None and 0 not in a.shape:
            a.copy_(tn(cx, cx.arr("w" + k, tuple(a.shape))))
    t.denormalize()
    t.to_rgb()
    same_fields(cx, "source:", d, s)
    check = tags(d)
    cx.check("source tags", check["scales"] == "SCALES_PLY" and check["sh0"] == "SH0_SH")
    cx.observe("m", d.means)


def harnesses(tier):
    out = []
    th = tier != "quick"
    o = {"abs": 1e-6, "rel": 1e-4}
    for prov in ("separate", "base", "loaded"):
        for deg in (0, 1, 2, 3) if th else (0, 1):
            for op in OPS:
                out.append(H(f"hist[{prov},deg={deg},{op}]", h_hist, dict(deg=deg, prov=prov, first=op, length=3 if th else 2),
                             paths=2000, budget=60, witnesses=1, obs=o, torch=True))
    for how in MAKERS:
        for prov in ("separate", "base", "sliced", "strided", "colmajor"):
            for deg in (0, 1, 2, 3) if th else ((1,) if prov != "base" else (0, 3)):
                for n, layers in ((1, 0), (2, 1), (3, 2)) if th else ((2, 2), (2, 0)) if prov == "base" else ((2, 2),) if prov != "separate" else ((2, 1), (2, 0)):
                    out.append(H(f"{how}[n={n},deg={deg},{prov},{layers} layers]", h_copy, dict(n=n, deg=deg, prov=prov, layers=layers, how=how),
                                 witnesses=1, obs=o, paths=200, torch=True))
    for prov in ("separate", "base", "sliced", "consolidated"):
        for deg in (0, 1, 2, 3):
            for i, key in enumerate((slice(1, None), slice(None, None, 2))):
                out.append(H(f"view[{i},deg={deg},{prov}]", h_view, dict(n=3, deg=deg, prov=prov, key=(key.start, key.stop, key.step)), witnesses=1, torch=True))
    for deg in range(4):
        out.append(H(f"numpy[deg={deg}]", h_numpy, dict(n=2, deg=deg, prov="fresh"), witnesses=1, torch=True, obs=o))
    return out
