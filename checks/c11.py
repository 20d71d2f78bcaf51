"""C11: copies share nothing with their source; slices are views."""
from engine.driver import H
from .common import FIELDS, Snap, fields, with_prov

BOUNDS = ("scenes of 1..3 Gaussians, every float32 bit pattern, SH degree 0-3, every mask bit symbolic, 0-2 mask layers, provenances fresh/column-major/backward/consolidated/"
          "read/stepped slice/strided/contiguous; 25 ways of making a copy x 9 kinds of later change on either side")
OUTSIDE = "direct edits of private attributes; with_format(), to_rgb/to_sh(inplace=False), make_contiguous(inplace=False), concatenate([x]), 0 + x (documented or allowed to share)"

MAKERS = ("copy", "copy of slice", "copy_slice", "copy_slice step", "copy_slice int", "copy_slice list", "copy_slice mask", "mask", "list", "int array",
          "apply_masks", "consolidate", "add", "radd", "sum", "concatenate", "denormalize", "normalize", "to_ply of linear",
          "add empty", "empty add", "add empty slice", "concatenate empty", "sum empty", "empty mask add")
CHANGES = ("write", "masks", "names", "add layer", "remove layer", "convert", "colour", "tags", "apply inplace")


def make(cx, d, how):
    """(result, sources) or None when it does not apply"""
    gs, np = cx.gs, cx.np
    n = len(d)
    if how == "copy":
        return d.copy()
    if how == "copy of slice":
        return d[:n].copy()
    if how == "copy_slice":
        return d.copy_slice(slice(0, n))
    if how == "copy_slice step":
        return d.copy_slice(slice(None, None, -1))
    if how == "copy_slice int":
        return d.copy_slice(n - 1)
    if how == "copy_slice list":
        return d.copy_slice(list(range(n)))
    if how == "copy_slice mask":
        return d.copy_slice(np.ones(n, dtype=bool))
    if how == "mask":
        return d[np.ones(n, dtype=bool)]
    if how == "list":
        return d[list(range(n))]
    if how == "int array":
        return d[np.arange(n)]
    if how == "apply_masks":
        if d.masks is None:
            return None
        d.masks[...] = True
        return d.apply_masks()
    if how == "consolidate":
        r = d.consolidate()
        return None if r is d else r
    if how == "add":
        return d + d
    if how == "radd":
        return d.add(d[:1])
    if how == "sum":
        return sum([d, d])
    if how == "concatenate":
        return gs.GSData.concatenate([d, d])
    if "empty" in how:
        e = d[:0] if how == "add empty slice" else d[np.zeros(n, dtype=bool)] if how == "empty mask add" else gs.GSData(
            **{k: None if getattr(d, k) is None else np.zeros((0,) + getattr(d, k).shape[1:], dtype=np.float32) for k in FIELDS}, _format=d.format_state)
        if how == "empty add":
            return e + d
        if how == "concatenate empty":
            return gs.GSData.concatenate([e, d, e])
        if how == "sum empty":
            return sum([e, d])
        return d + e
    if how == "denormalize":
        return d.denormalize(inplace=False)
    if how == "normalize":
        return d.normalize(inplace=False)
    if how == "to_ply of linear":
        return gs.apply_pre_activations(d, inplace=False)
    raise KeyError(how)


def change(cx, d, what, tag):
    """alter d in every way the API offers for that kind of change"""
    np = cx.np
    if what == "write":
        for k in FIELDS:
            a = getattr(d, k)
            if a is not None:
                a[...] = cx.arr(f"w{tag}{k}", a.shape)
    elif what == "masks":
        if d.masks is not None:
            d.masks[...] = np.logical_not(d.masks)
    elif what == "names":
        if d.mask_names is not None:
            d.mask_names[0] = "renamed"
            d.mask_names.append("more")
    elif what == "add layer":
        d.add_mask_layer("extra", cx.arr(f"x{tag}", (len(d),), "bool"))
    elif what == "remove layer":
        if d.mask_names:
            d.remove_mask_layer(d.mask_names[0])
    elif what == "convert":
        if d.is_scales_ply:
            d.denormalize()
        else:
            d.normalize()
    elif what == "colour":
        if d.is_sh0_sh:
            d.to_rgb()
        else:
            d.to_sh()
    elif what == "tags":
        other = cx.gs.GSData.from_arrays(**{k: getattr(d, k) for k in FIELDS}, format="linear" if d.is_scales_ply else "ply")
        f = d.format_state
        f["scales"] = None
        d.copy_format_from(other)
    elif what == "apply inplace":
        if d.masks is not None:
            d.masks[...] = np.zeros(d.masks.shape, dtype=bool)
            d.apply_masks(inplace=True)


def scene(cx, n, deg, prov, layers, fmt="ply"):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format=fmt)
    d = with_prov(cx, d, prov, deg)
    if layers == 0:
        d.masks, d.mask_names = None, None
    elif layers == 1:
        d.masks, d.mask_names = cx.arr("mask", (n,), "bool"), ["a"]
    else:
        d.masks, d.mask_names = cx.arr("mask", (n, layers), "bool"), ["a", "b", "c"][:layers]
    return d


def h_copy(cx, n, deg, prov, layers, how):
    d = scene(cx, n, deg, prov, layers, "linear" if how == "normalize" else "ply")
    what = cx.choice("change", CHANGES)
    first = cx.bool("change the copy")
    s0 = Snap(cx, d)
    r = make(cx, d, how)
    if r is None:
        return
    cx.check("a new object", r is not d)
    if how != "apply_masks":
        s0.unchanged(cx, "making the copy:")
    for k in FIELDS:
        a, b = getattr(r, k), getattr(d, k)
        if a is not None and b is not None:
            cx.check(f"{k} shares no memory", not cx.shares(a, b) or 0 in a.shape)
    if r.masks is not None and d.masks is not None:
        cx.check("masks share no memory", not cx.shares(r.masks, d.masks))
    if r.mask_names is not None:
        cx.check("own list of names", r.mask_names is not d.mask_names)
    s, t = Snap(cx, d), Snap(cx, r)
    if first:
        change(cx, r, what, "r")
        s.unchanged(cx, f"source after the copy changes ({what}):")
    else:
        change(cx, d, what, "d")
        t.unchanged(cx, f"copy after the source changes ({what}):")
    # and the untouched side still behaves like its content
    u, v = (d, s) if first else (r, t)
    c = u.copy()
    for k in FIELDS:
        if v.vals[k] is None or 0 in v.vals[k].shape:
            continue
        cx.same("copied again: " + k, getattr(c, k), v.vals[k])
    q = u[:1]
    for k in FIELDS:
        if v.vals[k] is None or 0 in v.vals[k].shape:
            continue
        cx.same("sliced later: " + k, getattr(q, k), v.vals[k][:1])
    cx.observe("means", u.means)


def h_view(cx, n, deg, prov):
    """basic slices are views: writes go through in both directions, for every field"""
    d = scene(cx, n, deg, prov, 0)
    s = Snap(cx, d)
    a = cx.choice("start", range(n))
    v = d[a:]
    for k in FIELDS:
        x = getattr(v, k)
        if x is None or 0 in x.shape:
            continue
        w = cx.arr("w" + k, x.shape)
        x[...] = w
        cx.same(k + " seen in the source", getattr(d, k)[a:], w)
        cx.same(k + " other rows", getattr(d, k)[:a], s.vals[k][:a])
        w2 = cx.arr("z" + k, x.shape)
        getattr(d, k)[a:] = w2
        cx.same(k + " seen in the slice", getattr(v, k), w2)
    p = cx.path("v.ply")
    v.save(p)
    r = cx.gs.plyread(p)
    for k in FIELDS:
        x = getattr(v, k)
        if x is not None and 0 not in x.shape:
            cx.same("saved " + k, getattr(r, k), x)
            cx.observe(k, x)


def h_file(cx, n, deg, compressed):
    """two reads of one file are independent of each other and of the writer's arrays"""
    d = scene(cx, n, deg, "fresh", 0)
    p = cx.path("a.ply")
    d.save(p)
    x, y = cx.gs.plyread(p), cx.gs.plyread(p)
    sy = Snap(cx, y)
    what = cx.choice("change", CHANGES)
    change(cx, x, what, "x")
    sy.unchanged(cx, "second read:")
    z = cx.gs.plyread(p)
    for k in FIELDS:
        if sy.vals[k] is not None:
            cx.same("file: " + k, getattr(z, k), sy.vals[k])
    cx.observe("m", z.means)


def harnesses(tier):
    out = []
    th = tier != "quick"
    o = {"abs": 1e-6, "rel": 1e-5}
    for how in MAKERS:
        provs = ("fresh", "consolidated", "stepped") if not th else ("fresh", "consolidated", "read", "stepped", "strided", "contiguous", "sliced", "masked", "fortran", "flipped")
        for prov in provs:
            degs = (0, 1, 2, 3) if th else ((1,) if prov != "consolidated" else (0, 3))
            for deg in degs:
                for n, layers in ((1, 0), (2, 1), (3, 2)) if th else ((2, 2), (2, 0)) if prov == "consolidated" else ((2, 2),) if prov != "fresh" else ((2, 1), (2, 0)):
                    out.append(H(f"{how}[n={n},deg={deg},{prov},{layers} layers]", h_copy, dict(n=n, deg=deg, prov=prov, layers=layers, how=how),
                                 witnesses=1, obs=o, paths=200))
    for prov in ("fresh", "consolidated", "read", "stepped", "contiguous", "fortran", "flipped"):
        for deg in (0, 1, 2, 3):
            out.append(H(f"view[deg={deg},{prov}]", h_view, dict(n=3, deg=deg, prov=prov), witnesses=1))
    for deg in (0, 3):
        out.append(H(f"file[deg={deg}]", h_file, dict(n=2, deg=deg, compressed=False), witnesses=1, obs=o))
    return out
