"""Shared builders for the harnesses (run symbolically and concretely)."""
BANDS = {0: 0, 1: 3, 2: 8, 3: 15}


def fields(cx, n, deg, pre="", lo=None, hi=None, rows=None, ranges=None, dt="f32", shn="empty"):
    """symbolic field arrays; ranges: field -> (lo, hi)"""
    r = ranges or {}

    def a(f, shape):
        l, h = r.get(f, (lo, hi))
        return cx.arr(pre + f, shape, dt, l, h, rows=rows)
    d = dict(means=a("means", (n, 3)), scales=a("scales", (n, 3)), quats=a("quats", (n, 4)),
             opacities=a("opacities", (n,)), sh0=a("sh0", (n, 3)))
    if deg:
        d["shN"] = a("shN", (n, BANDS[deg], 3))
    elif shn == "empty":
        d["shN"] = cx.np.zeros((n, 0, 3), dtype=cx.np.float32)
    else:
        d["shN"] = None
    return d


def make(cx, n, deg, pre="", fmt="ply", f=None, **k):
    f = f or fields(cx, n, deg, pre, **k)
    return cx.gs.GSData.from_arrays(**f, format=fmt)


def snap(cx, d):
    return {k: cx.snap(getattr(d, k)) for k in ("means", "scales", "quats", "opacities", "sh0", "shN")}


def empty_shn(a):
    return a is None or a.shape[1] == 0


def same_shn(cx, label, a, b):
    """equal coefficient arrays; 'no higher bands' may be None or an (N,0,3) array"""
    if empty_shn(a) or empty_shn(b):
        cx.check(label, empty_shn(a) and empty_shn(b))
    else:
        cx.same(label, a, b)


def same_fields(cx, label, d, want, skip=()):
    for k in ("means", "scales", "quats", "opacities", "sh0"):
        if k not in skip:
            cx.same(f"{label}{k}", getattr(d, k), want[k])
    if "shN" not in skip:
        same_shn(cx, f"{label}shN", d.shN, want["shN"])


def observe(cx, pre, d):
    for k in ("means", "scales", "quats", "opacities", "sh0", "shN"):
        v = getattr(d, k)
        if v is not None:
            cx.observe(pre + k, v)


FIELDS = ("means", "scales", "quats", "opacities", "sh0", "shN")


def tags(d):
    """format tags by name (concrete on both sides)"""
    return {k: v.name for k, v in d.format_state.items()}


def ply_tags(deg, sh0="SH0_SH", kind="PLY"):
    return {"scales": "SCALES_" + kind, "opacities": "OPACITIES_" + kind, "sh0": sh0, "sh_order": f"SH_ORDER_{deg}",
            "means": "MEANS_RAW", "quats": "QUATS_RAW"}


def check_tags(cx, label, d, want):
    cx.check(label + "tags", tags(d) == want)
    ok = (d.is_scales_ply == (want["scales"] == "SCALES_PLY") and d.is_scales_linear == (want["scales"] == "SCALES_LINEAR")
          and d.is_opacities_ply == (want["opacities"] == "OPACITIES_PLY")
          and d.is_opacities_linear == (want["opacities"] == "OPACITIES_LINEAR")
          and d.is_sh0_sh == (want["sh0"] == "SH0_SH") and d.is_sh0_rgb == (want["sh0"] == "SH0_RGB")
          and [d.is_sh_order_0, d.is_sh_order_1, d.is_sh_order_2, d.is_sh_order_3] == [want["sh_order"] == f"SH_ORDER_{i}" for i in range(4)])
    cx.check(label + "tag queries", ok)


def with_prov(cx, d, prov, deg=None, pre="p"):
    """the same logical content with another in-memory provenance"""
    gs, np = cx.gs, cx.np
    n = len(d)
    if prov == "fresh":
        return d
    if prov == "consolidated":
        return d.consolidate()
    if prov == "read":
        p = cx.path(pre + "_prov.ply")
        gs.plywrite(p, d)
        return gs.plyread(p)
    if prov == "sliced":
        both = gs.GSData.concatenate([d, d]).consolidate()
        return both[n:]
    if prov == "stepped":
        both = gs.GSData.concatenate([d, d]).consolidate()
        idx = np.array([k for i in range(n) for k in (i, n + i)], dtype=np.int64)
        return both[idx][::2]
    if prov == "masked":
        both = gs.GSData.concatenate([d, d]).consolidate()
        return both[np.array([True] * n + [False] * n, dtype=bool)]
    if prov == "strided":
        # the caller's own non-contiguous arrays
        k = {f: (None if getattr(d, f) is None else getattr(d, f).repeat(2, axis=0)[::2]) for f in FIELDS}
        return gs.GSData(**k, _format=d.format_state)
    if prov == "fortran":
        # the caller's own column-major arrays
        k = {f: (None if getattr(d, f) is None else np.asfortranarray(getattr(d, f))) for f in FIELDS}
        return gs.GSData(**k, _format=d.format_state)
    if prov == "flipped":
        # views that walk the caller's memory backwards
        k = {f: (None if getattr(d, f) is None else getattr(d, f)[::-1].copy()[::-1]) for f in FIELDS}
        return gs.GSData(**k, _format=d.format_state)
    if prov == "contiguous":
        return d.consolidate().make_contiguous()
    raise KeyError(prov)


class Snap:
    """everything observable about a container, to compare with later"""

    def __init__(self, cx, d):
        self.d = d
        self.ids = {k: getattr(d, k) for k in FIELDS}
        self.vals = snap(cx, d)
        self.masks = cx.snap(d.masks)
        self.names = None if d.mask_names is None else list(d.mask_names)
        self.tags = tags(d)

    def unchanged(self, cx, label, objects=True):
        d = self.d
        for k in FIELDS:
            if objects:
                cx.check(f"{label}{k} still the same array", getattr(d, k) is self.ids[k])
            if self.vals[k] is None:
                cx.check(f"{label}{k} none", getattr(d, k) is None)
            else:
                cx.same(f"{label}{k} values", getattr(d, k), self.vals[k])
        cx.same(label + "masks", d.masks, self.masks)
        cx.check(label + "mask names", (None if d.mask_names is None else list(d.mask_names)) == self.names)
        cx.check(label + "format tags", tags(d) == self.tags)


def rows_of(cx, a, idx):
    """rows of an array in the given order (an independent copy)"""
    if a is None:
        return None
    if not len(idx):
        return a[:0].copy()
    return a[cx.np.array(list(idx), dtype=cx.np.int64)]


def rows_snap(cx, w, idx):
    return {k: rows_of(cx, v, idx) for k, v in w.items()}


def layers2d(m):
    """(N,) and (N,1) are the same single layer"""
    return None if m is None else (m[:, None] if m.ndim == 1 else m)
