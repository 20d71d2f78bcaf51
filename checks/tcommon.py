"""builders for the tensor containers"""
from .common import FIELDS, check_tags, fields, rows_snap, same_fields, tags, with_prov

TPROVS = ("base", "stacked", "separate", "consolidated", "sliced", "indexed", "cloned", "loaded", "strided", "cpu:0", "colmajor")


def tn(cx, a):
    """a tensor holding a copy of the array"""
    return None if a is None else cx.torch().from_numpy(a.copy())


def tensor_of(cx, d, prov, pre="t"):
    """a GSTensor with the content of d and the given in-memory provenance"""
    gs, torch = cx.gs, cx.torch()
    T = gs.GSTensor
    n = len(d)
    if prov == "base":
        return T.from_gsdata(d.consolidate(), device="cpu")
    if prov == "stacked":
        return T.from_gsdata(d, device="cpu")
    if prov == "cpu:0":
        return T.from_gsdata(d, device="cpu:0")
    if prov in ("separate", "consolidated", "strided", "colmajor"):
        k = {f: tn(cx, getattr(d, f)) for f in FIELDS}
        if prov == "strided":
            k = {f: (None if v is None else torch.cat([v, v], dim=0).reshape(2, *v.shape).transpose(0, 1)[:, 1]) for f, v in k.items()}
        if prov == "colmajor":
            k = {f: (v if v is None or v.dim() < 2 else v.transpose(0, 1).contiguous().transpose(0, 1)) for f, v in k.items()}
        if k["shN"] is not None and k["shN"].shape[1] == 0 and prov == "consolidated":
            k["shN"] = None
        t = T(**k, masks=tn(cx, d.masks), mask_names=None if d.mask_names is None else list(d.mask_names), _format=d.format_state)
        return t.consolidate() if prov == "consolidated" else t
    if prov in ("sliced", "indexed"):
        both = T.from_gsdata(gs.GSData.concatenate([d, d]).consolidate(), device="cpu")
        both.masks = None if d.masks is None else torch.cat([tn(cx, d.masks)] * 2, dim=0)
        both.mask_names = d.mask_names
        return both[n:] if prov == "sliced" else both[list(range(n))]
    if prov == "cloned":
        return T.from_gsdata(d, device="cpu").clone()
    if prov == "loaded":
        p = cx.path(pre + "_prov.ply")
        d.save(p)
        t = T.load(p, device="cpu")
        t.masks, t.mask_names = tn(cx, d.masks), d.mask_names
        return t
    raise KeyError(prov)


class TSnap:
    """everything observable about a tensor container"""

    def __init__(self, cx, t):
        self.t = t
        self.ids = {k: getattr(t, k) for k in FIELDS}
        self.vals = {k: cx.snap(getattr(t, k)) for k in FIELDS}
        self.masks = cx.snap(t.masks)
        self.names = None if t.mask_names is None else list(t.mask_names)
        self.tags = tags(t)

    def unchanged(self, cx, label, objects=True):
        t = self.t
        for k in FIELDS:
            if objects:
                cx.check(f"{label}{k} still the same tensor", getattr(t, k) is self.ids[k])
            cx.same(f"{label}{k} values", getattr(t, k), self.vals[k])
        cx.same(label + "masks", t.masks, self.masks)
        cx.check(label + "mask names", (None if t.mask_names is None else list(t.mask_names)) == self.names)
        cx.check(label + "format tags", tags(t) == self.tags)


def same_masks(cx, label, t, masks, names):
    cx.same(label + "masks", t.masks, masks)
    cx.check(label + "mask names", (None if t.mask_names is None else list(t.mask_names)) == (None if names is None else list(names)))


def dtypes(cx, label, t, dt):
    for k in FIELDS:
        v = getattr(t, k)
        if v is not None:
            cx.check(f"{label}{k} dtype", v.dtype == dt)
