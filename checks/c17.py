"""C17: tensor containers hold, select, join, save and load exactly the Gaussians they were given."""
from engine.driver import H
from .common import BANDS, FIELDS, Snap, check_tags, fields, ply_tags, rows_of, rows_snap, same_fields, same_shn, snap, tags, with_prov
from .tcommon import TPROVS, TSnap, dtypes, same_masks, tensor_of, tn

BOUNDS = ("scenes of 0..4 Gaussians with every field value and mask bit symbolic (every float32 bit pattern), SH degree 0-3, 0-2 mask layers, 11 in-memory "
          "provenances of the tensor and 6 (thorough 10) of the source; every index, every slice start/stop/step in the stated range, every boolean mask, index lists; "
          "joins of any two provenances; dtypes float16/32/64; device cpu")
OUTSIDE = "CUDA devices, gradients beyond the requires_grad flag, larger scenes"


def scene(cx, n, deg, layers=0, fmt="ply", pre=""):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg, pre), format=fmt)
    if layers == 1:
        d.masks, d.mask_names = cx.arr(pre + "mask", (n,), "bool"), ["a"]
    elif layers > 1:
        d.masks, d.mask_names = cx.arr(pre + "mask", (n, layers), "bool"), ["a", "b", "c"][:layers]
    return d


def observe(cx, t, pre=""):
    for k in FIELDS:
        v = getattr(t, k)
        if v is not None and 0 not in v.shape:
            cx.observe(pre + k, v)


# ------------------------------------------------------------------------------ transfer

def h_transfer(cx, n, deg, prov, layers, grad):
    """GSData -> GSTensor -> GSData keeps everything; the source stays as it was"""
    gs, torch = cx.gs, cx.torch()
    d = with_prov(cx, scene(cx, n, deg, 0), prov)
    d.masks = None if not layers else cx.arr("mask", (n,) if layers == 1 else (n, layers), "bool")
    d.mask_names = ["a", "b"][:layers] if layers else None
    s = Snap(cx, d)
    t = gs.GSTensor.from_gsdata(d, device="cpu", requires_grad=grad)
    s.unchanged(cx, "source:")
    cx.check("count", len(t) == n)
    same_fields(cx, "tensor:", t, s.vals)
    same_masks(cx, "tensor:", t, s.masks, s.names)
    check_tags(cx, "tensor:", t, s.tags)
    dtypes(cx, "tensor:", t, torch.float32)
    cx.check("degree", t.get_sh_degree() == deg and t.has_high_order_sh() == (deg > 0))
    if grad:
        for k in FIELDS:
            if getattr(t, k) is not None:
                cx.check(k + " requires grad", getattr(t, k).requires_grad)
    else:
        cx.check("no grad", not any(getattr(t, k).requires_grad for k in FIELDS[:5]))
    e = t.to_gsdata()
    same_fields(cx, "back:", e, s.vals)
    same_masks(cx, "back:", e, s.masks, s.names)
    check_tags(cx, "back:", e, s.tags)
    observe(cx, e)


def h_back(cx, n, deg, prov, layers):
    """a tensor of any provenance converted to NumPy"""
    d = scene(cx, n, deg, layers)
    t = tensor_of(cx, d, prov)
    s = TSnap(cx, t)
    same_fields(cx, "built:", t, snap(cx, d))
    same_masks(cx, "built:", t, cx.snap(d.masks), d.mask_names)
    for label, e in (("to_gsdata:", t.to_gsdata()), ("again:", cx.gs.GSTensor.from_gsdata(t.to_gsdata(), device="cpu").to_gsdata())):
        same_fields(cx, label, e, s.vals)
        same_masks(cx, label, e, s.masks, s.names)
        cx.check(label + "tags", tags(e) == s.tags)
        p = cx.path(label[:4] + ".ply")
        e.save(p)
        same_fields(cx, label + "saved:", cx.gs.plyread(p), s.vals)
    s.unchanged(cx, "source:")
    observe(cx, e)


def h_masked_transfer(cx, n, deg, prov, layers):
    """from_gsdata(mask=) takes the selected rows in order"""
    gs = cx.gs
    d = with_prov(cx, scene(cx, n, deg, 0), prov)
    d.masks = None if not layers else cx.arr("mask", (n, layers), "bool")
    d.mask_names = ["a", "b"][:layers] if layers else None
    m = [cx.bool(f"keep{i}") for i in range(n)]
    idx = [i for i in range(n) if m[i]]
    s = Snap(cx, d)
    t = gs.GSTensor.from_gsdata(d, device="cpu", mask=cx.np.array(m, dtype=bool))
    same_fields(cx, "masked:", t, rows_snap(cx, s.vals, idx))
    same_masks(cx, "masked:", t, rows_of(cx, s.masks, idx), s.names)
    check_tags(cx, "masked:", t, s.tags)
    cx.raises("wrong length", lambda: gs.GSTensor.from_gsdata(d, device="cpu", mask=cx.np.ones(n + 1, dtype=bool)))
    s.unchanged(cx, "source:")
    observe(cx, t)


def h_dtype(cx, n, deg, prov, layers):
    """dtype changes convert every value and nothing else"""
    np, torch = cx.np, cx.torch()
    d = scene(cx, n, deg, layers)
    for v in (d.means, d.scales, d.quats, d.sh0):
        for i in range(n):
            for j in range(3):
                cx.assume(cx.land(cx.R(v[i, j]) <= cx.F(60000), cx.R(v[i, j]) >= cx.F(-60000)))
    t = tensor_of(cx, d, prov)
    s = TSnap(cx, t)
    for name, f, nd, td in (("half", lambda: t.half(), np.float16, torch.float16), ("double", lambda: t.double(), np.float64, torch.float64),
                            ("float", lambda: t.float(), np.float32, torch.float32),
                            ("to_dtype", lambda: t.to_dtype(torch.float64), np.float64, torch.float64),
                            ("to", lambda: t.to(dtype=torch.float64), np.float64, torch.float64),
                            ("to both", lambda: t.to("cpu", dtype=torch.float64), np.float64, torch.float64),
                            ("from_gsdata", lambda: cx.gs.GSTensor.from_gsdata(d, device="cpu", dtype=torch.float64), np.float64, torch.float64)):
        r = f()
        dtypes(cx, name + ":", r, td)
        cx.check(name + " dtype", r.dtype == td)
        same_fields(cx, name + ":", r, {k: None if v is None else v.astype(nd) for k, v in s.vals.items()})
        same_masks(cx, name + ":", r, s.masks, s.names)
        cx.check(name + " tags", tags(r) == s.tags)
    w = t.double().float()
    same_fields(cx, "there and back:", w, s.vals)
    for name, r in (("cpu", t.cpu()), ("to nothing", t.to()), ("to same", t.to("cpu", dtype=torch.float32))):
        same_fields(cx, name + ":", r, s.vals)
        same_masks(cx, name + ":", r, s.masks, s.names)
        cx.check(name + " tags", tags(r) == s.tags)
    s.unchanged(cx, "source:")
    observe(cx, w)


# ------------------------------------------------------------------------------ selection

def picked(cx, label, r, s, idx):
    same_fields(cx, label, r, rows_snap(cx, s.vals, idx))
    same_masks(cx, label, r, rows_of(cx, s.masks, idx), s.names)
    cx.check(label + "tags", tags(r) == s.tags)
    cx.check(label + "count", len(r) == len(idx))
    # the selection is a scene of its own
    same_fields(cx, label + "to_gsdata:", r.to_gsdata(), rows_snap(cx, s.vals, idx))


def h_int(cx, n, deg, prov, layers):
    t = tensor_of(cx, scene(cx, n, deg, layers), prov)
    s = TSnap(cx, t)
    for i in range(-n - 2, n + 2):
        k, row = cx.outcome(lambda: t[i])
        g, one = cx.outcome(lambda: t.get_gaussian(i))
        if not -n <= i < n:
            cx.check("out of range", (k, row) == ("err", "IndexError"))
            cx.check("out of range gaussian", (g, one) == ("err", "IndexError"))
            continue
        cx.check("a tuple of seven", k == "ok" and isinstance(row, tuple) and len(row) == 7)
        for v, f in zip(row[:5], FIELDS[:5]):
            cx.same(f"[{f}]", v, s.vals[f][i])
        if s.vals["shN"] is None:
            cx.check("[shN]", row[5] is None)
        else:
            cx.same("[shN]", row[5], s.vals["shN"][i])
        if s.masks is None:
            cx.check("[masks]", row[6] is None)
        else:
            cx.same("[masks]", row[6], s.masks[i])
        cx.check("gaussian", g == "ok")
        picked(cx, "gaussian:", one, s, [i % n])
    for bad in ("x", 1.5, None, (1, 2)):
        cx.raises("bad key", lambda: t[bad], (TypeError,))
    s.unchanged(cx, "source:")
    observe(cx, t)


def h_slice(cx, n, deg, prov, layers, step):
    t = tensor_of(cx, scene(cx, n, deg, layers), prov)
    s = TSnap(cx, t)
    b = [None] + list(range(-n - 1, n + 2))
    start, stop = cx.choice("start", b), cx.choice("stop", b)
    key = slice(start, stop, step)
    r = t[key]
    picked(cx, "slice:", r, s, list(range(n))[key])
    s.unchanged(cx, "source:")
    observe(cx, r)


def h_mask(cx, n, deg, prov, layers, kind):
    torch, np = cx.torch(), cx.np
    t = tensor_of(cx, scene(cx, n, deg, layers), prov)
    s = TSnap(cx, t)
    m = [cx.bool(f"keep{i}") for i in range(n)]
    idx = [i for i in range(n) if m[i]]
    key = {"list": m, "array": np.array(m, dtype=bool), "tensor": torch.tensor(m, dtype=torch.bool)}[kind]
    picked(cx, "mask:", t[key], s, idx)
    short = {"list": m[1:], "array": np.array(m + [True], dtype=bool), "tensor": torch.tensor(m + [True], dtype=torch.bool)}[kind]
    if len(short):
        cx.raises("wrong length", lambda: t[short])
    s.unchanged(cx, "source:")
    observe(cx, t[key])


def h_list(cx, n, deg, prov, layers, kind):
    torch, np = cx.torch(), cx.np
    t = tensor_of(cx, scene(cx, n, deg, layers), prov)
    s = TSnap(cx, t)
    idx = [cx.choice("i0", range(-n, n)), cx.choice("i1", range(-n, n)), 0]
    key = {"list": idx, "array": np.array(idx, dtype=np.int64), "array32": np.array(idx, dtype=np.int32), "tensor": torch.tensor(idx, dtype=torch.int64)}[kind]
    picked(cx, "list:", t[key], s, [i % n for i in idx])
    if kind == "list":
        picked(cx, "empty list:", t[[]], s, [])
    out = {"list": [n], "array": np.array([n]), "array32": np.array([-n - 1], dtype=np.int32), "tensor": torch.tensor([n])}[kind]
    cx.raises("out of range", lambda: t[out], (IndexError,))
    s.unchanged(cx, "source:")
    observe(cx, t[key])


# ------------------------------------------------------------------------------ joining

def zrows(cx, m, n):
    return cx.np.zeros((n,) + m.shape[1:], dtype=bool)


def h_add(cx, n, m, deg, p1, p2, l1, l2):
    np = cx.np
    a, b = scene(cx, n, deg, l1), scene(cx, m, deg, l2, pre="o")
    if l2 and l1 != l2:
        b.mask_names = ["x", "y", "z"][:l2]
    t, u = tensor_of(cx, a, p1), tensor_of(cx, b, p2, pre="u")
    s, r = TSnap(cx, t), TSnap(cx, u)
    want = {k: (None if s.vals[k] is None or r.vals[k] is None else np.concatenate([s.vals[k], r.vals[k]], axis=0)) for k in FIELDS}
    ref = (a + b)
    for label, c in (("+:", t + u), ("add:", t.add(u)), ("sum:", sum([t, u]))):
        same_fields(cx, label, c, want)
        cx.check(label + "tags", tags(c) == s.tags)
        cx.check(label + "count", len(c) == n + m)
        same_masks(cx, label, c, cx.snap(ref.masks), ref.mask_names)
        same_fields(cx, label + "to_gsdata:", c.to_gsdata(), want)
        if l1 and not l2:
            cx.same(label + "rows without layers are not selected", c.masks, np.concatenate([s.masks, zrows(cx, s.masks, m)], axis=0))
        if l2 and not l1:
            cx.same(label + "rows without layers are not selected", c.masks, np.concatenate([zrows(cx, r.masks, n), r.masks], axis=0))
    s.unchanged(cx, "left:")
    r.unchanged(cx, "right:")
    observe(cx, c)


def h_add_reject(cx, deg, prov):
    """scenes of different degree or format are not joined"""
    torch = cx.torch()
    t = tensor_of(cx, scene(cx, 2, deg), prov)
    o = tensor_of(cx, scene(cx, 1, (deg + 1) % 4, pre="o"), prov, pre="o")
    s = TSnap(cx, t)
    for label, f in (("degree", lambda: t + o), ("degree swapped", lambda: o.add(t)),
                     ("format", lambda: t + tensor_of(cx, scene(cx, 1, deg, fmt="linear", pre="l"), "stacked", pre="l")),
                     ("colour format", lambda: t + t.to_rgb(inplace=False))):
        k, v = cx.outcome(f)
        cx.check(label + " rejected", (k, v) == ("err", "ValueError"))
    # another dtype is converted to the left one
    h = t.double()
    c = t + h
    dtypes(cx, "mixed dtype:", c, torch.float32)
    same_fields(cx, "mixed dtype:", c, {k: None if v is None else cx.np.concatenate([v, v], axis=0) for k, v in s.vals.items()})
    s.unchanged(cx, "source:")
    cx.observe("m", c.means)


# ------------------------------------------------------------------------------ constructing, unpacking

def h_arrays(cx, n, deg, shn):
    """from_arrays / from_dict / unpack / to_dict keep the tensors' values; the presets set the tags"""
    gs, torch = cx.gs, cx.torch()
    f = fields(cx, n, deg, shn=shn)
    k = {x: tn(cx, v) for x, v in f.items()}
    for fmt, kind in (("ply", "PLY"), ("linear", "LINEAR"), ("rasterizer", "LINEAR")):
        for label, t in (("from_arrays:", gs.GSTensor.from_arrays(**k, format=fmt)), ("from_dict:", gs.GSTensor.from_dict(dict(k), format=fmt, device="cpu"))):
            same_fields(cx, label, t, f)
            check_tags(cx, label, t, ply_tags(deg, kind=kind))
            cx.check(label + "no masks", t.masks is None and not t.mask_names)
            dtypes(cx, label, t, torch.float32)
    u = t.unpack()
    cx.check("six parts", len(u) == 6 and len(t.unpack(include_shN=False)) == 5)
    for name, v, w in zip(FIELDS, (t.means, t.scales, t.quats, t.opacities, t.sh0, t.shN), u):
        cx.check("unpack " + name, v is w)
    for v, w in zip(t.unpack(include_shN=False), u):
        cx.check("unpack without shN", v is w)
    dd = t.to_dict()
    cx.check("dict keys", sorted(dd) == sorted(FIELDS))
    for name in FIELDS:
        cx.check("dict " + name, dd[name] is getattr(t, name))
    r = gs.GSTensor.from_dict(t.to_dict(), format="linear", device="cpu")
    same_fields(cx, "again:", r, f)
    rgb = gs.GSTensor.from_arrays(**k, format="ply", sh0_format=_fmt(cx, "SH0_RGB"), dtype=torch.float64)
    check_tags(cx, "rgb:", rgb, ply_tags(deg, sh0="SH0_RGB"))
    dtypes(cx, "rgb:", rgb, torch.float64)
    cx.raises("unknown preset", lambda: gs.GSTensor.from_arrays(**k, format="other"))
    cx.raises("unknown preset dict", lambda: gs.GSTensor.from_dict(k, format="other", device="cpu"))
    observe(cx, t)


def _fmt(cx, name):
    from gsply.gsdata import DataFormat
    return getattr(DataFormat, name)


def h_auto(cx, n, deg):
    """without stated format, the tags are those the CPU container detects from the same values"""
    gs = cx.gs
    f = fields(cx, n, deg, lo=-20.0, hi=20.0)
    d = gs.GSData.from_arrays(**f, format="auto")
    e = gs.GSData(**f)
    k = {x: tn(cx, v) for x, v in f.items()}
    for label, t in (("from_arrays:", gs.GSTensor.from_arrays(**k)), ("constructor:", gs.GSTensor(**k)), ("from_dict:", gs.GSTensor.from_dict(k, device="cpu"))):
        cx.check(label + "tags", tags(t) == tags(d))
        cx.check(label + "tags as GSData()", tags(t) == tags(e))
        same_fields(cx, label, t, f)
    cx.observe("m", t.means)


# ------------------------------------------------------------------------------ files

def h_save(cx, n, deg, prov, layers):
    """an uncompressed save is the file the CPU container writes; loading it gives the same tensors"""
    gs = cx.gs
    d = scene(cx, n, deg, layers)
    t = tensor_of(cx, d, prov)
    s = TSnap(cx, t)
    p, q = cx.path("t.ply"), cx.path("d.ply")
    t.save(p, compressed=False)
    d.save(q)
    s.unchanged(cx, "saved:")
    cx.same_items("bytes", cx.read(p), cx.read(q))
    r = gs.GSTensor.load(p, device="cpu")
    same_fields(cx, "loaded:", r, s.vals)
    check_tags(cx, "loaded:", r, ply_tags(deg))
    e = gs.plyread(p)
    same_masks(cx, "loaded:", r, cx.snap(e.masks), e.mask_names)
    observe(cx, r)


def h_consolidate(cx, n, deg, prov, layers):
    """consolidate, clone, with_format and repr change nothing visible"""
    t = tensor_of(cx, scene(cx, n, deg, layers), prov)
    s = TSnap(cx, t)
    for label, r in (("consolidate:", t.consolidate()), ("clone:", t.clone()), ("with_format:", t.with_format()), ("twice:", t.consolidate().clone().consolidate())):
        same_fields(cx, label, r, s.vals)
        same_masks(cx, label, r, s.masks, s.names)
        cx.check(label + "tags", tags(r) == s.tags)
    w = t.with_format(scales=_fmt(cx, "SCALES_LINEAR"))
    cx.check("updated tag", tags(w) == dict(s.tags, scales="SCALES_LINEAR"))
    same_fields(cx, "updated:", w, s.vals)
    cx.raises("unknown tag", lambda: t.with_format(colour=1))
    f = t.format_state
    f["scales"] = None
    x = t.clone()
    x.copy_format_from(w)
    cx.check("copied tags", tags(x) == tags(w))
    x.denormalize()
    cx.check("own tags", tags(w) == dict(s.tags, scales="SCALES_LINEAR"))
    s.unchanged(cx, "source:")
    observe(cx, r)


def harnesses(tier):
    out = []
    th = tier != "quick"

    def add(name, fn, w=1, paths=3000, **p):
        out.append(H(name, fn, p, torch=True, witnesses=w, paths=paths, budget=100))
    for deg in range(4):
        for prov in ("fresh", "consolidated", "read", "sliced", "stepped", "masked", "strided", "contiguous", "fortran", "flipped") if th else ("fresh", "consolidated", "stepped", "strided", "fortran", "flipped"):
            for n, layers in ((0, 0), (1, 1), (3, 2)):
                add(f"transfer[n={n},deg={deg},{prov},{layers} layers]", h_transfer, n=n, deg=deg, prov=prov, layers=layers, grad=n == 1)
        for prov in TPROVS:
            for n, layers in ((2, 1), (3, 2), (0, 0), (1, 0)) if th else ((2, 1),):
                add(f"back[n={n},deg={deg},{prov}]", h_back, n=n, deg=deg, prov=prov, layers=layers)
        for prov in ("fresh", "consolidated"):
            add(f"masked transfer[n=3,deg={deg},{prov}]", h_masked_transfer, n=3, deg=deg, prov=prov, layers=deg % 3)
        for shn in ("empty", "none") if deg == 0 else ("empty",):
            add(f"arrays[deg={deg},{shn}]", h_arrays, n=2, deg=deg, shn=shn)
    for prov in TPROVS:
        for deg in (0, 1, 2, 3) if th else ((0, 2) if prov in ("base", "separate") else (1,)):
            add(f"dtype[deg={deg},{prov}]", h_dtype, n=1, deg=deg, prov=prov, layers=2 if deg else 0)
            add(f"int[n=2,deg={deg},{prov}]", h_int, n=2, deg=deg, prov=prov, layers=deg % 3)
            for step in (None, 1, 2, 3):
                n = 4 if th else 3
                add(f"slice[n={n},deg={deg},{prov},step={step}]", h_slice, n=n, deg=deg, prov=prov, layers=deg % 3, step=step)
            for kind in ("list", "array", "tensor"):
                add(f"mask[{kind},n=3,deg={deg},{prov}]", h_mask, n=3, deg=deg, prov=prov, layers=2 if deg else 0, kind=kind)
            for kind in ("list", "array", "array32", "tensor"):
                add(f"list[{kind},n=2,deg={deg},{prov}]", h_list, n=2, deg=deg, prov=prov, layers=deg % 3, kind=kind)
            add(f"save[deg={deg},{prov}]", h_save, n=2, deg=deg, prov=prov, layers=1)
            add(f"consolidate[deg={deg},{prov}]", h_consolidate, n=2, deg=deg, prov=prov, layers=2 if deg else 0)
            add(f"reject[deg={deg},{prov}]", h_add_reject, deg=deg, prov=prov)
    add("int[n=0]", h_int, n=0, deg=0, prov="stacked", layers=0)
    for p1, p2 in [("base", "base"), ("separate", "separate"), ("base", "separate"), ("sliced", "stacked"), ("strided", "indexed")]:
        for deg in range(4) if th else (0, 1):
            for l1, l2 in ((0, 0), (1, 1), (1, 0), (0, 2), (2, 0), (0, 1), (2, 2), (1, 2), (3, 2)):
                add(f"add[deg={deg},{p1}+{p2},{l1}+{l2} layers]", h_add, n=2, m=1, deg=deg, p1=p1, p2=p2, l1=l1, l2=l2)
    for n, m in ((0, 2), (2, 0), (0, 0)):
        add(f"add[n={n}+{m}]", h_add, n=n, m=m, deg=1, p1="base", p2="separate", l1=1, l2=1)
    for deg in (0, 1):
        for n in (1, 2):
            add(f"auto[n={n},deg={deg}]", h_auto, n=n, deg=deg)
    return out
