"""C10: mask layers behave as an ordered dictionary of boolean columns, over operation histories."""
from engine.driver import H
from .common import FIELDS, Snap, fields, layers2d, rows_snap, same_fields, with_prov

BOUNDS = ("scenes of 3 Gaussians (mask bits and field values symbolic), starting with no layers / the all-True layer of a file / named (N,) / "
          "unnamed (N,2) / named (N,3) layers; every history of 2 (thorough 3) operations out of 16, each followed by a full comparison of "
          "layers, names, get/combine results and errors with a dictionary model; combinations over up to 4 layers")
OUTSIDE = "longer histories; repeated or empty layer selections; direct assignment of masks/mask_names after creation"

NAMES = ("a", "b", "layer_0", "layer_1")


class Model:
    """ordered named boolean columns"""

    def __init__(self, names, cols):
        self.names, self.cols = list(names), list(cols)

    def copy(self):
        return Model(self.names, self.cols)


def start(cx, n, kind, prov):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, 0), format="ply")
    d = with_prov(cx, d, prov)
    if kind == "none":
        d.masks, d.mask_names = None, None
        return d, None, None
    if kind == "file":
        p = cx.path("s.ply")
        d.save(p)
        d = cx.gs.plyread(p)
        cx.same("file: all rows selected", d.masks, cx.np.ones(n, dtype=bool))
        cx.check("file: unnamed", d.mask_names is None)
        return d, ["layer_0"], [cx.snap(d.masks)]
    if kind == "1d":
        d.masks, d.mask_names = cx.arr("m", (n,), "bool"), ["a"]
        return d, ["a"], [cx.snap(d.masks)]
    w, names = {"2u": (2, None), "3": (3, ["a", "b", "c"])}[kind]
    d.masks, d.mask_names = cx.arr("m", (n, w), "bool"), None if names is None else [x for x in names]
    m = cx.snap(d.masks)
    return d, names or [f"layer_{i}" for i in range(w)], [m[:, i] for i in range(w)]


def fold(cx, cols, mode):
    np = cx.np
    r = cols[0]
    for c in cols[1:]:
        r = np.logical_and(r, c) if mode == "and" else np.logical_or(r, c)
    return r


def compare(cx, d, model, named):
    """every observation of the container agrees with the model"""
    np = cx.np
    if model is None:
        cx.check("no layers", d.masks is None and not d.mask_names)
        cx.raises("get without layers", lambda: d.get_mask_layer("a"))
        cx.raises("remove without layers", lambda: d.remove_mask_layer("a"))
        cx.raises("combine without layers", lambda: d.combine_masks())
        cx.raises("apply without layers", lambda: d.apply_masks())
        return
    m = layers2d(d.masks)
    cx.check("layer count", m is not None and m.shape == (len(d), len(model.cols)))
    for i, c in enumerate(model.cols):
        cx.same(f"layer {i}", m[:, i], c)
    if named:
        cx.check("names", list(d.mask_names) == model.names)
        for name, c in zip(model.names, model.cols):
            cx.same("get " + name, d.get_mask_layer(name), c)
            cx.same("combine one", d.combine_masks(mode="or", layers=[name]), c)
            k, v = cx.outcome(lambda: d.add_mask_layer(name, np.zeros(len(d), dtype=bool)))
            cx.check("duplicate name rejected", (k, v) == ("err", "ValueError"))
        cx.raises("get missing", lambda: d.get_mask_layer("nope"))
        cx.raises("remove missing", lambda: d.remove_mask_layer("nope"))
        cx.raises("combine missing", lambda: d.combine_masks(layers=["nope"]))
    cx.raises("bad mode", lambda: d.combine_masks(mode="xor"))
    cx.raises("wrong length mask", lambda: d.add_mask_layer("w", np.zeros(len(d) + 1, dtype=bool)))
    cx.raises("wrong shape mask", lambda: d.add_mask_layer("w", np.zeros((len(d), 1), dtype=bool)))
    for mode in ("and", "or"):
        cx.same("combine " + mode, d.combine_masks(mode=mode), fold(cx, model.cols, mode))
        if named and len(model.names) > 1:
            pick = [model.names[-1], model.names[0]]
            cx.same(f"combine {mode} chosen", d.combine_masks(mode=mode, layers=pick), fold(cx, [model.cols[-1], model.cols[0]], mode))


OPS = ("add a", "add b", "add layer_0", "add ints", "remove a", "remove first", "remove last", "tail", "index", "copy", "consolidate", "apply", "apply inplace",
       "add_scene", "with_format", "to_rgb")


def decide_bits(cx, col):
    """fork on every bit, giving a concrete mask"""
    return [bool(col[i]) for i in range(col.shape[0])]


def step(cx, d, names, cols, named, s, op, tag):
    """apply op to the container and to the model; returns both"""
    np = cx.np
    n = len(d)
    if op.startswith("add ") and op != "add ints":
        name = op[4:]
        m = cx.arr(f"new{tag}", (n,), "bool")
        mine = cx.snap(m)
        k, v = cx.outcome(lambda: d.add_mask_layer(name, m))
        if names is not None and name in names:
            cx.check("existing name rejected", (k, v) == ("err", "ValueError"))
        else:
            cx.check("new name accepted", k == "ok")
            # the caller may reuse its array
            m[:] = np.logical_not(m)
            names, cols, named = (names or []) + [name], (cols or []) + [mine], True
    elif op == "add ints":
        k, v = cx.outcome(lambda: d.add_mask_layer(f"ints{tag}", [i % 2 for i in range(n)]))
        cx.check("0/1 list accepted", k == "ok")
        names, cols, named = (names or []) + [f"ints{tag}"], (cols or []) + [np.array([i % 2 == 1 for i in range(n)], dtype=bool)], True
    elif op.startswith("remove"):
        have = names is not None and named
        name = {"remove a": "a", "remove first": names[0] if have else "x", "remove last": names[-1] if have else "x"}[op]
        k, v = cx.outcome(lambda: d.remove_mask_layer(name))
        if not have or name not in names:
            cx.check("missing name rejected", (k, v) == ("err", "ValueError"))
        else:
            cx.check("removed", k == "ok")
            i = names.index(name)
            names, cols = names[:i] + names[i + 1:], cols[:i] + cols[i + 1:]
            if not names:
                names = cols = None
    elif op in ("tail", "index"):
        idx = list(range(n))[1:] if op == "tail" else ([n - 1, 0] if n else [])
        d = d[1:] if op == "tail" else d[[n - 1, 0]] if n else d
        s = rows_snap(cx, s, idx)
        if cols is not None:
            ii = np.array(idx, dtype=np.int64)
            cols = [c[ii] if len(idx) else c[:0] for c in cols]
    elif op == "copy":
        d = d.copy()
    elif op == "consolidate":
        d = d.consolidate()
    elif op == "with_format":
        d = d.with_format()
    elif op == "to_rgb":
        d = d.to_rgb(inplace=False)
        s = dict(s, sh0=cx.snap(d.sh0))
    elif op in ("apply", "apply inplace"):
        if cols is not None:
            mode = cx.choice(f"mode{tag}", ["and", "or"])
            layers = None
            use = cols
            if named and len(names) > 1 and cx.bool(f"some{tag}"):
                layers, use = [names[-1], names[0]], [cols[-1], cols[0]]
            bits = decide_bits(cx, fold(cx, use, mode))
            idx = [i for i, b in enumerate(bits) if b]
            before = Snap(cx, d)
            r = d.apply_masks(mode=mode, layers=layers, inplace=op != "apply")
            if op == "apply":
                before.unchanged(cx, "apply leaves the source:")
            else:
                cx.check("inplace returns self", r is d)
            d = r
            s = rows_snap(cx, s, idx)
            ii = np.array(idx, dtype=np.int64)
            cols = [c[ii] if idx else c[:0] for c in cols]
    elif op == "add_scene":
        e = d[0:1].copy()
        e.masks, e.mask_names = None, None
        n0 = len(e)
        d = d + e
        s = {k: (None if v is None else np.concatenate([v, v[:1]], axis=0)) for k, v in s.items()}
        if cols is not None:
            cols = [np.concatenate([c, np.zeros(n0, dtype=bool)]) for c in cols]
    return d, names, cols, named, s


def h_hist(cx, n, kind, prov, first, length):
    d, names, cols = start(cx, n, kind, prov)
    named = kind not in ("file", "2u")
    s = {k: cx.snap(getattr(d, k)) for k in FIELDS}
    src, src_snap = d, None
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", OPS)
        prev, psnap = d, Snap(cx, d)
        d, names, cols, named, s = step(cx, d, names, cols, named, s, op, i)
        if d is not prev:
            # the object the new one was derived from keeps its layers, also when the new one changes
            psnap.unchanged(cx, "previous object:")
            src, src_snap = prev, psnap
    compare(cx, d, None if cols is None else Model(names, cols), named)
    same_fields(cx, "fields:", d, s)
    if src_snap is not None:
        src_snap.unchanged(cx, "earlier object:")
    if d.masks is not None:
        cx.observe("masks", d.masks)


def h_combine(cx, n, width, prov):
    """and/or over any layers"""
    d = cx.gs.GSData.from_arrays(**fields(cx, n, 0), format="ply")
    d = with_prov(cx, d, prov)
    d.masks, d.mask_names = None, None
    cols = []
    for i in range(width):
        m = cx.arr(f"m{i}", (n,), "bool")
        cols.append(cx.snap(m))
        d.add_mask_layer(f"n{i}", m)
    s = Snap(cx, d)
    for mode in ("and", "or"):
        cx.same("all " + mode, d.combine_masks(mode=mode), fold(cx, cols, mode))
        pick = [i for i in range(width) if cx.bool(f"p{i}")]
        if pick:
            cx.same("chosen " + mode, d.combine_masks(mode=mode, layers=[f"n{i}" for i in pick]), fold(cx, [cols[i] for i in pick], mode))
            back = pick[::-1]
            cx.same("reversed " + mode, d.combine_masks(mode=mode, layers=[f"n{i}" for i in back]), fold(cx, [cols[i] for i in pick], mode))
        cx.observe("c" + mode, d.combine_masks(mode=mode))
    s.unchanged(cx, "source:")


def harnesses(tier):
    out = []
    length = 2 if tier == "quick" else 3
    for kind in ("none", "file", "1d", "2u", "3"):
        for prov in ("fresh", "consolidated"):
            if kind == "file" and prov != "fresh":
                continue
            for op in OPS:
                out.append(H(f"hist[{kind},{prov},{op}]", h_hist, dict(n=3 if tier == "quick" else 2, kind=kind, prov=prov, first=op, length=length),
                             witnesses=1, paths=6000, budget=100, obs={"abs": 1e-6, "rel": 1e-5}))
    for n, w in ((0, 2), (1, 4), (3, 1), (3, 2), (2, 4), (5, 3)):
        out.append(H(f"combine[n={n},{w} layers]", h_combine, dict(n=n, width=w, prov="fresh"), witnesses=1, paths=2000))
    return out
