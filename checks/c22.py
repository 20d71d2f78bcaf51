"""C22: mask layers of tensor containers behave as an ordered dictionary of boolean columns, over operation histories."""
from engine.driver import H
from .common import FIELDS, fields, layers2d, rows_snap, same_fields
from .c10 import Model, decide_bits, fold
from .tcommon import TSnap, tensor_of, tn

BOUNDS = ("tensor scenes of 3 Gaussians (mask bits and field values symbolic), starting with no layers / the all-True layer of a file / named (N,) / "
          "unnamed (N,2) / named (N,3) layers; every history of 2 (thorough 3) operations out of 19, each followed by a full comparison of "
          "layers, names, get/combine results and errors with a dictionary model; combinations over up to 4 layers; "
          "joins of every pair of layer kinds (none, one or two layers, named or not) over 4 pairs of provenances; device cpu")
OUTSIDE = "longer histories; repeated or empty layer selections; direct assignment of masks/mask_names after creation; CUDA devices"


def start(cx, n, kind, prov):
    torch = cx.torch()
    d = cx.gs.GSData.from_arrays(**fields(cx, n, 0), format="ply")
    if kind == "file":
        p = cx.path("s.ply")
        d.save(p)
        t = cx.gs.GSTensor.load(p, device="cpu")
        cx.same("file: all rows selected", t.masks, cx.np.ones(n, dtype=bool))
        cx.check("file: unnamed", t.mask_names is None)
        return t, ["layer_0"], [cx.snap(t.masks)]
    t = tensor_of(cx, d, prov)
    t.masks, t.mask_names = None, None
    if kind == "none":
        return t, None, None
    if kind == "1d":
        t.masks, t.mask_names = tn(cx, cx.arr("m", (n,), "bool")), ["a"]
        return t, ["a"], [cx.snap(t.masks)]
    w, names = {"2u": (2, None), "3": (3, ["a", "b", "c"])}[kind]
    t.masks, t.mask_names = tn(cx, cx.arr("m", (n, w), "bool")), None if names is None else [x for x in names]
    m = cx.snap(t.masks)
    return t, names or [f"layer_{i}" for i in range(w)], [m[:, i] for i in range(w)]


def compare(cx, t, model, named):
    torch = cx.torch()
    n = len(t)
    if model is None:
        cx.check("no layers", t.masks is None and not t.mask_names)
        cx.raises("get without layers", lambda: t.get_mask_layer("a"))
        cx.raises("remove without layers", lambda: t.remove_mask_layer("a"))
        cx.raises("combine without layers", lambda: t.combine_masks())
        cx.raises("apply without layers", lambda: t.apply_masks())
        return
    m = layers2d(t.masks)
    cx.check("layer count", m is not None and tuple(m.shape) == (n, len(model.cols)))
    for i, c in enumerate(model.cols):
        cx.same(f"layer {i}", m[:, i], c)
    if named:
        cx.check("names", list(t.mask_names) == model.names)
        for name, c in zip(model.names, model.cols):
            cx.same("get " + name, t.get_mask_layer(name), c)
            cx.same("combine one", t.combine_masks(mode="or", layers=[name]), c)
            k, v = cx.outcome(lambda: t.add_mask_layer(name, torch.zeros(n, dtype=torch.bool)))
            cx.check("duplicate name rejected", (k, v) == ("err", "ValueError"))
        cx.raises("get missing", lambda: t.get_mask_layer("nope"))
        cx.raises("remove missing", lambda: t.remove_mask_layer("nope"))
        cx.raises("combine missing", lambda: t.combine_masks(layers=["nope"]))
    cx.raises("bad mode", lambda: t.combine_masks(mode="xor"))
    cx.raises("wrong length mask", lambda: t.add_mask_layer("w", torch.zeros(n + 1, dtype=torch.bool)))
    cx.raises("wrong shape mask", lambda: t.add_mask_layer("w", torch.zeros((n, 1), dtype=torch.bool)))
    for mode in ("and", "or"):
        cx.same("combine " + mode, t.combine_masks(mode=mode), fold(cx, model.cols, mode))
        if named and len(model.names) > 1:
            pick = [model.names[-1], model.names[0]]
            cx.same(f"combine {mode} chosen", t.combine_masks(mode=mode, layers=pick), fold(cx, [model.cols[-1], model.cols[0]], mode))
    e = t.to_gsdata()
    cx.same("to_gsdata masks", e.masks, cx.snap(t.masks))
    cx.check("to_gsdata names", (None if e.mask_names is None else list(e.mask_names)) == (None if t.mask_names is None else list(t.mask_names)))


OPS = ("add a", "add b", "add layer_0", "add list", "add ints", "add array", "remove a", "remove first", "remove last", "tail", "index", "clone", "consolidate",
       "apply", "apply inplace", "add_scene", "with_format", "to_rgb", "there and back")


def step(cx, t, names, cols, named, s, op, tag):
    np, torch = cx.np, cx.torch()
    n = len(t)
    if op in ("add a", "add b", "add layer_0", "add array"):
        name = op[4:]
        m = cx.arr(f"new{tag}", (n,), "bool")
        mine = cx.snap(m)
        given = m if op == "add array" else tn(cx, m)
        k, v = cx.outcome(lambda: t.add_mask_layer(name, given))
        if names is not None and name in names:
            cx.check("existing name rejected", (k, v) == ("err", "ValueError"))
        else:
            cx.check("new name accepted", k == "ok")
            # the caller may reuse its array
            if op == "add array":
                given[:] = np.logical_not(given)
            else:
                given[:] = ~given
            names, cols, named = (names or []) + [name], (cols or []) + [mine], True
    elif op in ("add ints", "add list"):
        bits = [i % 2 == 1 for i in range(n)]
        given = torch.tensor([int(b) for b in bits], dtype=torch.int64) if op == "add ints" else bits
        k, v = cx.outcome(lambda: t.add_mask_layer(f"{op}{tag}", given))
        cx.check("0/1 values accepted", k == "ok")
        names, cols, named = (names or []) + [f"{op}{tag}"], (cols or []) + [np.array(bits, dtype=bool)], True
    elif op.startswith("remove"):
        have = names is not None and named
        name = {"remove a": "a", "remove first": names[0] if have else "x", "remove last": names[-1] if have else "x"}[op]
        k, v = cx.outcome(lambda: t.remove_mask_layer(name))
        if not have or name not in names:
            cx.check("missing name rejected", (k, v) == ("err", "ValueError"))
        else:
            cx.check("removed", k == "ok")
            i = names.index(name)
            names, cols = names[:i] + names[i + 1:], cols[:i] + cols[i + 1:]
            if not names:
                names = cols = None
    elif op in ("tail", "index"):
        idx = list(range(n))[1:] if op == "tail" else ([n - 1, 0] if n else [])
        t = t[1:] if op == "tail" else t[[n - 1, 0]] if n else t
        s = rows_snap(cx, s, idx)
        if cols is not None:
            ii = np.array(idx, dtype=np.int64)
            cols = [c[ii] if len(idx) else c[:0] for c in cols]
    elif op == "clone":
        t = t.clone()
    elif op == "consolidate":
        t = t.consolidate()
    elif op == "with_format":
        t = t.with_format()
    elif op == "there and back":
        t = cx.gs.GSTensor.from_gsdata(t.to_gsdata(), device="cpu")
    elif op == "to_rgb":
        t = t.to_rgb(inplace=False)
        s = dict(s, sh0=cx.snap(t.sh0))
    elif op in ("apply", "apply inplace"):
        if cols is not None:
            mode = cx.choice(f"mode{tag}", ["and", "or"])
            layers = None
            use = cols
            if named and len(names) > 1 and cx.bool(f"some{tag}"):
                layers, use = [names[-1], names[0]], [cols[-1], cols[0]]
            bits = decide_bits(cx, fold(cx, use, mode))
            idx = [i for i, b in enumerate(bits) if b]
            before = TSnap(cx, t)
            r = t.apply_masks(mode=mode, layers=layers, inplace=op != "apply")
            if op == "apply":
                before.unchanged(cx, "apply leaves the source:")
            else:
                cx.check("inplace returns self", r is t)
            t = r
            s = rows_snap(cx, s, idx)
            ii = np.array(idx, dtype=np.int64)
            cols = [c[ii] if idx else c[:0] for c in cols]
    elif op == "add_scene":
        e = t[0:1].clone()
        e.masks, e.mask_names = None, None
        n0 = len(e)
        t = t + e
        s = {k: (None if v is None else np.concatenate([v, v[:1]], axis=0)) for k, v in s.items()}
        if cols is not None:
            cols = [np.concatenate([c, np.zeros(n0, dtype=bool)]) for c in cols]
    return t, names, cols, named, s


def h_hist(cx, n, kind, prov, first, length):
    t, names, cols = start(cx, n, kind, prov)
    named = kind not in ("file", "2u")
    s = {k: cx.snap(getattr(t, k)) for k in FIELDS}
    src_snap = None
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", OPS)
        prev, psnap = t, TSnap(cx, t)
        t, names, cols, named, s = step(cx, t, names, cols, named, s, op, i)
        if t is not prev:
            psnap.unchanged(cx, "previous object:")
            src_snap = psnap
    compare(cx, t, None if cols is None else Model(names, cols), named)
    same_fields(cx, "fields:", t, s)
    if src_snap is not None:
        # an earlier object keeps its layers when the later one changes
        src_snap.unchanged(cx, "earlier object:")
    if t.masks is not None:
        cx.observe("masks", t.masks)


def h_combine(cx, n, width):
    t = tensor_of(cx, cx.gs.GSData.from_arrays(**fields(cx, n, 0), format="ply"), "separate")
    cols = []
    for i in range(width):
        m = cx.arr(f"m{i}", (n,), "bool")
        cols.append(cx.snap(m))
        t.add_mask_layer(f"n{i}", tn(cx, m))
    s = TSnap(cx, t)
    for mode in ("and", "or"):
        cx.same("all " + mode, t.combine_masks(mode=mode), fold(cx, cols, mode))
        pick = [i for i in range(width) if cx.bool(f"p{i}")]
        if pick:
            cx.same("chosen " + mode, t.combine_masks(mode=mode, layers=[f"n{i}" for i in pick]), fold(cx, [cols[i] for i in pick], mode))
            back = pick[::-1]
            cx.same("reversed " + mode, t.combine_masks(mode=mode, layers=[f"n{i}" for i in back]), fold(cx, [cols[i] for i in pick], mode))
        cx.observe("c" + mode, t.combine_masks(mode=mode))
    s.unchanged(cx, "source:")


KINDS = {"none": (None, None), "1u": (1, None), "1n": (1, ("a",)), "2u": (2, None), "2n": (2, ("a", "b")), "2m": (2, ("x", "y"))}


def layered(cx, n, kind, prov, pre):
    t = tensor_of(cx, cx.gs.GSData.from_arrays(**fields(cx, n, 0, pre=pre), format="ply"), prov, pre=pre)
    w, names = KINDS[kind]
    t.masks = None if w is None else tn(cx, cx.arr(pre + "m", (n,) if w == 1 else (n, w), "bool"))
    t.mask_names = None if names is None else list(names)
    return t


def h_join(cx, n, m, left, right, p1, p2):
    """layers of a join: those of both where both have as many, False where one side has none, left names first"""
    np = cx.np
    t, u = layered(cx, n, left, p1, "l"), layered(cx, m, right, p2, "r")
    s, r = TSnap(cx, t), TSnap(cx, u)
    (wl, nl), (wr, nr) = KINDS[left], KINDS[right]
    none = wl is None and wr is None or wl is not None and wr is not None and wl != wr
    names = None if none else list(nl or nr or ()) or None
    w = None if none else wl or wr
    fill = lambda x, k: np.zeros((k, w), dtype=bool) if x is None else layers2d(x)
    for label, c in (("+:", t + u), ("add:", t.add(u)), ("sum:", sum([t, u]))):
        cx.check(label + "count", len(c) == n + m)
        if none:
            cx.check(label + "no layers", c.masks is None and not c.mask_names)
        else:
            cx.same(label + "layers", layers2d(cx.snap(c.masks)), np.concatenate([fill(s.masks, n), fill(r.masks, m)], axis=0))
            cx.check(label + "names", (None if c.mask_names is None else list(c.mask_names)) == names)
            for i, name in enumerate(names or ()):
                cx.same(label + "get " + name, c.get_mask_layer(name), layers2d(cx.snap(c.masks))[:, i])
            if names:
                # the result's layers can be edited without touching the parts
                c.remove_mask_layer(names[0])
                c.add_mask_layer("new", np.ones(n + m, dtype=bool))
    s.unchanged(cx, "left:")
    r.unchanged(cx, "right:")
    cx.observe("means", (t + u).means)


def harnesses(tier):
    out = []
    length = 2 if tier == "quick" else 3
    for kind in ("none", "file", "1d", "2u", "3"):
        for prov in ("separate", "base"):
            if kind == "file" and prov != "base":
                continue
            for op in OPS:
                out.append(H(f"hist[{kind},{prov},{op}]", h_hist, dict(n=3 if tier == "quick" else 2, kind=kind, prov=prov, first=op, length=length),
                             witnesses=1, paths=6000, budget=100, torch=True, obs={"abs": 1e-6, "rel": 1e-5}))
    for left in KINDS:
        for right in KINDS:
            for p1, p2 in (("base", "base"), ("separate", "base"), ("base", "separate"), ("sliced", "cloned")):
                if tier != "quick" or p1 == p2 or (list(KINDS).index(left) + list(KINDS).index(right) + len(p1)) % 2:
                    out.append(H(f"join[{left}+{right},{p1}+{p2}]", h_join, dict(n=2, m=1, left=left, right=right, p1=p1, p2=p2), witnesses=1, torch=True))
    out.append(H("join[n=0]", h_join, dict(n=0, m=2, left="2u", right="2n", p1="separate", p2="separate"), witnesses=1, torch=True))
    for n, w in ((0, 2), (1, 4), (3, 1), (3, 2), (2, 4), (5, 3)):
        out.append(H(f"combine[n={n},{w} layers]", h_combine, dict(n=n, width=w), witnesses=1, paths=2000, torch=True))
    return out
