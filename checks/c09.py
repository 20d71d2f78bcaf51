"""C09: indexing, slicing and selection."""
from engine.driver import H
from .common import FIELDS, Snap, check_tags, fields, observe, ply_tags, rows_of, rows_snap, same_fields, tags, with_prov

BOUNDS = ("scenes of 0..4 Gaussians, every float32 bit pattern and every mask bit symbolic, SH degree 0-3, provenances fresh/column-major/backward/consolidated/read/"
          "stepped slice; every slice with start/stop in {None,-N-2..N+2} and step in {None,+-1,+-2,+-3}; every int in -N-2..N+1; every boolean "
          "mask of length N and wrong lengths; every index list of length <=2 (thorough 3) over -N-1..N; two chained selections")
OUTSIDE = "larger scenes; NumPy scalar and multi-dimensional keys"


def scene(cx, n, deg, prov, masks):
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="linear" if masks == "lin" else "ply")
    d = with_prov(cx, d, prov, deg)
    if masks == "2d":
        d.masks, d.mask_names = cx.arr("mask", (n, 2), "bool"), ["a", "b"]
    elif masks == "1d":
        d.masks, d.mask_names = cx.arr("mask", (n,), "bool"), ["a"]
    else:
        d.masks, d.mask_names = None, None
    return d


def expect(cx, label, r, s, idx, deg, view=None):
    """r is the container made of the rows idx of the snapshot s"""
    cx.check(label + "length", len(r) == len(idx))
    cx.check(label + "degree", r.get_sh_degree() == deg)
    same_fields(cx, label, r, rows_snap(cx, s.vals, idx))
    cx.same(label + "masks", r.masks, rows_of(cx, s.masks, idx))
    cx.check(label + "mask names", (None if r.mask_names is None else list(r.mask_names)) == s.names)
    cx.check(label + "tags", tags(r) == s.tags)
    if idx and view is not None:
        for k in FIELDS:
            if getattr(r, k) is not None and getattr(r, k).shape[-2 if k == "shN" else -1] != 0:
                cx.check(f"{label}{k} {'is a view' if view else 'is a copy'}", cx.shares(getattr(r, k), getattr(s.d, k)) == view)


def h_slice(cx, n, deg, prov, masks):
    d = scene(cx, n, deg, prov, masks)
    s = Snap(cx, d)
    ends = [None] + list(range(-n - 2, n + 3))
    key = slice(cx.choice("start", ends), cx.choice("stop", ends), cx.choice("step", [None, 1, -1, 2, -2, 3, -3]))
    idx = list(range(n))[key]
    expect(cx, "slice:", d[key], s, idx, deg, view=True)
    c = d.copy_slice(key)
    expect(cx, "copy_slice:", c, s, idx, deg, view=False)
    s.unchanged(cx, "source:")
    if idx:
        # writing through the view changes exactly the selected rows of the source
        v = d[key]
        w = cx.arr("w", (3,))
        v.means[0] = w
        cx.same("written through", d.means[idx[0]], w)
        for i in range(n):
            if i != idx[0]:
                cx.same("other rows kept", d.means[i], s.vals["means"][i])
        cx.same("copy unaffected", c.means[0], s.vals["means"][idx[0]])
    observe(cx, "c:", c)


def h_int(cx, n, deg, prov, masks):
    d = scene(cx, n, deg, prov, masks)
    s = Snap(cx, d)
    k = cx.choice("k", range(-n - 2, n + 2))
    ok = -n <= k < n
    st, t = cx.outcome(lambda: d[k])
    g = cx.outcome(lambda: d.get_gaussian(k))
    c = cx.outcome(lambda: d.copy_slice(k))
    if not ok:
        cx.check("out of range", (st, t) == ("err", "IndexError"))
        cx.check("get_gaussian out of range", g == ("err", "IndexError"))
        cx.check("copy_slice out of range", c == ("err", "IndexError"))
        return
    i = k % n
    cx.check("tuple of 7", st == "ok" and isinstance(t, tuple) and len(t) == 7)
    for v, name in zip(t, ("means", "scales", "quats", "opacities", "sh0")):
        cx.same("tuple:" + name, v, s.vals[name][i])
    if s.vals["shN"] is None:
        cx.check("tuple:shN", t[5] is None)
    else:
        cx.same("tuple:shN", t[5], s.vals["shN"][i])
    if s.masks is None:
        cx.check("tuple:masks", t[6] is None)
    else:
        cx.same("tuple:masks", t[6], s.masks[i])
    expect(cx, "get_gaussian:", g[1], s, [i], deg)
    expect(cx, "copy_slice:", c[1], s, [i], deg, view=False)
    s.unchanged(cx, "source:")


def h_iter(cx, n, deg, prov):
    d = scene(cx, n, deg, prov, "2d")
    s = Snap(cx, d)
    rows = list(d)
    cx.check("one tuple per Gaussian", len(rows) == n)
    for i, t in enumerate(rows):
        for v, name in zip(t, ("means", "scales", "quats", "opacities", "sh0")):
            cx.same("iter:" + name, v, s.vals[name][i])
        if deg:
            cx.same("iter:shN", t[5], s.vals["shN"][i])
        cx.same("iter:masks", t[6], s.masks[i])


def h_mask(cx, n, deg, prov, masks, kind):
    d = scene(cx, n, deg, prov, masks)
    s = Snap(cx, d)
    extra = cx.choice("len", [n, n - 1, n + 1] if n else [n, n + 1])
    bits = [cx.bool(f"b{i}") for i in range(extra)]
    if kind == "list":
        key = [b for b in bits]
    else:
        key = cx.np.array(bits, dtype=bool)
    for name, fn in (("mask:", lambda: d[key]), ("copy_slice:", lambda: d.copy_slice(key))):
        st, r = cx.outcome(fn)
        if extra != n:
            # an empty list is an empty selection, not a mask of length 0
            if kind == "list" and extra == 0:
                cx.check(name + "empty list", st == "ok" and len(r) == 0)
            else:
                cx.check(name + "wrong length", (st, r) == ("err", "ValueError"))
        else:
            cx.check(name + "accepted", st == "ok")
            expect(cx, name, r, s, [i for i in range(n) if bits[i]], deg, view=False)
    s.unchanged(cx, "source:")


def h_index(cx, n, deg, prov, masks, kind, length):
    d = scene(cx, n, deg, prov, masks)
    s = Snap(cx, d)
    idx = [cx.choice(f"i{j}", range(-n - 1, n + 1)) for j in range(length)]
    key = [i for i in idx] if kind == "list" else cx.np.array(idx, dtype=cx.np.int64 if kind == "i64" else cx.np.int32)
    ok = all(-n <= i < n for i in idx)
    for name, fn in (("index:", lambda: d[key]), ("copy_slice:", lambda: d.copy_slice(key))):
        st, r = cx.outcome(fn)
        if not ok:
            cx.check(name + "out of range", (st, r) == ("err", "IndexError"))
        else:
            cx.check(name + "accepted", st == "ok")
            expect(cx, name, r, s, [i % n for i in idx], deg, view=False)
    s.unchanged(cx, "source:")


def h_bad(cx, prov):
    d = scene(cx, 2, 1, prov, "none")
    for name, key in (("str", "means"), ("float", 1.5), ("None", None), ("tuple", (0, 1))):
        cx.raises("key " + name, lambda: d[key], (TypeError,))
        cx.raises("copy_slice key " + name, lambda: d.copy_slice(key), (TypeError,))


def h_chain(cx, n, deg, prov):
    """a selection of a selection is the composed selection"""
    d = scene(cx, n, deg, prov, "2d")
    s = Snap(cx, d)
    idx = list(range(n))
    r = d
    for j in range(2):
        m = len(idx)
        op = cx.choice(f"op{j}", ["tail", "rev", "odd", "mask", "list", "copy", "consol", "one"])
        if op == "tail":
            r, idx = r[1:], idx[1:]
        elif op == "rev":
            r, idx = r[::-1], idx[::-1]
        elif op == "odd":
            r, idx = r[1::2], idx[1::2]
        elif op == "mask":
            k = [i % 3 != 1 for i in range(m)]
            r, idx = r[cx.np.array(k, dtype=bool)], [x for x, b in zip(idx, k) if b]
        elif op == "list":
            if m:
                r, idx = r[[m - 1, 0, -1]], [idx[-1], idx[0], idx[-1]]
        elif op == "copy":
            r = r.copy_slice(slice(None, -1))
            idx = idx[:-1]
        elif op == "consol":
            r = r.consolidate()
        elif op == "one":
            if m:
                r, idx = r.get_gaussian(-1), idx[-1:]
    expect(cx, "chain:", r, s, idx, deg)
    s.unchanged(cx, "source:")
    observe(cx, "r:", r)


def harnesses(tier):
    out = []
    big = tier != "quick"
    provs = ("fresh", "consolidated", "read", "stepped", "fortran", "flipped")

    def add(name, fn, **k):
        opt = {x: k.pop(x) for x in ("paths", "budget") if x in k}
        out.append(H(f"{name}[{','.join(f'{a}={b}' for a, b in k.items())}]", fn, k, witnesses=1, paths=opt.get("paths", 3000),
                     budget=opt.get("budget", 120)))
    for prov in provs:
        for deg in range(4):
            masks = ("2d", "1d", "none", "lin")[deg]
            if deg < 2 or big:
                add("slice", h_slice, n=2 if not big else 4, deg=deg, prov=prov, masks=masks)
            add("int", h_int, n=3, deg=deg, prov=prov, masks=masks)
            add("mask", h_mask, n=3, deg=deg, prov=prov, masks=masks, kind="array")
            add("index", h_index, n=3, deg=deg, prov=prov, masks=masks, kind="i64", length=2)
        add("slice", h_slice, n=3, deg=0, prov=prov, masks="none")
        add("slice", h_slice, n=0, deg=1, prov=prov, masks="2d")
        add("int", h_int, n=1, deg=1, prov=prov, masks="1d")
        add("mask", h_mask, n=2, deg=1, prov=prov, masks="2d", kind="list")
        add("mask", h_mask, n=1, deg=1, prov=prov, masks="2d", kind="list")
        add("mask", h_mask, n=4, deg=0, prov=prov, masks="1d", kind="array")
        add("index", h_index, n=2, deg=1, prov=prov, masks="2d", kind="list", length=2 if not big else 3)
        add("index", h_index, n=2, deg=1, prov=prov, masks="1d", kind="i32", length=1)
        add("index", h_index, n=2, deg=1, prov=prov, masks="1d", kind="list", length=0)
        add("iter", h_iter, n=3, deg=1, prov=prov)
        add("iter", h_iter, n=0, deg=0, prov=prov)
        add("bad", h_bad, prov=prov)
        add("chain", h_chain, n=4, deg=1, prov=prov)
        add("chain", h_chain, n=3, deg=0, prov=prov)
    return out
