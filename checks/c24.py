"""C24: calls are independent of each other: earlier calls, and calls made while one is running, change nothing."""
from engine.driver import H
from .c14 import bundle, entries
from .common import FIELDS, Snap, fields, tags, with_prov
from .tcommon import TSnap, tensor_of, tn

BOUNDS = ("45 operations; the second call (same operation or another, on other data, of the same or another size and degree) made before any one statement the "
          "first comes past, every such statement in turn; repeated calls after the results of the first were overwritten, after its inputs were edited in place, "
          "and on a file or folder rewritten in between; scenes of 1..3 Gaussians, degrees 0-3, every value symbolic")
OUTSIDE = "more than one change of turns per pair of calls, statements of compiled kernels (C23), two calls writing one file, first use of a lazily built table, torch and NumPy themselves"
ASSUMPTIONS = ["statements are executed one at a time (the interpreter's lock), as threads of the same process would be"]

CPU = ("save", "save compressed", "plywrite raw", "read", "read compressed", "detect", "compress_to_bytes", "compress_to_arrays", "compress raw", "decompress",
       "consolidate", "copy", "slice", "mask", "copy_slice", "add", "concatenate", "normalize", "denormalize", "to_rgb", "to_sh", "activations", "deactivations",
       "from_arrays", "from_dict", "make_contiguous", "sigmoid", "sh2rgb", "formats", "masks", "sogread")
TORCH = ("from_gsdata", "to_gsdata", "t save", "t save compressed", "t load", "t load compressed", "t normalize", "t to_rgb", "t slice", "t mask", "t add",
         "t clone", "t consolidate", "t masks")


def is_scene(r):
    return hasattr(type(r), "format_state")


def flat(cx, r):
    """[(what, value)] of a result, arrays copied"""
    if r is None or isinstance(r, (str, int, bool, float)):
        return [("value", r)]
    if is_scene(r):
        out = [(k, cx.snap(getattr(r, k))) for k in FIELDS] + [("masks", cx.snap(r.masks))]
        return out + [("names", None if r.mask_names is None else tuple(r.mask_names)), ("tags", tuple(sorted(tags(r).items())))]
    if isinstance(r, dict):
        return [(f"{k}.{a}", b) for k, v in r.items() for a, b in flat(cx, v)]
    if isinstance(r, (list, tuple)):
        return [(f"{k}.{a}", b) for k, v in enumerate(r) for a, b in flat(cx, v)]
    if hasattr(r, "shape"):
        return [("array", cx.snap(r))]
    if hasattr(r, "name") and hasattr(r, "value"):
        return [("value", r.name)]
    return [("bytes", tuple(cx.items(r)))]


def same(cx, label, a, b):
    if [k for k, _ in a] != [k for k, _ in b]:
        cx.check(f"{label}: kind of result", False)
        return
    for (k, x), (_, y) in zip(a, b):
        if k.endswith("bytes"):
            cx.same_items(f"{label}: {k}", x, y)
        elif hasattr(x, "shape") or hasattr(y, "shape"):
            cx.same(f"{label}: {k}", x, y)
        else:
            cx.check(f"{label}: {k}", x == y)


def values(cx, op, n, deg, pre):
    """field arrays: symbolic, or fixed where an operation's branches depend on the values"""
    fixed = {"t save compressed": FIELDS, "t load compressed": FIELDS, "plywrite raw": ("scales", "opacities"), "from_dict": ("scales", "opacities")}.get(op, ())
    f = fields(cx, n, deg, pre)
    for j, k in enumerate(fixed):
        if f[k] is not None:
            a = cx.np.zeros(f[k].shape, dtype=cx.np.float32)
            for i in range(a.size):
                a.reshape(-1)[i] = -((37 * i + 11 * j + 5 * len(pre) + 3 * ord(pre[0])) % 23) / 8 - 0.5
            f[k] = a
    return f


class Job:
    """one operation on one scene"""

    def __init__(self, cx, op, n, deg, tag, prov="fresh"):
        self.cx, self.op, self.n, self.tag = cx, op, n, tag
        gs, np = cx.gs, cx.np
        self.p = cx.path(f"{tag}.ply")
        if op == "sogread":
            m, im = bundle(cx, 2, n, 1, n, deg, 64)
            im["means_l"][..., :3] = cx.arr(tag + "ml", (1, n, 3), "u8")
            im["scales"][..., :3] = cx.arr(tag + "sc", (1, n, 3), "u8")
            im["sh0"][..., :3] = cx.arr(tag + "c", (1, n, 3), "u8")
            im["quats"][..., 3] = 253
            m["means"]["maxs"] = [float(cx.choice(tag + "max", [2.0])), 3.0, 0.5]
            self.file = cx.path(tag + ".sog")
            cx.write(self.file, list(cx.items(cx.zip(entries(cx, m, im)))))
            self.d = None
            return
        self.f = values(cx, op, n, deg, tag)
        lin = op in ("normalize", "deactivations", "t normalize")
        self.d = with_prov(cx, gs.GSData.from_arrays(**self.f, format="linear" if lin else "ply"), prov, deg, tag)
        self.masked = "masks" in op or op in ("copy", "add", "from_gsdata", "to_gsdata", "t clone", "t add")
        if self.masked:
            mask(cx, self.d, n, tag)
        if op == "to_sh":
            self.d.to_rgb()
        if op in ("read", "read compressed", "detect", "t load", "t load compressed"):
            gs.plywrite(self.p, self.d, compressed="compressed" in op)
            self.file = cx.path(f"{tag}.compressed.ply") if "compressed" in op else self.p
        if op == "decompress":
            self.b = gs.compress_to_bytes(self.d)
        if op.startswith("t ") or op == "to_gsdata":
            self.t = tensor_of(cx, self.d, "stacked" if prov == "fresh" else "base", tag)
        self.s = Snap(cx, self.d)
        self.ts = TSnap(cx, self.t) if hasattr(self, "t") else None

    def run(self):
        cx, op, d = self.cx, self.op, self.d
        gs, np = cx.gs, cx.np
        n = self.n
        mask = [i % 2 == 0 for i in range(n)]
        if op == "save":
            d.save(self.p)
            return bytes_of(cx, self.p)
        if op == "save compressed":
            gs.plywrite(self.p, d, compressed=True)
            return bytes_of(cx, cx.path(f"{self.tag}.compressed.ply"))
        if op == "plywrite raw":
            gs.plywrite(self.p, *[getattr(d, k) for k in FIELDS])
            return bytes_of(cx, self.p)
        if op in ("read", "read compressed"):
            return gs.plyread(self.file)
        if op == "detect":
            return gs.detect_format(self.file)
        if op == "compress_to_bytes":
            return gs.compress_to_bytes(d)
        if op == "compress_to_arrays":
            return gs.compress_to_arrays(d)
        if op == "compress raw":
            return gs.compress_to_bytes(*[getattr(d, k) for k in FIELDS])
        if op == "decompress":
            return gs.decompress_from_bytes(self.b)
        if op == "consolidate":
            return d.consolidate()
        if op == "copy":
            return d.copy()
        if op == "slice":
            return d[::-1]
        if op == "mask":
            return d[np.array(mask, dtype=bool)]
        if op == "copy_slice":
            return d.copy_slice(slice(0, 2))
        if op == "add":
            return d + d
        if op == "concatenate":
            return gs.GSData.concatenate([d, d])
        if op in ("normalize", "denormalize", "to_rgb", "to_sh"):
            return getattr(d, op)(inplace=False)
        if op == "activations":
            return gs.apply_pre_activations(d, inplace=False)
        if op == "deactivations":
            return gs.apply_pre_deactivations(d, inplace=False)
        if op == "from_arrays":
            return [gs.GSData.from_arrays(**self.f, format=k) for k in ("ply", "linear", "auto")[:2]]
        if op == "from_dict":
            return gs.GSData.from_dict(d.to_dict())
        if op == "make_contiguous":
            return d.make_contiguous(inplace=False)
        if op == "sigmoid":
            return [gs.sigmoid(d.opacities), gs.logit(d.opacities), gs.sigmoid(d.means)]
        if op == "sh2rgb":
            return [gs.sh2rgb(d.sh0), gs.rgb2sh(d.sh0)]
        if op == "formats":
            return [gs.create_ply_format(1), gs.create_rasterizer_format(1), d.format_state, d.to_dict()]
        if op == "masks":
            return [d.combine_masks(), d.combine_masks(mode="or"), d.get_mask_layer("a"), d.apply_masks()]
        if op == "sogread":
            return gs.sogread(self.file)
        T = gs.GSTensor
        if op == "from_gsdata":
            return T.from_gsdata(d, device="cpu")
        if op == "t load" or op == "t load compressed":
            return T.load(self.file, device="cpu")
        t = self.t
        if op == "to_gsdata":
            return t.to_gsdata()
        if op == "t save":
            t.save(self.p, compressed=False)
            return bytes_of(cx, self.p)
        if op == "t save compressed":
            t.save(cx.path(f"{self.tag}.compressed.ply"), compressed=True)
            return bytes_of(cx, cx.path(f"{self.tag}.compressed.ply"))
        if op in ("t normalize", "t to_rgb"):
            return getattr(t, op[2:])(inplace=False)
        if op == "t slice":
            return t[0:2]
        if op == "t mask":
            return t[tn(cx, np.array(mask, dtype=bool))]
        if op == "t add":
            return t + t
        if op == "t clone":
            return t.clone()
        if op == "t consolidate":
            return t.consolidate()
        if op == "t masks":
            return [t.combine_masks(), t.get_mask_layer("a"), t.apply_masks()]
        raise KeyError(op)

    def kept(self, label):
        if self.d is not None:
            self.s.unchanged(self.cx, label, objects=False)
        if self.ts is not None if self.d is not None else False:
            self.ts.unchanged(self.cx, label + "tensor ", objects=False)


def mask(cx, d, n, tag):
    d.add_mask_layer("a", cx.np.array([i % 2 == 0 for i in range(n)], dtype=bool))
    d.add_mask_layer("b" + tag, cx.np.array([i % 3 != 1 for i in range(n)], dtype=bool))


def bytes_of(cx, p):
    return {"file": cx.mkbytes(list(cx.read(p)))}


def h_during(cx, op, other, n, deg, n2, deg2, prov="fresh"):
    """`other` on other data while op is running"""
    x, y = Job(cx, op, n, deg, "x", prov), Job(cx, other, n2, deg2, "y", prov)
    first, seen = cx.traced(x.run)
    rx = flat(cx, first)
    second = y.run()
    ry = flat(cx, second)
    same(cx, "the first result after the second call", flat(cx, first), rx)
    x.kept("first input, one after the other:")
    a, b = cx.interleave(x.run, y.run, seen)
    same(cx, "first call with the other in the middle", flat(cx, a), rx)
    same(cx, "call in the middle", flat(cx, b), ry)
    same(cx, "result of the earlier call", flat(cx, first), rx)
    same(cx, "result of the earlier other call", flat(cx, second), ry)
    x.kept("first input:")
    y.kept("other input:")


def arrays_of(cx, r):
    if is_scene(r):
        return [getattr(r, k) for k in FIELDS if getattr(r, k) is not None] + ([] if r.masks is None else [r.masks])
    if isinstance(r, dict):
        return [y for x in r.values() for y in arrays_of(cx, x)]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in arrays_of(cx, x)]
    return [r] if hasattr(r, "shape") else []


def h_again(cx, op, n, deg, prov="fresh"):
    """again after the first result was overwritten"""
    x, y = Job(cx, op, n, deg, "x", prov), Job(cx, op, n, deg, "y", prov)
    first = x.run()
    rx = flat(cx, first)
    mine = [] if x.d is None else arrays_of(cx, x.d) + (arrays_of(cx, x.t) if hasattr(x, "t") else []) + [v for v in x.f.values() if v is not None]
    for a in arrays_of(cx, first):
        if len(a) and not any(cx.shares(a, b) for b in mine if len(b)) and cx.nd(a).flags.writeable:
            a[...] = 1
    other = cx.gs.GSData.from_arrays(**values(cx, "plywrite raw", 2, deg, "o"), format="linear")
    other.to_rgb()
    for r in (first if isinstance(first, list) else [first]):
        if isinstance(r, dict):
            r.clear()
        if is_scene(r) and r is not x.d and r is not getattr(x, "t", None):
            r.copy_format_from(other)
        if is_scene(r) and not any(cx.shares(a, b) for a in arrays_of(cx, r) for b in mine if len(a) and len(b)):
            r.to_rgb() if r.is_sh0_sh else r.to_sh()
            if r.masks is not None and r.mask_names:
                r.remove_mask_layer(r.mask_names[0])
            r.add_mask_layer("zz", cx.np.ones(len(r), dtype=bool) if not op.startswith("t ") and op != "from_gsdata" else tn(cx, cx.np.ones(len(r), dtype=bool)))
    x.kept("input:")
    y.kept("other input:")
    ry = flat(cx, y.run())
    same(cx, "again", flat(cx, x.run()), rx)
    same(cx, "other data again", flat(cx, y.run()), ry)


def h_edited(cx, op, n, deg, prov="fresh"):
    """again after the input was edited in place: as a new input with these values"""
    gs, np = cx.gs, cx.np
    x = Job(cx, op, n, deg, "x", prov)
    x.run()
    x.run()
    e = values(cx, op, n, deg, "e")
    src = x.t if hasattr(x, "t") else x.d
    for k in FIELDS:
        v = getattr(src, k)
        if v is not None and v.shape[1:2] != (0,):
            v[...] = tn(cx, e[k]) if hasattr(x, "t") else e[k]
    z = Job.__new__(Job)
    z.__dict__.update(x.__dict__)
    z.tag, z.p = "z", cx.path("z.ply")
    w = with_prov(cx, gs.GSData.from_arrays(**e, format="linear" if x.d.is_scales_linear else "ply"), prov, deg, "z")
    if x.d.is_sh0_rgb:
        w.copy_format_from(x.d)
    if x.masked:
        mask(cx, w, n, "x")
    z.d, z.f = w, e
    if hasattr(x, "t"):
        z.t = tensor_of(cx, w, "stacked" if prov == "fresh" else "base", "z")
    if op == "from_arrays":
        for k in FIELDS:
            if x.f[k] is not None and x.f[k].shape[1:2] != (0,):
                x.f[k][...] = e[k]
    same(cx, "after the edit", flat(cx, x.run()), flat(cx, z.run()))


def h_rewritten(cx, op, n, deg, n2, deg2):
    """a file of the same name with new content"""
    x, y = Job(cx, op, n, deg, "x"), Job(cx, op, n2, deg2, "y")
    first = x.run()
    rx, ry = flat(cx, first), flat(cx, y.run())
    bx, by = list(cx.read(x.file)), list(cx.read(y.file))
    cx.write(x.file, by)
    same(cx, "rewritten file", flat(cx, x.run()), ry)
    same(cx, "what was read before", flat(cx, first), rx)
    cx.write(x.file, bx)
    same(cx, "written back", flat(cx, x.run()), rx)
    cx.write(y.file, bx)
    same(cx, "the other file rewritten too", flat(cx, y.run()), rx)


def h_replaced(cx, op, n, deg):
    """a file of the same name and size with a broken header, and the good one again"""
    x = Job(cx, op, n, deg, "x")
    rx = flat(cx, x.run())
    b = list(cx.read(x.file))
    for at in (0, 45):
        bad = list(b)
        bad[at] = ord("@")
        cx.write(x.file, bad)
        kind, r = cx.outcome(x.run)
        cx.check(f"byte {at}", kind == "err" and r == "ValueError" if op != "detect" else (kind, r) == ("ok", (False, None)))
    cx.write(x.file, b)
    same(cx, "the good file again", flat(cx, x.run()), rx)


EDITABLE = ("save", "save compressed", "plywrite raw", "compress_to_bytes", "compress_to_arrays", "compress raw", "consolidate", "copy", "slice", "mask", "copy_slice", "add",
            "concatenate", "normalize", "denormalize", "to_rgb", "to_sh", "activations", "deactivations", "from_arrays", "from_dict", "make_contiguous", "sigmoid", "sh2rgb",
            "from_gsdata", "to_gsdata", "t save", "t save compressed", "t normalize", "t to_rgb", "t slice", "t mask", "t add", "t clone", "t consolidate")
FILES = ("read", "read compressed", "detect", "sogread", "t load", "t load compressed")
MIXED = (("save", "read"), ("read", "save compressed"), ("read compressed", "read"), ("compress_to_bytes", "decompress"), ("decompress", "compress_to_arrays"), ("save", "normalize"),
         ("save compressed", "to_rgb"), ("add", "consolidate"), ("sogread", "read compressed"), ("detect", "save"), ("from_arrays", "formats"), ("denormalize", "to_sh"))
TMIXED = (("from_gsdata", "save"), ("t save", "read"), ("t load", "t save"), ("t add", "add"))


def harnesses(tier):
    out = []
    th = tier != "quick"
    kw = dict(witnesses=1, paths=1200, obs={"abs": 1e-6, "rel": 1e-5})
    for op in CPU + TORCH:
        t = op in TORCH
        slow = op in ("t save compressed", "t load compressed")
        degs = [((2, 1), (2, 1)), ((2, 1), (3, 0))][:0 if slow else 2] if not th else [((2, d), (2, d)) for d in range(4)] + [((3, 1), (2, 0)), ((1, 0), (3, 1)), ((2, 3), (2, 2))]
        if op == "sogread" and not th:
            degs = [((1, 0), (1, 0)), ((1, 1), (2, 0))]
        for (n, deg), (n2, deg2) in degs:
            out.append(H(f"during {op}[{n}/{deg},{n2}/{deg2}]", h_during, dict(op=op, other=op, n=n, deg=deg, n2=n2, deg2=deg2), torch=t, **kw))
        for prov in ("fresh", "read") if op != "sogread" else ("fresh",):
            for deg in (0, 1) if not th else range(4):
                out.append(H(f"again {op}[{prov},deg={deg}]", h_again, dict(op=op, n=2, deg=deg, prov=prov), torch=t, **kw))
                if op in EDITABLE and not (op == "from_arrays" and prov == "read"):
                    out.append(H(f"edited {op}[{prov},deg={deg}]", h_edited, dict(op=op, n=2, deg=deg, prov=prov), torch=t, **kw))
        if op in FILES:
            for (n, deg), (n2, deg2) in (((2, 1), (2, 1)), ((2, 1), (3, 0)), ((2, 0), (2, 1)), ((1, 3), (2, 3))):
                if n == 2 and n2 == 2:
                    out.append(H(f"replaced {op}[{n}/{deg}]", h_replaced, dict(op=op, n=n, deg=deg), torch=t, **kw))
                out.append(H(f"rewritten {op}[{n}/{deg},{n2}/{deg2}]", h_rewritten, dict(op=op, n=n, deg=deg, n2=n2, deg2=deg2), torch=t, **kw))
    for a, b in MIXED + TMIXED:
        t = a in TORCH or b in TORCH
        out.append(H(f"during {a}: {b}", h_during, dict(op=a, other=b, n=2, deg=0 if a == "sogread" else 1, n2=2, deg2=1), torch=t, **kw))
    return out
