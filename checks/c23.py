"""C23: parallel loops give the same result whatever the threads do."""
from engine.driver import H
from .c14 import BANDS, bundle, entries
from .common import FIELDS, fields, with_prov

BOUNDS = ("every parallel loop reached by compressing, decompressing, writing, reading, consolidating, converting colours, scales and opacities and decoding SOG bundles; "
          "3 iterations (packing and unpacking also 257 in two chunks), every value symbolic, SH degree 0-3; every pair of iterations and every pair of their accesses, under the "
          "conditions they happen on, so every number of threads, assignment and interleaving")
OUTSIDE = "more iterations (their code is the same), reductions of scalars (numba's own), the threading library, torch's own kernels"
ASSUMPTIONS = ["a loop none of whose iterations touches an element another one writes gives the same result under every schedule",
               "local variables of a parallel loop's body are private to the iteration, as numba makes them"]


def parts(x):
    return [] if x is None else [x]


def vals(d):
    return [getattr(d, k) for k in FIELDS if getattr(d, k) is not None]


def h_data(cx, op, n, deg, rows=None):
    gs, np = cx.gs, cx.np
    lin = op == "normalize"
    d = gs.GSData.from_arrays(**fields(cx, n, deg, rows=rows, ranges={"scales": (0.01, 5.0), "opacities": (0.1, 0.9)} if lin else None), format="linear" if lin else "ply")
    if op == "compress arrays":
        def fn():
            h, c, v, s = gs.compress_to_arrays(d)
            return [c, v] + parts(s)
    elif op == "compress bytes":
        def fn():
            return [gs.compress_to_bytes(d)]
    elif op == "decompress":
        b = gs.compress_to_bytes(d)

        def fn():
            return vals(gs.decompress_from_bytes(b))
    elif op == "consolidate":
        def fn():
            return vals(d.consolidate())
    elif op == "write":
        def fn():
            gs.plywrite(cx.path("o.ply"), d)
            return vals(gs.plyread(cx.path("o.ply")))
    elif op in ("to_rgb", "to_sh", "denormalize", "normalize"):
        def fn():
            return vals(getattr(d, op)(inplace=False))
    elif op == "add":
        def fn():
            return vals(d + d)
    elif op in ("sigmoid", "logit"):
        def fn():
            return [getattr(gs, op)(d.opacities), getattr(gs, op)(d.means)]
    r = cx.schedules(op, fn)
    for i, x in enumerate(r):
        if not isinstance(x, (bytes, bytearray)) and hasattr(x, "shape"):
            cx.check(f"{i} has rows", len(x) >= 0)


def h_sog(cx, ver, deg, pal):
    gs, np = cx.gs, cx.np
    n, h, w = 3, 2, 2
    k = BANDS[deg]
    m, im = bundle(cx, ver, n, h, w, deg, pal)
    for key in ("means_l", "means_u", "quats", "scales", "sh0"):
        im[key] = cx.arr(key, (h, w, 4), "u8")
    im["quats"][..., 3] = 252 + np.arange(4, dtype=np.uint8).reshape(2, 2)
    if deg:
        im["shN_labels"][..., 0] = cx.arr("label", (h, w), "u8", 0, 1) if deg == 1 else np.array([[0, 1], [2, 1]], dtype=np.uint8)
    for v in im.values():
        if v is not None:
            v[..., 3] = 255 if v is not im["quats"] else v[..., 3]
    z = cx.zip(entries(cx, m, im))
    cx.schedules("sogread", lambda: vals(gs.sogread(z)))


def harnesses(tier):
    out = []
    th = tier != "quick"
    for deg in range(4):
        for op in ("compress arrays", "compress bytes", "decompress", "consolidate", "write", "to_rgb", "to_sh", "denormalize", "normalize", "add", "sigmoid", "logit"):
            if op in ("to_rgb", "to_sh", "sigmoid", "logit", "denormalize", "normalize") and deg:
                continue
            for n in (3,) if not th else (2, 3, 5):
                out.append(H(f"{op}[n={n},deg={deg}]", h_data, dict(op=op, n=n, deg=deg), witnesses=1, obs={"abs": 1e-6, "rel": 1e-5}))
    out.append(H("compress arrays[n=257]", h_data, dict(op="compress arrays", n=257, deg=0, rows=(0, 255, 256)), witnesses=1))
    out.append(H("decompress[n=257]", h_data, dict(op="decompress", n=257, deg=0, rows=(0, 255, 256)), witnesses=1, obs={"abs": 1e-6, "rel": 1e-5}))
    for ver in (2, 3):
        for deg in range(4):
            out.append(H(f"sogread[v{ver},deg={deg}]", h_sog, dict(ver=ver, deg=deg, pal=64), witnesses=1))
    return out
