"""C06: every way of producing and of reading the compressed form agrees byte for byte / value for value."""
from engine.driver import H
from . import plyspec as S
from .common import BANDS, FIELDS, check_tags, fields, observe, ply_tags, same_fields, snap, with_prov

BOUNDS = ("scenes of 0..3 and 255..257, 513 Gaussians (large ones: rows at the chunk edges symbolic and distinct, the others equal to the first), every float32 "
          "bit pattern, SH degree 0-3; 27 ways of writing, 10 provenances, 3 ways of reading; file naming over 16 names")
OUTSIDE = "other scene sizes; data not in PLY format given to compress_to_bytes/compress_to_arrays (documented to take log/logit values)"
ASSUMPTIONS = ["quantisation arithmetic is uninterpreted here (its values are the subject of the compression properties); equal inputs give equal outputs"]

WAYS = ("write_compressed", "write_compressed novalidate", "flag", "name .compressed.ply", "name .ply_compressed", "save flag", "save name", "to_bytes data", "to_bytes arrays",
        "to_arrays data", "to_arrays arrays", "flat shN", "no shN array", "raw arrays", "raw flag", "float64 arrays", "column-major arrays",
        "column-major flat shN", "column-major file", "column-major to_arrays", "backward arrays", "backward file", "raw column-major")


def produce(cx, d, way, name="o"):
    """file content produced one way"""
    gs, np = cx.gs, cx.np
    from gsply.writer import write_compressed
    a = [getattr(d, k) for k in ("means", "scales", "quats", "opacities", "sh0", "shN")]
    n = len(d)
    p = cx.path(f"{name}.compressed.ply")
    if way == "write_compressed":
        write_compressed(p, *a)
    elif way == "write_compressed novalidate":
        write_compressed(p, *a, validate=False)
    elif way == "flag":
        gs.plywrite(cx.path(f"{name}.ply"), d, compressed=True)
    elif way == "name .compressed.ply":
        gs.plywrite(p, d)
    elif way == "name .ply_compressed":
        p = cx.path(f"{name}.ply_compressed")
        gs.plywrite(p, d)
    elif way == "save flag":
        d.save(cx.path(f"{name}.ply"), compressed=True)
    elif way == "save name":
        d.save(p)
    elif way == "to_bytes data":
        return cx.items(gs.compress_to_bytes(d))
    elif way == "to_bytes arrays":
        return cx.items(gs.compress_to_bytes(*a))
    elif way in ("to_arrays data", "to_arrays arrays"):
        h, c, v, s = gs.compress_to_arrays(d) if way == "to_arrays data" else gs.compress_to_arrays(*a)
        k = (n + 255) // 256
        cx.check("chunk array", c.shape == (k, 18) and c.dtype == np.float32)
        cx.check("vertex array", v.shape == (n, 4) and v.dtype == np.uint32)
        deg = d.get_sh_degree()
        cx.check("sh array", (s is None) if not deg else (s is not None and s.shape == (n, 3 * BANDS[deg]) and s.dtype == np.uint8))
        return cx.items(h) + cx.arr_bytes(c) + cx.arr_bytes(v) + (cx.arr_bytes(s) if s is not None else [])
    elif way == "flat shN":
        flat = None if d.get_sh_degree() == 0 else d.shN.transpose(0, 2, 1).reshape(n, 3 * BANDS[d.get_sh_degree()])  # file order
        return cx.items(gs.compress_to_bytes(*a[:5], flat))
    elif way in ("column-major arrays", "column-major file", "raw column-major", "column-major to_arrays"):
        b = [None if x is None else np.asfortranarray(x) for x in a]
        if way == "column-major arrays":
            return cx.items(gs.compress_to_bytes(*b))
        if way == "column-major to_arrays":
            h, c, v, s = gs.compress_to_arrays(*b)
            return cx.items(h) + cx.arr_bytes(c) + cx.arr_bytes(v) + (cx.arr_bytes(s) if s is not None else [])
        if way == "column-major file":
            write_compressed(p, *b)
        else:
            gs.plywrite(p, *b)
    elif way in ("backward arrays", "backward file"):
        b = [None if x is None else x[::-1].copy()[::-1] for x in a]
        if way == "backward arrays":
            return cx.items(gs.compress_to_bytes(*b))
        write_compressed(p, *b)
    elif way == "column-major flat shN":
        deg = d.get_sh_degree()
        flat = None if deg == 0 else np.asfortranarray(d.shN.transpose(0, 2, 1).reshape(n, 3 * BANDS[deg]))
        if deg:
            write_compressed(p, *a[:5], flat)
            cx.same_items("column-major flat shN, file", cx.read(p), cx.items(gs.compress_to_bytes(*a[:5], flat)))
        return cx.items(gs.compress_to_bytes(*a[:5], flat))
    elif way == "no shN array":
        return cx.items(gs.compress_to_bytes(*a[:5])) if d.get_sh_degree() == 0 else cx.items(gs.compress_to_bytes(*a[:5], shN=a[5]))
    elif way == "raw arrays":
        gs.plywrite(p, *a)
    elif way == "raw flag":
        gs.plywrite(cx.path(f"{name}.ply"), *a, compressed=True)
    elif way == "float64 arrays":
        b = [None if x is None else x.astype(np.float64) for x in a]
        return cx.items(gs.compress_to_bytes(*b))
    else:
        raise KeyError(way)
    return cx.read(p)


def scene(cx, n, deg, prov, ranges=None):
    rows = None if n < 5 else tuple(sorted({0, 1, 254, 255, 256, 511, 512, n - 1} & set(range(n))))
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg, rows=rows, ranges=ranges), format="ply")
    return with_prov(cx, d, prov, deg)


def h_ways(cx, n, deg, prov, ways):
    ranges = {"scales": (-9.0, -1.0), "opacities": (1.5, 9.0)} if any(w.startswith("raw") for w in ways) else None
    d = scene(cx, n, deg, prov, ranges)
    ref = cx.items(cx.gs.compress_to_bytes(d))
    hdr = S.text(cx, S.cheader(n, deg))
    k = (n + 255) // 256
    cx.check("length", len(ref) == len(hdr) + k * 72 + n * 16 + n * 3 * BANDS[deg])
    cx.same_items("header", ref[:len(hdr)], hdr)
    way = cx.choice("way", ways)
    cx.same_items("same bytes: " + way, produce(cx, d, way), ref)
    again = cx.items(cx.gs.compress_to_bytes(d))
    cx.same_items("same bytes again", again, ref)
    cx.observe("bytes", ref)


def h_prov(cx, n, deg, prov):
    """content decides the bytes, not where the arrays live"""
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg), format="ply")
    want = cx.items(cx.gs.compress_to_bytes(d))
    e = with_prov(cx, d, prov, deg)
    cx.same_items("provenance", cx.items(cx.gs.compress_to_bytes(e)), want)
    p = cx.path("p.compressed.ply")
    e.save(p)
    cx.same_items("provenance, saved", cx.read(p), want)
    cx.observe("bytes", want)


def h_read(cx, n, deg, mask):
    """file, bytes and load() give the same container; reading does not depend on trailing bytes"""
    gs = cx.gs
    d = scene(cx, n, deg, "fresh")
    b = gs.compress_to_bytes(d)
    p = cx.path("r.compressed.ply")
    cx.write(p, cx.items(b))
    x, y, z = gs.plyread(p), gs.GSData.load(p), gs.decompress_from_bytes(b)
    from gsply.reader import read_compressed
    w = read_compressed(p)
    q = cx.path("odd_name.bin")
    cx.write(q, cx.items(b) + cx.byte_syms("tail", 5))
    v = gs.plyread(q)
    cx.check("detected", tuple(gs.detect_format(p)) == (True, None) and tuple(gs.detect_format(q)) == (True, None))
    s = snap(cx, x)
    for name, o in (("plyread", x), ("load", y), ("bytes", z), ("read_compressed", w), ("trailing bytes", v)):
        cx.check(name + ": count", len(o) == n)
        cx.check(name + ": degree", o.get_sh_degree() == deg)
        check_tags(cx, name + ": ", o, ply_tags(deg))
        same_fields(cx, name + ": ", o, s)
        cx.same(name + ": all rows selected", o.masks, cx.np.ones(n, dtype=bool))
        cx.check(name + ": unnamed", o.mask_names is None)
    observe(cx, "", x)


NAMES = {"a.ply": "a.compressed.ply", "a": "a.compressed.ply", "x.y.ply": "x.y.compressed.ply", "a.PLY": "a.PLY.compressed.ply",
         "b.compressed.ply": "b.compressed.ply", "b.ply_compressed": "b.ply_compressed", "c.splat": "c.splat.compressed.ply", "v1.2": "v1.2.compressed.ply",
         "compressed.ply": "compressed.compressed.ply", "d.e.compressed.ply": "d.e.compressed.ply", "a b.ply": "a b.compressed.ply",
         "x.ply.ply": "x.ply.compressed.ply", "x.ply.bak": "x.ply.bak.compressed.ply", ".ply": ".ply.compressed.ply", "q.ply_": "q.ply_.compressed.ply"}


def h_names(cx, entry):
    gs = cx.gs
    d = gs.GSData.from_arrays(**fields(cx, 1, 0), format="ply")
    want = cx.items(gs.compress_to_bytes(d))
    name = cx.choice("name", list(NAMES))
    p = cx.path(name)
    if entry == "path":
        from pathlib import Path
        gs.plywrite(Path(p), d, compressed=True)
    elif entry == "save":
        d.save(p, compressed=True)
    else:
        gs.plywrite(p, d, compressed=True)
    cx.check(f"only {NAMES[name]} is made", cx.files() == [NAMES[name]])
    cx.same_items("content", cx.read(cx.path(NAMES[name])), want)
    # without the flag the name decides
    q = cx.path("sub_" + name)
    gs.plywrite(q, d)
    comp = name.endswith((".compressed.ply", ".ply_compressed"))
    cx.check("name as given", cx.files() == sorted([NAMES[name], "sub_" + name]))
    if comp:
        cx.same_items("compressed by name", cx.read(q), want)
    else:
        cx.same_items("not compressed", cx.read(q), S.text(cx, S.header(1, 0)) + S.row_bytes(cx, S.rows(cx, {k: getattr(d, k) for k in FIELDS}, 1, 0)))
    cx.observe("b", want)


def h_reject(cx):
    gs = cx.gs
    f = fields(cx, 2, 0, shn="none")
    for miss in ("scales", "quats", "opacities", "sh0"):
        a = {k: (None if k == miss else f[k]) for k in ("scales", "quats", "opacities", "sh0")}
        cx.raises("bytes without " + miss, lambda: gs.compress_to_bytes(f["means"], **a), (ValueError,))
        cx.raises("arrays without " + miss, lambda: gs.compress_to_arrays(f["means"], **a), (ValueError,))
        cx.raises("write without " + miss, lambda: gs.plywrite(cx.path("x.ply"), f["means"], **a), (ValueError,))
    cx.check("nothing written", cx.files() == [])


def harnesses(tier):
    th = tier != "quick"
    out = [H("reject", h_reject, {}, witnesses=1)]
    o = {"abs": 1e-6, "rel": 1e-5, "int": 1}
    plain = [w for w in WAYS if not w.startswith("raw") and w != "float64 arrays"]
    for deg in BANDS:
        for n in (0, 1, 2, 3):
            out.append(H(f"ways[n={n},deg={deg}]", h_ways, dict(n=n, deg=deg, prov="fresh", ways=plain), witnesses=1, obs=o))
        for prov in ("consolidated", "stepped") if not th else ("consolidated", "read", "sliced", "stepped", "masked", "strided", "contiguous"):
            out.append(H(f"ways[n=2,deg={deg},{prov}]", h_ways, dict(n=2, deg=deg, prov=prov, ways=plain), witnesses=1, obs=o))
        out.append(H(f"raw[n=2,deg={deg}]", h_ways, dict(n=2, deg=deg, prov="fresh", ways=["raw arrays", "raw flag", "raw column-major"]), witnesses=1, obs=o))
        out.append(H(f"float64[deg={deg}]", h_ways, dict(n=2, deg=deg, prov="fresh", ways=["float64 arrays"]), witnesses=1, obs=o))
        for n in (0, 1, 2):
            out.append(H(f"read[n={n},deg={deg}]", h_read, dict(n=n, deg=deg, mask=False), witnesses=1, obs=o))
        for prov in ("consolidated", "read", "sliced", "stepped", "masked", "strided", "contiguous", "fortran", "flipped"):
            out.append(H(f"prov[{prov},deg={deg}]", h_prov, dict(n=2, deg=deg, prov=prov), witnesses=1, obs=o))
    for n in (255, 256, 257, 513) if th else (257,):
        for deg in (0, 1, 2, 3) if th else (0, 1):
            out.append(H(f"ways[n={n},deg={deg}]", h_ways, dict(n=n, deg=deg, prov="fresh", ways=plain if th else ["flag", "to_arrays arrays"]), witnesses=1, obs=o, budget=200))
            out.append(H(f"read[n={n},deg={deg}]", h_read, dict(n=n, deg=deg, mask=False), witnesses=1, obs=o, budget=200))
    for e in ("plywrite", "path", "save"):
        out.append(H(f"names[{e}]", h_names, dict(entry=e), witnesses=1, obs=o))
    return out
