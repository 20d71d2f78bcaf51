"""C16: the tensor codec writes and reads compressed files by the same rule as the NumPy codec."""
from engine.driver import H
from . import c15
from .c15 import h_linear, h_opacity, h_quat, h_read_linear, h_read_opacity, h_read_quat, h_read_sh, h_sh
from . import plyspec as S
from .common import BANDS, check_tags, fields, ply_tags
from .tcommon import TSnap

BOUNDS = ("written: N in {1,2} with every row symbolic, one component at a time, and N in {256,257} with the rows at the chunk edges symbolic, |means|<=1000, log scales in "
          "[-30,30], |sh0|<=20, |opacity logit|<=30, |shN|<=10, quaternions of components in [-10,10] and length >=0.01; read: every code value of every field, chunk "
          "bounds in [-100,100] (colour bounds [-10,10]), N in {1,2,257}; N=0; SH degree 0..3; devices cpu and cpu:0")
OUTSIDE = "CUDA devices, torch.compile, NaN/infinite inputs, magnitudes above the stated ranges, other N; colour code formula where a chunk's colour range is below 0.05"
ASSUMPTIONS = c15.ASSUMPTIONS + ["torch operators modelled by the stand-in in engine/torchshim.py; every explored path is replayed on real torch"]


def scene(cx, n, deg):
    f = fields(cx, n, deg, "")
    f["quats"] = cx.carr([[1, 2, 3, 4], [-4, 3, 2, 1]][:n]) if n else f["quats"]      # one path; rotations have harnesses of their own
    return cx.gs.GSTensor.from_gsdata(cx.gs.GSData.from_arrays(**f, format="ply"), device="cpu")


def write(cx, t, p, via):
    {"save": lambda: t.save(p), "save_compressed": lambda: t.save_compressed(p), "plywrite": lambda: cx.gs.plywrite_gpu(p, t)}[via]()


def read(cx, p, via):
    how, dev = via.split(" ")
    T = cx.gs.GSTensor
    return {"load": T.load, "from_compressed": T.from_compressed, "plyread": cx.gs.plyread_gpu}[how](p, device=dev)


def h_empty(cx, deg, via, back):
    """a container without Gaussians is written and read back"""
    t = scene(cx, 0, deg)
    p = cx.path("a.compressed.ply")
    write(cx, t, p, via)
    raw = cx.read(p)
    cx.check("length", len(raw) == len(S.text(cx, S.cheader(0, deg))))
    cx.same_items("header", raw, S.text(cx, S.cheader(0, deg)))
    e = read(cx, p, back)
    cx.check("count", len(e) == 0 and e.get_sh_degree() == deg)
    check_tags(cx, "tags", e, ply_tags(deg))


def h_source(cx, n, deg, via, scales, opac, sh0):
    """writing leaves the container as it was, and data in any format is converted on the way"""
    from gsply.gsdata import DataFormat as DF
    t = scene(cx, n, deg)
    t._format["scales"] = DF.SCALES_LINEAR if scales else DF.SCALES_PLY
    t._format["opacities"] = DF.OPACITIES_LINEAR if opac else DF.OPACITIES_PLY
    t._format["sh0"] = DF.SH0_RGB if sh0 else DF.SH0_SH
    ref = t.clone()
    if scales or opac:
        ref = ref.to_ply_tensor()
    if sh0:
        ref = ref.to_sh(inplace=False)
    snap = TSnap(cx, t)
    write(cx, t, cx.path("a.compressed.ply"), via)
    snap.unchanged(cx, "source:")
    write(cx, ref, cx.path("b.compressed.ply"), "save")
    cx.same_items("file", cx.read(cx.path("a.compressed.ply")), cx.read(cx.path("b.compressed.ply")))
    e = read(cx, cx.path("a.compressed.ply"), "load cpu")
    check_tags(cx, "tags", e, ply_tags(deg))
    cx.check("count", len(e) == n and e.get_sh_degree() == deg)


def damage(cx, raw, n, deg, what):
    """a file that is not a complete compressed file"""
    head = S.text(cx, S.cheader(n, deg))
    k = (n + 255) // 256
    cuts = {"no header end": len(head) - 3, "no chunk": len(head), "part of chunk": len(head) + 71, "no vertex": len(head) + 72 * k,
            "part of vertex": len(head) + 72 * k + 16 * n - 1, "part of sh": len(raw) - 1, "nothing": 0}
    if what in cuts:
        return raw[:cuts[what]]
    swap = {"chunk count": (f"element chunk {k}", f"element chunk {k + 1}"), "vertex count": (f"element vertex {n}", f"element vertex {n + 256}"),
            "text format": ("binary_little_endian", "ascii"), "chunk property": ("property float min_z", "property float mid_z"),
            "vertex property": ("property uint packed_scale", "property uint packed_color"), "type": ("property float max_b", "property double max_b")}
    if what in swap:
        h = S.cheader(n, deg)
        a, b = swap[what]
        i = next(i for i, line in enumerate(h) if a in line)
        h[i] = h[i].replace(a, b)
        return S.text(cx, h) + raw[len(head):]
    raise KeyError(what)


DAMAGE = ("no header end", "no chunk", "part of chunk", "no vertex", "part of vertex", "part of sh", "nothing", "chunk count", "vertex count", "text format",
          "chunk property", "vertex property", "type")


def h_damaged(cx, n, deg, what, via):
    k = (n + 255) // 256
    raw = S.text(cx, S.cheader(n, deg)) + cx.byte_syms("body", 72 * k + 16 * n + n * 3 * BANDS[deg])
    p = cx.path("in.compressed.ply")
    cx.write(p, damage(cx, raw, n, deg, what))
    cx.raises("rejected", lambda: read(cx, p, via))


def h_plain(cx, n, deg, via):
    """an uncompressed file is not a compressed one"""
    p = cx.path("in.compressed.ply")
    q = cx.path("in.ply")
    cx.gs.plywrite(q, cx.gs.GSData.from_arrays(**fields(cx, n, deg, ""), format="ply"))
    cx.write(p, cx.read(q))
    cx.raises("rejected", lambda: read(cx, p, via))


def harnesses(tier):
    out = []
    R3 = ("load cpu", "from_compressed cpu:0", "plyread cpu")
    W3 = ("save", "save_compressed", "plywrite")
    for deg in range(4):
        for i, via in enumerate(W3):
            out.append(H(f"empty[{deg},{via}]", h_empty, dict(deg=deg, via=via, back=R3[(deg + i) % 3]), mode="uf", torch=True))
    for i in range(8):
        for j, via in enumerate(W3):
            out.append(H(f"source[{i},{via}]", h_source, dict(n=1 + (i + j) % 2, deg=(0, 1)[i % 2], via=via, scales=i & 1, opac=i >> 1 & 1, sh0=i >> 2 & 1), mode="uf",
                         torch=True, paths=60))
    for i, what in enumerate(DAMAGE):
        for deg in (0, 1, 3):
            if deg or what != "part of sh":
                out.append(H(f"damaged[{what},{deg}]", h_damaged, dict(n=1 + i % 3, deg=deg, what=what, via=R3[(i + deg) % 3]), mode="uf", torch=True))
    for i, via in enumerate(R3):
        for deg in range(4):
            out.append(H(f"uncompressed[{deg},{via}]", h_plain, dict(n=2, deg=deg, via=via), mode="uf", torch=True))

    def add(name, fn, mode="exact", **p):
        out.append(H(name, fn, p, mode=mode, torch=True, obs=c15.OBS, witnesses=2, timeout=20, escalate=()))
    W = ("torch arrays", "torch save", "torch save_compressed", "torch plywrite")
    RD = ("torch load cpu", "torch from_compressed cpu:0", "torch plyread cpu")
    for f in ("means", "scales", "sh0"):
        for k in range(3):
            for n in (1, 2):
                add(f"write {f}[{k},n={n}]", h_linear, n=n, via=W[(k + n) % 4], field=f, k=k, rows=list(range(n)))
            for i, (n, row) in enumerate(((1, 0), (2, 1), (257, 256), (257, 255))):
                add(f"read {f}[{k},n={n},{row}]", h_read_linear, n=n, via=RD[(i + k) % 3], field=f, k=k, row=row)
        for n, rows in ((256, (0, 255)), (257, (0, 255, 256))):
            add(f"write {f}[1,n={n}]", h_linear, n=n, via="torch arrays", field=f, k=1, rows=list(rows))
    for i, (n, via) in enumerate(zip((1, 2, 1, 2), W)):
        add(f"write opacity[n={n},{via}]", h_opacity, n=n, via=via)
        for deg in (1, 2, 3):
            for band in range(BANDS[deg]):
                if (deg < 3 or band in (0, 7, 8, 14)) and (band + i) % 2 == 0:
                    add(f"write sh[{deg},{band},n={n},{via}]", h_sh, n=n, deg=deg, via=via, row=n - 1, band=band)
    for big in range(4):
        for neg in (0, 1):
            add(f"write rotation[{big},{'-' if neg else '+'}]", h_quat, n=1 + neg, via=W[big], big=big, neg=neg)
    for i, n in enumerate((1, 2, 257)):
        for codes in ((0, 0), (1, 254), (255, 255)):
            add(f"read opacity[{codes[0]}..{codes[1]},n={n}]", h_read_opacity, n=n, via=RD[i], codes=codes)
        for which in range(4):
            add(f"read rotation[{which},n={n}]", h_read_quat, n=n, via=RD[(i + which) % 3], which=which)
        if n < 3:
            for deg in (1, 2, 3):
                for band in range(BANDS[deg]):
                    if deg < 3 or band in (0, 7, 8, 14):
                        add(f"read sh[{deg},{band},n={n}]", h_read_sh, n=n, deg=deg, via=RD[(i + band) % 3], row=n - 1, band=band)
    return out
