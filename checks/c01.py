"""C01: uncompressed write -> read is bit exact."""
from engine.driver import H
from .common import BANDS, fields, make, observe, same_fields, snap, with_prov

BOUNDS = ("N in {0,1,2,3,7} Gaussians with every float32 bit pattern of every field symbolic (including NaN, infinities, "
          "signed zeros, denormals); SH degree 0..3; write paths: save / plywrite / write_uncompressed / raw arrays; "
          "provenance: fresh, consolidated, sliced, re-read, contiguous; thorough adds N up to 300")
OUTSIDE = "larger N (kernels are uniform per row), file systems that fail or write partially"


def h_round(cx, n, deg, via, prov, read):
    gs = cx.gs
    f = fields(cx, n, deg, shn="empty" if via != "none_shn" else "none")
    want = {k: cx.snap(v) for k, v in f.items()}
    p = cx.path("a.ply")
    d = gs.GSData.from_arrays(**f, format="ply")
    if prov == "consolidated":
        d = d.consolidate()
    elif prov == "sliced":
        d = d[:]
    elif prov == "consol_sliced":
        d = d.consolidate()[:]
    elif prov == "reread":
        gs.plywrite(p, d)
        d = gs.plyread(p)
        p = cx.path("b.ply")
    elif prov == "reread_contig":
        gs.plywrite(p, d)
        d = gs.plyread(p)
        d.make_contiguous()
        p = cx.path("b.ply")
    elif prov == "copied":
        d = d.consolidate().copy()
    elif prov == "strided":
        # caller's own non-contiguous arrays
        f2 = {k: (v.repeat(2, axis=0)[::2] if v is not None else None) for k, v in f.items()}
        d = gs.GSData.from_arrays(**f2, format="ply")
    elif prov in ("fortran", "flipped"):
        d = with_prov(cx, d, prov, deg)
    if via in ("plywrite", "none_shn"):
        gs.plywrite(p, d)
    elif via == "save":
        d.save(p)
    elif via == "wu":
        from gsply.writer import write_uncompressed
        write_uncompressed(p, d)
    elif via == "wu_novalidate":
        from gsply.writer import write_uncompressed
        write_uncompressed(p, d, validate=False)
    elif via in ("raw", "raw_flat"):
        # raw arrays: scales/opacities recognised as log/logit
        for i in range(n):
            cx.assume(cx.land(*[f["scales"][i, j] < 0 for j in range(3)]))
            cx.assume(f["opacities"][i] > 1)
        shn = f["shN"] if deg else None
        if via == "raw_flat" and deg:
            # (N, 3K): already in the file's channel-grouped order
            shn = shn.transpose(0, 2, 1).reshape(n, 3 * BANDS[deg])
        gs.plywrite(p, f["means"], f["scales"], f["quats"], f["opacities"], f["sh0"], shn)
    e = gs.plyread(p) if read == "plyread" else gs.GSData.load(p)
    cx.check("count", len(e) == n)
    cx.check("degree", e.get_sh_degree() == deg)
    cx.check("format tags", e.is_scales_ply and e.is_opacities_ply and e.is_sh0_sh)
    same_fields(cx, "", e, want)
    observe(cx, "", e)
    # a second generation is byte-identical
    q = cx.path("c.ply")
    gs.plywrite(q, e)
    cx.same_items("rewrite", cx.read(p), cx.read(q))


def harnesses(tier):
    out = []

    def add(n, deg, via="plywrite", prov="fresh", read="plyread", **k):
        out.append(H(f"round[n={n},deg={deg},{via},{prov},{read}]", h_round,
                     dict(n=n, deg=deg, via=via, prov=prov, read=read), witnesses=1, **k))
    for deg in range(4):
        for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 7, 65, 300):
            add(n, deg)
        for prov in ("consolidated", "sliced", "consol_sliced", "reread", "reread_contig", "copied", "strided", "fortran", "flipped"):
            add(2, deg, prov=prov)
        for via in ("save", "wu", "wu_novalidate"):
            add(2, deg, via=via)
        for via in ("raw", "raw_flat"):
            add(1 if tier == "quick" else 2, deg, via=via, mode="fp")
        add(2, deg, read="load")
        add(1, deg, prov="consolidated", via="save", read="load")
        add(0, deg, prov="reread")
    add(2, 0, via="none_shn")
    add(7, 3)
    return out
