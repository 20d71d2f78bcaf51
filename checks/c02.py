"""C02: the uncompressed file layout, writer and reader separately against an independent description."""
from engine.driver import H
from . import plyspec as S
from .common import BANDS, fields, observe, same_fields

BOUNDS = ("N in {0,1,2,3,11,257} (thorough up to 1000 rows), degrees 0-3, every float32 bit pattern of every value; writer entry points "
          "and provenances as in C01; reader on files composed from the description with comment/obj_info lines at symbolic positions, "
          "headers longer than one 8 KiB block, trailing bytes")
OUTSIDE = "CR line ends; headers using property aliases or other element orders (rejected, see C07)"


def h_write(cx, n, deg, via):
    gs = cx.gs
    f = fields(cx, n, deg)
    want = S.text(cx, S.header(n, deg)) + S.row_bytes(cx, S.rows(cx, f, n, deg))
    d = gs.GSData.from_arrays(**f, format="ply")
    p = cx.path("a.ply")
    if via == "plywrite":
        gs.plywrite(p, d)
    elif via == "save":
        d.save(p)
    elif via == "consolidated":
        d.consolidate().save(p)
    elif via == "sliced":
        gs.plywrite(p, d.consolidate()[0:n])
    elif via == "stepped":
        # twice as many rows, then every other one
        d2 = gs.GSData.concatenate([d, d]).consolidate()
        idx = cx.np.array([k for i in range(n) for k in (i, n + i)], dtype=cx.np.int64)
        gs.plywrite(p, d2[idx][::2])
    elif via == "masked":
        d2 = gs.GSData.concatenate([d, d])
        d2[cx.np.array([True] * n + [False] * n)].save(p)
    elif via == "raw":
        for i in range(n):
            cx.assume(cx.land(*[f["scales"][i, j] < 0 for j in range(3)]))
            cx.assume(f["opacities"][i] > 1)
        gs.plywrite(p, f["means"], f["scales"], f["quats"], f["opacities"], f["sh0"], f["shN"] if deg else None)
    elif via == "overwrite":
        # a longer file already there
        cx.write(p, [65] * (len(want) + 100))
        gs.plywrite(p, d)
    cx.same_items("file bytes", cx.read(p), want)
    cx.observe("bytes", cx.read(p))


def h_read(cx, n, deg, deco, tail):
    gs = cx.gs
    f = fields(cx, n, deg)
    lines = S.header(n, deg)
    if deco == "comments":
        at = cx.choice("at", [1, 2, 3, 5, len(lines) - 2, len(lines) - 1])
        what = cx.choice("what", ["comment made by hand", "comment", "obj_info num_cols 4", "comment property float x",
                                  "comment the line before end_header"])
        lines = lines[:at] + [what] + lines[at:]
    elif deco == "long":
        # the end of the header lies beyond the first block
        pad = cx.choice("pad", [8192 - 40, 8192 + 300])
        size = sum(len(x) + 1 for x in lines)
        lines = lines[:2] + ["comment " + "c" * (pad - size)] + lines[2:]
    elif deco == "blanks":
        # blanks at the end of a line; header within or beyond one read block
        lines = lines[:2] + ["comment " + "z" * cx.choice("pad", [5, 8192])] + lines[2:]
        at = cx.choice("at", [2, 3, len(lines) - 2])
        lines = lines[:at] + [cx.choice("what", ["comment blanks at the end  ", "obj_info  2 "])] + lines[at:]
    elif deco == "manycomments":
        lines = lines[:2] + ["comment " + "y" * 90 for _ in range(100)] + lines[2:]
    hdr = S.text(cx, lines)
    payload = S.row_bytes(cx, S.rows(cx, f, n, deg))
    extra = cx.byte_syms("tail", tail)
    p = cx.path("a.ply")
    cx.write(p, hdr + payload + extra)
    from gsply.formats import detect_format
    cx.check("detected", tuple(detect_format(p)) == (False, deg))
    d = gs.plyread(p)
    cx.check("count", len(d) == n)
    cx.check("degree", d.get_sh_degree() == deg)
    cx.check("tags", d.is_scales_ply and d.is_opacities_ply and d.is_sh0_sh and
             [d.is_sh_order_0, d.is_sh_order_1, d.is_sh_order_2, d.is_sh_order_3][deg])
    same_fields(cx, "", d, f)
    observe(cx, "", d)


def harnesses(tier):
    out = []
    big = tier != "quick"
    for deg in range(4):
        for n in (0, 1, 2, 11) + ((100, 1000) if big else ()):
            out.append(H(f"write[n={n},deg={deg}]", h_write, dict(n=n, deg=deg, via="plywrite"), witnesses=1))
            out.append(H(f"read[n={n},deg={deg}]", h_read, dict(n=n, deg=deg, deco="", tail=0), witnesses=1))
        for via in ("save", "consolidated", "sliced", "stepped", "masked", "overwrite"):
            out.append(H(f"write[n=2,deg={deg},{via}]", h_write, dict(n=2, deg=deg, via=via), witnesses=1))
        out.append(H(f"write[n=1,deg={deg},raw]", h_write, dict(n=1, deg=deg, via="raw"), mode="fp", witnesses=1))
        for deco in ("comments", "long", "manycomments", "blanks"):
            out.append(H(f"read[n=2,deg={deg},{deco}]", h_read, dict(n=2, deg=deg, deco=deco, tail=0), witnesses=2))
        out.append(H(f"read[n=1,deg={deg},tail]", h_read, dict(n=1, deg=deg, deco="", tail=7), witnesses=1))
    out.append(H("write[n=257,deg=0]", h_write, dict(n=257, deg=0, via="plywrite"), witnesses=1))
    return out
