"""Independent description of the two file layouts (used as the oracle)."""
from .common import BANDS

CHUNK = ["min_x", "min_y", "min_z", "max_x", "max_y", "max_z",
         "min_scale_x", "min_scale_y", "min_scale_z", "max_scale_x", "max_scale_y", "max_scale_z",
         "min_r", "min_g", "min_b", "max_r", "max_g", "max_b"]
VERT = ["packed_position", "packed_rotation", "packed_scale", "packed_color"]


def props(deg):
    return (["x", "y", "z", "f_dc_0", "f_dc_1", "f_dc_2"] + [f"f_rest_{i}" for i in range(3 * BANDS[deg])]
            + ["opacity", "scale_0", "scale_1", "scale_2", "rot_0", "rot_1", "rot_2", "rot_3"])


def header(n, deg):
    return ["ply", "format binary_little_endian 1.0", f"element vertex {n}"] + [f"property float {p}" for p in props(deg)] + ["end_header"]


def cheader(n, deg, chunks=None, coeffs=None):
    k = (n + 255) // 256 if chunks is None else chunks
    h = ["ply", "format binary_little_endian 1.0", f"element chunk {k}"] + [f"property float {p}" for p in CHUNK]
    h += [f"element vertex {n}"] + [f"property uint {p}" for p in VERT]
    c = 3 * BANDS[deg] if coeffs is None else coeffs
    if c:
        h += [f"element sh {n}"] + [f"property uchar f_rest_{i}" for i in range(c)]
    return h + ["end_header"]


def rows(cx, f, n, deg):
    """float values of the file's rows, in file order"""
    out = []
    for i in range(n):
        r = [f["means"][i, j] for j in range(3)] + [f["sh0"][i, j] for j in range(3)]
        r += [f["shN"][i, b, c] for c in range(3) for b in range(BANDS[deg])]
        r += [f["opacities"][i]] + [f["scales"][i, j] for j in range(3)] + [f["quats"][i, j] for j in range(4)]
        out.append(r)
    return out


def row_bytes(cx, rows_):
    out = []
    for r in rows_:
        a = cx.np.empty(len(r), dtype=cx.np.float32)
        for j, v in enumerate(r):
            a[j] = v
        out += cx.arr_bytes(a)
    return out


def text(cx, lines, eol="\n"):
    return cx.text(eol.join(lines) + eol)
