"""C15: the codes in compressed files are the PlayCanvas quantisation of the values, and are read back by the same rule."""
from engine.driver import H
from . import plyspec as S
from .common import BANDS, FIELDS, ply_tags, check_tags

BOUNDS = ("written: N in {1,2,3} with every row symbolic and N in {256,257,513} with the rows at the chunk edges symbolic, one component at a time, |means|<=1000, "
          "log scales in [-30,30], |sh0|<=20, |opacity logit|<=30, |shN|<=10, quaternions of components in [-10,10] and any length >=0.01; "
          "read: every code value of every field, chunk bounds in [-100,100] (colour bounds [-10,10]), N in {1,2,257}; SH degree 0..3")
OUTSIDE = "NaN/infinite inputs, magnitudes above the stated ranges, other N; colour code formula where a chunk's colour range is below 0.05 (float32 cannot resolve it)"
ASSUMPTIONS = ["arithmetic decided in exact reals with explicit slack for float rounding (1% of a code step written, 1e-4 absolute read)",
               "library exp/log otherwise known through monotonicity, inverse, tangents and secants"]

RANGES = dict(means=(-1000.0, 1000.0), scales=(-30.0, 30.0), sh0=(-20.0, 20.0))
COL = dict(means=(0, 3), scales=(6, 9), sh0=(12, 15))       # first minimum / maximum column of the chunk record
WORD = dict(means=0, scales=2, sh0=3)
SHIFT = dict(means=(21, 11, 0), scales=(21, 11, 0), sh0=(24, 16, 8))
BITS = dict(means=(11, 10, 11), scales=(11, 10, 11), sh0=(8, 8, 8))
C0 = (28209479177387814, 10 ** 17)


def base(cx, n, **kw):
    z = cx.np.zeros
    f32 = cx.np.float32
    f = dict(means=z((n, 3), dtype=f32), scales=z((n, 3), dtype=f32), quats=cx.carr([[1, 0, 0, 0]] * n),
             opacities=z((n,), dtype=f32), sh0=z((n, 3), dtype=f32), shN=None)
    f.update(kw)
    return cx.gs.GSData.from_arrays(**f, format="ply")


def bits(cx, w, shift, width):
    a = cx.np.empty(1, dtype=cx.np.uint32)
    a[0] = w
    return cx.R(((a >> shift) & ((1 << width) - 1))[0])


class Parts:
    """the pieces of a compressed file, found by the layout alone"""
    def __init__(self, cx, d, n, deg, via):
        gs = cx.gs
        self.cx, self.n, self.k, self.c = cx, n, (n + 255) // 256, 3 * BANDS[deg]
        if via.startswith("torch"):
            via = self.tensor(cx, d, via[6:])
            if via is None:
                return
        if via == "arrays":
            _, self.ch, self.ve, self.sh = gs.compress_to_arrays(d)
            self.raw = None
            return
        if via == "bytes":
            raw = cx.items(gs.compress_to_bytes(d))
        else:
            if via == "file":
                gs.plywrite(cx.path("a.compressed.ply"), d)
            raw = cx.read(cx.path("a.compressed.ply"))
        self.off = len(S.text(cx, S.cheader(n, deg)))
        cx.check("length", len(raw) == self.off + self.k * 72 + n * 16 + n * self.c)
        self.raw = raw

    def tensor(self, cx, d, via):
        """the same through the tensor container"""
        t = cx.gs.GSTensor.from_gsdata(d, device="cpu")
        p = cx.path("a.compressed.ply")
        if via == "arrays":
            from importlib import import_module
            comp = import_module("gsply.torch.compression")
            self.ch, self.ve, self.sh = comp.compress_gpu(t.means, t.scales, t.quats, t.opacities, t.sh0, t.shN)
            self.raw = None
            return None
        if via == "save":
            t.save(p)
        elif via == "save_compressed":
            t.save_compressed(p)
        else:
            cx.gs.plywrite_gpu(p, t)
        return "written"

    def chunk(self, c, j):
        if self.raw is None:
            return self.ch[c, j]
        return self.cx.decode(self.raw, "f32", self.off + c * 72 + 4 * j)

    def word(self, i, j):
        if self.raw is None:
            return self.ve[i, j]
        return self.cx.decode(self.raw, "u32", self.off + self.k * 72 + i * 16 + 4 * j)

    def shcode(self, i, j):
        if self.raw is None:
            return self.cx.R(self.sh[i, j])
        return self.cx.R(self.cx.decode(self.raw, "u8", self.off + self.k * 72 + self.n * 16 + i * self.c + j))


def near(cx, label, code, want, t=(51, 100)):
    """code is want rounded to the nearest integer"""
    F = cx.F
    d = code - want
    cx.check(label, cx.land(d <= F(*t), -d <= F(*t)), cx.land(d <= F(9, 10), -d <= F(9, 10)), cx.land(d <= F(2), -d <= F(2)))


def h_linear(cx, n, via, field, k, rows):
    F = cx.F
    a = cx.np.zeros((n, 3), dtype=cx.np.float32)
    lo, hi = RANGES[field]
    x = cx.arr(field, (len(rows),), "f32", lo, hi)
    for i in range(n):
        # the other rows repeat the first symbolic row of their chunk
        j = rows.index(i) if i in rows else next(r for r in range(len(rows)) if rows[r] // 256 == i // 256)
        a[i, k] = x[j]
    p = Parts(cx, base(cx, n, **{field: a}), n, 0, via)
    w = BITS[field][k]
    lev = (1 << w) - 1
    cmin, cmax = COL[field]
    for c in range(p.k):
        js = [j for j in range(len(rows)) if rows[j] // 256 == c]
        v = [cx.R(x[j]) for j in js]
        if field == "scales":
            v = [cx.clamp(u, F(-20), F(20)) for u in v]
        if field == "sh0":
            v = [u * F(*C0) + F(1, 2) for u in v]
        mn = mx = v[0]
        for u in v[1:]:
            mn, mx = cx.min(mn, u), cx.max(mx, u)
        bmin, bmax = cx.R(p.chunk(c, cmin + k)), cx.R(p.chunk(c, cmax + k))
        if field == "sh0":
            cx.close("chunk minimum", bmin, mn, F(1, 200000), margin=F(1, 1000))
            cx.close("chunk maximum", bmax, mx, F(1, 200000), margin=F(1, 1000))
        else:
            cx.check("chunk minimum", cx.land(bmin <= mn, mn <= bmin))
            cx.check("chunk maximum", cx.land(bmax <= mx, mx <= bmax))
        for kk in range(3):
            if kk != k:
                o = F(1, 2) if field == "sh0" else F(0)
                cx.check("bounds of other columns", cx.land(*[cx.land(cx.R(p.chunk(c, q + kk)) <= o, o <= cx.R(p.chunk(c, q + kk))) for q in (cmin, cmax)]))
        for j in js:
            code = bits(cx, p.word(rows[j], WORD[field]), SHIFT[field][k], w)
            u = cx.R(x[j])
            if field == "sh0":
                u = u * F(*C0) + F(1, 2)
            rng = cx.max(bmax - bmin, F(1, 10 ** 10))
            t = (u - bmin) / rng
            want = cx.clamp(t, F(0), F(1)) * lev
            d = code - want
            g = rng >= (F(1, 20) if field == "sh0" else F(1, 10 ** 6))
            cx.check("code", cx.implies(g, cx.land(d <= F(51, 100), -d <= F(51, 100))),
                     cx.implies(rng >= F(1, 10), cx.land(d <= F(9, 10), -d <= F(9, 10))), cx.implies(rng >= F(1, 10), cx.land(d <= F(2), -d <= F(2))))
            for kk in range(3):
                if kk != k:
                    cx.check("other codes", cx.land(bits(cx, p.word(rows[j], WORD[field]), SHIFT[field][kk], BITS[field][kk]) <= F(0)))
            cx.observe(f"code{j}", ((p.word(rows[j], WORD[field]) >> SHIFT[field][k]) & lev) if p.raw is None else p.chunk(c, cmin + k))


def h_opacity(cx, n, via):
    F = cx.F
    op = cx.np.zeros((n,), dtype=cx.np.float32)
    x = cx.scalar("opacity", "f32", -30.0, 30.0)
    op[n - 1] = x
    p = Parts(cx, base(cx, n, opacities=op), n, 0, via)
    code = bits(cx, p.word(n - 1, 3), 0, 8)
    E = cx.exp(F(0) - cx.R(x))
    near(cx, "opacity code", code, F(255) / (F(1) + E))
    if n > 1:
        near(cx, "opacity code of the other row", bits(cx, p.word(0, 3), 0, 8), F(255, 2))
    cx.observe("opacity", op)


def h_quat(cx, n, via, big, neg):
    F = cx.F
    q = cx.carr([[1, 0, 0, 0]] * n)
    x = cx.arr("quats", (4,), "f32", -10.0, 10.0)
    w = [cx.R(x[j]) for j in range(4)]
    for j in range(4):
        q[n - 1, j] = x[j]
    norm = cx.sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + w[3] * w[3])
    cx.assume(norm >= F(1, 100))
    s = F(-1) if neg else F(1)
    u = [s * v / norm for v in w]
    for j in range(4):
        if j != big:
            cx.assume(cx.land(u[j] < u[big], -u[j] < u[big]))
            cx.assume(cx.land(u[j] <= F(70711, 100000), -u[j] <= F(70711, 100000)))     # follows from the line above
    p = Parts(cx, base(cx, n, quats=q), n, 0, via)
    word = p.word(n - 1, 1)
    idx = bits(cx, word, 30, 2)
    cx.check("largest component", cx.land(idx <= F(big), idx >= F(big)))
    sh = 20
    for j in range(4):
        if j == big:
            continue
        near(cx, "rotation code", bits(cx, word, sh, 10), (u[j] * F(7071067811865476, 10 ** 16) + F(1, 2)) * F(1023))
        sh -= 10
    cx.observe("quats", q)


def h_sh(cx, n, deg, via, row, band):
    F = cx.F
    K = BANDS[deg]
    sh = cx.np.zeros((n, K, 3), dtype=cx.np.float32)
    x = cx.arr("shN", (3,), "f32", -10.0, 10.0)
    for c in range(3):
        sh[row, band, c] = x[c]
    p = Parts(cx, base(cx, n, shN=sh), n, deg, via)
    for c in range(3):
        t = cx.clamp(cx.R(x[c]) * 32 + 128, F(0), F(255))
        code = p.shcode(row, c * K + band)
        d = t - code
        cx.check("SH code", cx.land(d >= -F(1, 100), d <= F(101, 100)), cx.land(d >= -F(1), d <= F(2)))
    for i in range(n):
        for j in range(3 * K):
            if i != row or j % K != band:
                z = p.shcode(i, j)
                cx.check("other SH codes", cx.land(z <= F(128), z >= F(128)))
    cx.observe("shN", sh)


# ------------------------------------------------------------------------------ reading

class Arrays:
    """the fields of a tensor container as arrays"""
    def __init__(self, cx, t):
        self.t, self.n = t, len(t)
        for k in FIELDS:
            v = getattr(t, k)
            setattr(self, k, None if v is None else cx.nd(v))

    def __len__(self):
        return self.n

    def __getattr__(self, k):
        return getattr(self.t, k)


def load(cx, raw, via):
    gs = cx.gs
    if via == "bytes":
        return gs.decompress_from_bytes(cx.mkbytes(raw))
    p = cx.path("in.compressed.ply" if via != "plain name" else "in.ply")
    cx.write(p, raw)
    if via.startswith("torch"):
        how, dev = via[6:].split(" ")
        T = gs.GSTensor
        t = {"load": T.load, "from_compressed": T.from_compressed, "plyread": gs.plyread_gpu}[how](p, device=dev)
        return Arrays(cx, t)
    return gs.GSData.load(p) if via == "load" else gs.plyread(p)


def join(cx, fields):
    """the 32-bit word with the given (value, shift) fields"""
    a = cx.np.zeros(1, dtype=cx.np.uint32)
    for v, s in fields:
        b = cx.np.empty(1, dtype=cx.np.uint32)
        b[0] = v
        a = a | (b << s)
    return a[0]


def file_of(cx, n, deg, chunk, word, sh=None):
    """bytes of a compressed file; chunk(c,j), word(i,j) and sh(i,j) give the values that differ from 0"""
    k = (n + 255) // 256
    ch = cx.np.zeros((k, 18), dtype=cx.np.float32)
    ve = cx.np.zeros((n, 4), dtype=cx.np.uint32)
    for (c, j), v in chunk.items():
        ch[c, j] = v
    for (i, j), v in word.items():
        ve[i, j] = v
    raw = S.text(cx, S.cheader(n, deg)) + cx.arr_bytes(ch) + cx.arr_bytes(ve)
    if deg:
        s = cx.np.zeros((n, 3 * BANDS[deg]), dtype=cx.np.uint8)
        for (i, j), v in (sh or {}).items():
            s[i, j] = v
        raw += cx.arr_bytes(s)
    return raw


def h_read_linear(cx, n, via, field, k, row):
    F = cx.F
    R = 10.0 if field == "sh0" else 100.0
    b = cx.arr("bounds", (2,), "f32", -R, R)
    w = [cx.scalar(f"code{j}", "u32", 0, (1 << BITS[field][j]) - 1) for j in range(3)]
    o = cx.scalar("opacity", "u32", 0, 255) if field == "sh0" else None
    fs = [(w[j], SHIFT[field][j]) for j in range(3)] + ([(o, 0)] if o is not None else [])
    c = row // 256
    cmin, cmax = COL[field]
    raw = file_of(cx, n, 0, {(c, cmin + k): b[0], (c, cmax + k): b[1]}, {(row, WORD[field]): join(cx, fs)})
    e = load(cx, raw, via)
    cx.check("count", len(e) == n)
    lo, hi = cx.R(b[0]), cx.R(b[1])
    for kk in range(3):
        v = cx.R(getattr(e, field)[row, kk])
        want = F(0)
        if kk == k:
            want = lo + cx.R(w[k]) * (hi - lo) * F(1, (1 << BITS[field][k]) - 1)
        if field == "sh0":
            want = (want - F(1, 2)) * F(C0[1], C0[0])
        cx.close("value", v, want, F(1, 5000), margin=F(1, 100))
    for i in range(n):
        if i != row and i // 256 == c and i in (0, n - 1, row - 1, row + 1):
            want = lo if field != "sh0" else (lo - F(1, 2)) * F(C0[1], C0[0])
            cx.close("other rows", cx.R(getattr(e, field)[i, k]), want, F(1, 5000), margin=F(1, 100))
    cx.observe(field, getattr(e, field)[row])


def h_read_opacity(cx, n, via, codes):
    F = cx.F
    code = codes[0] if codes[0] == codes[1] else cx.scalar("code", "u32", *codes)
    e = load(cx, file_of(cx, n, 0, {}, {(n - 1, 3): join(cx, [(code, 0)])}), via)
    r, c = cx.R(e.opacities[n - 1]), cx.R(code)
    if codes[0] == codes[1] and via.startswith("torch"):
        cx.check("end code", r <= F(-9) if codes[0] == 0 else r >= F(9))    # transparent or opaque within 1e-3
    elif codes == (0, 0):
        cx.check("code 0", cx.land(r <= F(-10), r >= F(-10)))
    elif codes == (255, 255):
        cx.check("code 255", cx.land(r <= F(10), r >= F(10)))
    else:
        d = cx.exp(F(0) - r) * c - (F(255) - c)
        cx.check("logit", cx.land(d <= F(1, 100), -d <= F(1, 100)), cx.land(d <= F(1), -d <= F(1)))
    cx.observe("opacities", e.opacities)


def h_read_quat(cx, n, via, which):
    F = cx.F
    w = [cx.scalar(f"code{j}", "u32", 0, 1023) for j in range(3)]
    idx = cx.scalar("which", "u32", which, which)
    e = load(cx, file_of(cx, n, 0, {}, {(n - 1, 1): join(cx, [(idx, 30), (w[0], 20), (w[1], 10), (w[2], 0)])}), via)
    r = [cx.R(e.quats[n - 1, j]) for j in range(4)]
    a = [(cx.R(v) * F(1, 1023) - F(1, 2)) * F(14142135623730951, 10 ** 16) for v in w]
    o = [j for j in range(4) if j != which]
    for j, v in zip(o, a):
        cx.close("stored component", r[j], v, F(1, 10000), margin=F(1, 1000))
    s = r[o[0]] * r[o[0]] + r[o[1]] * r[o[1]] + r[o[2]] * r[o[2]]
    m = r[which]
    u = m * m + s - F(1)
    cx.check("largest not negative", m >= F(0))
    cx.check("unit length", cx.implies(s <= F(1), cx.land(u <= F(1, 1000), -u <= F(1, 1000))), cx.implies(s <= F(1), cx.land(u <= F(1, 100), -u <= F(1, 100))))
    cx.check("degenerate codes", cx.implies(s > F(1), m * m <= F(1, 1000)))
    cx.observe("quats", e.quats)


def h_read_sh(cx, n, deg, via, row, band):
    F = cx.F
    K = BANDS[deg]
    q = [cx.scalar(f"code{c}", "u8") for c in range(3)]
    e = load(cx, file_of(cx, n, deg, {}, {}, {(row, c * K + band): q[c] for c in range(3)}), via)
    cx.check("shape", e.shN.shape == (n, K, 3))
    for i in range(n):
        for b in range(K):
            for c in range(3):
                v = cx.R(q[c]) if (i, b) == (row, band) else F(0)
                cx.close("SH value", cx.R(e.shN[i, b, c]), (v - F(255, 2)) * F(1, 32), F(1, 100000), margin=F(1, 100))
    check_tags(cx, "tags", e, ply_tags(deg))
    cx.observe("shN", e.shN)


OBS = {"int": 1, "abs": 1e-2, "rel": 1e-2}


def harnesses(tier):
    out = []

    def add(name, fn, mode="exact", **p):
        out.append(H(name, fn, p, mode=mode, obs=OBS, witnesses=2, timeout=20, escalate=()))
    for f in ("means", "scales", "sh0"):
        for k in range(3):
            for n in (1, 2, 3):
                add(f"write {f}[{k},n={n},arrays]", h_linear, n=n, via="arrays", field=f, k=k, rows=list(range(n)))
            for via in ("bytes", "file"):
                add(f"write {f}[{k},n=2,{via}]", h_linear, n=2, via=via, field=f, k=k, rows=[0, 1])
            for n, row, via in ((1, 0, "bytes"), (2, 1, "plyread"), (1, 0, "load"), (257, 256, "bytes"), (257, 255, "plyread")):
                add(f"read {f}[{k},n={n},{via}]", h_read_linear, n=n, via=via, field=f, k=k, row=row)
        for n, rows in ((256, (0, 255)), (257, (0, 255, 256)), (513, (0, 256, 512))):
            add(f"write {f}[1,n={n},arrays]", h_linear, n=n, via="arrays", field=f, k=1, rows=list(rows))
    for n, via in ((1, "arrays"), (2, "bytes"), (2, "file")):
        add(f"write opacity[n={n},{via}]", h_opacity, n=n, via=via)
        for deg in (1, 2, 3):
            for band in range(BANDS[deg]):
                if deg < 3 or band in (0, 7, 8, 14):
                    add(f"write sh[{deg},{band},n={n},{via}]", h_sh, n=n, deg=deg, via=via, row=n - 1, band=band)
        for big in range(4):
            for neg in (0, 1):
                add(f"write rotation[{big},{'-' if neg else '+'},n={n},{via}]", h_quat, n=n, via=via, big=big, neg=neg)
    for n, via in ((1, "bytes"), (2, "plyread"), (1, "load"), (257, "bytes")):
        for codes in ((0, 0), (1, 254), (255, 255)):
            add(f"read opacity[{codes[0]}..{codes[1]},n={n},{via}]", h_read_opacity, n=n, via=via, codes=codes)
        for which in range(4):
            add(f"read rotation[{which},n={n},{via}]", h_read_quat, n=n, via=via, which=which)
        if n < 3:
            for deg in (1, 2, 3):
                for band in range(BANDS[deg]):
                    if deg < 3 or band in (0, 7, 8, 14):
                        add(f"read sh[{deg},{band},n={n},{via}]", h_read_sh, n=n, deg=deg, via=via, row=n - 1, band=band)
    return out
