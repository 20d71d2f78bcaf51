"""C04: format tags say what the stored values are, through every operation, and decide conversion on saving."""
from engine.driver import H
from .common import BANDS, FIELDS, check_tags, fields, ply_tags, same_fields, snap, tags, with_prov

BOUNDS = ("scenes of 0..2 Gaussians, every float32 bit pattern, SH degree 0-3, every preset x colour tag; every mixture of linear/log scales, linear/logit "
          "opacities, RGB/SH colours; every history of 3 (thorough 4) operations out of 21; automatic detection for 0..2 Gaussians")
OUTSIDE = "automatic detection of mixed-sign or borderline values (documented as a heuristic); sh_degree arguments that contradict shN"
ASSUMPTIONS = ["conversion arithmetic is uninterpreted here (its values are the subject of the conversion properties); equal inputs give equal outputs"]

KINDS = {"ply": ("PLY", "PLY"), "linear": ("LINEAR", "LINEAR"), "rasterizer": ("LINEAR", "LINEAR")}


def want(deg, s="PLY", o="PLY", c="SH0_SH"):
    t = ply_tags(deg, c)
    t["scales"], t["opacities"] = "SCALES_" + s, "OPACITIES_" + o
    return t


def mixed(cx, n, deg, s, o, c, prov="fresh", pre="", **kw):
    """a scene whose tags are the given mixture"""
    from gsply.gsdata import DataFormat
    d = cx.gs.GSData.from_arrays(**fields(cx, n, deg, pre, **kw), format="ply", sh0_format=DataFormat[c])
    d = with_prov(cx, d, prov, deg)
    return d.with_format(scales=DataFormat["SCALES_" + s], opacities=DataFormat["OPACITIES_" + o], sh0=DataFormat[c])


def h_preset(cx, n, deg, preset, c, entry):
    from gsply.gsdata import DataFormat
    gs = cx.gs
    f = fields(cx, n, deg)
    s, o = KINDS[preset]
    w = want(deg, s, o, c)
    if entry == "from_arrays":
        d = gs.GSData.from_arrays(**f, format=preset, sh0_format=DataFormat[c])
    elif entry == "from_dict":
        d = gs.GSData.from_dict(f, format=preset, sh0_format=DataFormat[c], sh_degree=deg)
    else:
        mk = gs.create_ply_format if preset == "ply" else gs.create_rasterizer_format
        fmt = mk(sh_degree=deg, sh0_format=DataFormat[c])
        cx.check("preset dictionary", {k: v.name for k, v in fmt.items()} == w)
        d = gs.GSData(**f, _format=fmt)
        # the container keeps its own tags
        fmt["scales"] = DataFormat.SCALES_LINEAR if s == "PLY" else DataFormat.SCALES_PLY
        cx.check("preset made again", {k: v.name for k, v in mk(sh_degree=deg, sh0_format=DataFormat[c]).items()} == w)
    check_tags(cx, "preset:", d, w)
    same_fields(cx, "values:", d, f)
    st = d.format_state
    st["scales"] = DataFormat.SCALES_LINEAR if s == "PLY" else DataFormat.SCALES_PLY
    st.clear()
    check_tags(cx, "after editing format_state:", d, w)
    cx.observe("m", d.means)


def h_reject(cx):
    from gsply.gsdata import DataFormat
    gs = cx.gs
    f = fields(cx, 1, 0)
    for bad in ("PLY", "log", "", "raster", None):
        cx.raises(f"preset {bad!r}", lambda: gs.GSData.from_arrays(**f, format=bad), (ValueError,))
        cx.raises(f"dict preset {bad!r}", lambda: gs.GSData.from_dict(f, format=bad), (ValueError,))
    for deg in (-1, 4, 15):
        cx.raises(f"degree {deg}", lambda: gs.create_ply_format(sh_degree=deg), (ValueError,))
        cx.raises(f"degree {deg}", lambda: gs.create_rasterizer_format(sh_degree=deg), (ValueError,))
        cx.raises(f"degree {deg}", lambda: gs.GSData.from_arrays(**f, format="ply", sh_degree=deg), (ValueError,))
    d = gs.GSData.from_arrays(**f, format="ply")
    before = tags(d)
    cx.raises("unknown tag", lambda: d.with_format(colour=DataFormat.SH0_RGB), (ValueError,))
    cx.check("unchanged", tags(d) == before)


OPS = ("normalize", "normalize new", "denormalize", "denormalize new", "to_rgb", "to_rgb new", "to_sh", "to_sh new", "activate", "activate new", "deactivate",
       "deactivate new", "copy", "slice", "mask", "index", "consolidate", "add", "contiguous", "file", "with_format")


def step(cx, d, t, op, i):
    from gsply.gsdata import DataFormat
    gs, np = cx.gs, cx.np
    n = len(d)
    t = dict(t)
    if op.startswith("normalize") or op.startswith("deactivate"):
        t["scales"], t["opacities"] = "SCALES_PLY", "OPACITIES_PLY"
    elif op.startswith("denormalize") or op.startswith("activate"):
        t["scales"], t["opacities"] = "SCALES_LINEAR", "OPACITIES_LINEAR"
    elif op.startswith("to_rgb"):
        t["sh0"] = "SH0_RGB"
    elif op.startswith("to_sh"):
        t["sh0"] = "SH0_SH"
    elif op == "file":
        t = ply_tags(int(t["sh_order"][-1]))
    new = op.endswith(" new")
    op = op.replace(" new", "")
    conv = {"normalize": "normalize", "denormalize": "denormalize", "to_rgb": "to_rgb", "to_sh": "to_sh"}
    if op in conv:
        r = getattr(d, op)(inplace=not new)
    elif op == "activate":
        r = gs.apply_pre_activations(d, inplace=not new)
    elif op == "deactivate":
        r = gs.apply_pre_deactivations(d, inplace=not new)
    elif op == "copy":
        r, new = d.copy(), True
    elif op == "slice":
        r, new = d[:n], True
    elif op == "mask":
        r, new = d[np.ones(n, dtype=bool)], True
    elif op == "index":
        r, new = d[list(range(n))[::-1]], True
    elif op == "consolidate":
        r = d.consolidate()
        new = r is not d
    elif op == "add":
        r, new = (d + d)[:n], True
    elif op == "contiguous":
        r = d.make_contiguous()
    elif op == "file":
        p = cx.path(f"f{i}.ply")
        d.save(p)
        r, new = gs.plyread(p), True
    elif op == "with_format":
        k = cx.choice(f"kind{i}", ["PLY", "LINEAR"])
        t["scales"] = "SCALES_" + k
        r, new = d.with_format(scales=DataFormat["SCALES_" + k]), True
    if not new:
        cx.check(op + " works in place", r is d)
    else:
        cx.check(op + " returns another object", r is not d)
    return r, t, new


def h_hist(cx, n, deg, s, o, c, prov, first, length):
    d = mixed(cx, n, deg, s, o, c, prov)
    t = want(deg, s, o, c)
    check_tags(cx, "start:", d, t)
    for i in range(length):
        op = first if i == 0 else cx.choice(f"op{i}", OPS)
        before = t
        prev = d
        d, t, new = step(cx, d, t, op, i)
        check_tags(cx, f"after {op}:", d, t)
        if new:
            check_tags(cx, f"source of {op}:", prev, before)
    # tags travel with copy_format_from and stay private
    e = cx.gs.GSData.from_arrays(**fields(cx, n, deg, "e"), format="linear")
    e.copy_format_from(d)
    check_tags(cx, "copied tags:", e, t)
    e.to_rgb() if d.is_sh0_sh else e.to_sh()
    check_tags(cx, "tags are not shared:", d, t)
    cx.observe("m", d.means)


def explicit(cx, d, s, o, c):
    """the PLY-format container the tags promise, built by explicit conversion of a fully linear / fully log copy"""
    from gsply.gsdata import DataFormat
    full = d.with_format(scales=DataFormat.SCALES_LINEAR, opacities=DataFormat.OPACITIES_LINEAR).normalize(inplace=False)
    colour = d.with_format(sh0=DataFormat.SH0_RGB).to_sh(inplace=False)
    return cx.gs.GSData.from_arrays(means=d.means, quats=d.quats, scales=full.scales if s == "LINEAR" else d.scales,
                                    opacities=full.opacities if o == "LINEAR" else d.opacities,
                                    sh0=colour.sh0 if c == "SH0_RGB" else d.sh0, shN=d.shN, format="ply")


def h_save(cx, n, deg, s, o, c, prov, compressed):
    """saving converts exactly the fields whose tags say they are not in file format"""
    d = mixed(cx, n, deg, s, o, c, prov)
    e = explicit(cx, d.copy(), s, o, c)
    w = want(deg, s, o, c)
    ext = ".compressed.ply" if compressed else ".ply"
    p, q, r = cx.path("a" + ext), cx.path("b" + ext), cx.path("c" + ext)
    d.save(p)
    e.save(q)
    cx.gs.plywrite(r, d, compressed=compressed)
    cx.same_items("same file as explicit conversion", cx.read(p), cx.read(q))
    cx.same_items("save and plywrite agree", cx.read(p), cx.read(r))
    check_tags(cx, "source:", d, w)
    x = cx.gs.plyread(p)
    check_tags(cx, "read back:", x, ply_tags(deg))
    if not compressed:
        same_fields(cx, "read back:", x, snap(cx, e))
    cx.observe("x", x.means)


def h_convert(cx, n, deg, s, o, prov):
    """conversions leave a field that already is in the target format bit for bit alone"""
    from gsply.gsdata import DataFormat
    d = mixed(cx, n, deg, s, o, "SH0_SH", prov)
    v = snap(cx, d)
    lin = d.copy().with_format(scales=DataFormat.SCALES_PLY, opacities=DataFormat.OPACITIES_PLY).denormalize(inplace=False)
    ply = d.copy().with_format(scales=DataFormat.SCALES_LINEAR, opacities=DataFormat.OPACITIES_LINEAR).normalize(inplace=False)
    for inplace in (False, True):
        if (s, o) != ("PLY", "PLY"):
            r = d.copy().normalize(inplace=inplace)
            cx.same("normalize: scales", r.scales, ply.scales if s == "LINEAR" else v["scales"])
            cx.same("normalize: opacities", r.opacities, ply.opacities if o == "LINEAR" else v["opacities"])
            for k in ("means", "quats", "sh0", "shN"):
                if v[k] is not None and 0 not in v[k].shape:
                    cx.same("normalize: " + k, getattr(r, k), v[k])
        if (s, o) != ("LINEAR", "LINEAR"):
            r = d.copy().denormalize(inplace=inplace)
            cx.same("denormalize: scales", r.scales, lin.scales if s == "PLY" else v["scales"])
            cx.same("denormalize: opacities", r.opacities, lin.opacities if o == "PLY" else v["opacities"])
            for k in ("means", "sh0", "shN"):
                if v[k] is not None and 0 not in v[k].shape:
                    cx.same("denormalize: " + k, getattr(r, k), v[k])
    cx.observe("m", d.means)


def h_auto(cx, n, case, entry):
    gs, np = cx.gs, cx.np
    sr, orr = {"neg": (-50.0, -1e-30), "lin": (1e-30, 9.5), "big": (10.5, 1e30), "zero": (0.0, 0.0), "any": (None, None)}, \
        {"in": (0.0, 1.0), "above": (1.0000001, 1e30), "below": (-1e30, -1e-30), "any": (None, None)}
    a, b = case
    f = fields(cx, n, 0, ranges={"scales": sr[a], "opacities": orr[b], "means": (0.0, 0.0), "quats": (1.0, 1.0), "sh0": (0.0, 0.0)})
    if entry == "from_arrays":
        d = gs.GSData.from_arrays(**f)
    elif entry == "from_dict":
        d = gs.GSData.from_dict(f, format="auto")
    elif entry == "constructor":
        d = gs.GSData(**f)
    elif entry == "file":
        # raw arrays are written according to the detected format
        p, q = cx.path("a.ply"), cx.path("b.ply")
        gs.plywrite(p, f["means"], f["scales"], f["quats"], f["opacities"], f["sh0"])
        gs.GSData.from_arrays(**f).save(q)
        cx.same_items("raw arrays saved like the detected format", cx.read(p), cx.read(q))
        return
    t = tags(d)
    if n == 0 or a in ("neg", "big"):
        cx.check("scales are logs", t["scales"] == "SCALES_PLY")
    elif a == "lin":
        cx.check("scales are linear", t["scales"] == "SCALES_LINEAR")
    if n == 0 or b in ("above", "below"):
        cx.check("opacities are logits", t["opacities"] == "OPACITIES_PLY")
    elif b == "in":
        cx.check("opacities are linear", t["opacities"] == "OPACITIES_LINEAR")
    cx.check("others", (t["sh0"], t["sh_order"], t["means"], t["quats"]) == ("SH0_SH", "SH_ORDER_0", "MEANS_RAW", "QUATS_RAW"))
    cx.observe("s", d.scales)


def harnesses(tier):
    th = tier != "quick"
    out = [H("reject", h_reject, {}, witnesses=1)]
    o_ = {"abs": 1e-6, "rel": 1e-5}
    for preset in KINDS:
        for c in ("SH0_SH", "SH0_RGB"):
            for deg in BANDS:
                for entry in ("from_arrays", "from_dict", "preset"):
                    if not th and entry == "from_dict" and deg not in (0, 3):
                        continue
                    out.append(H(f"preset[{preset},{c},deg={deg},{entry}]", h_preset, dict(n=(deg + 1) % 3, deg=deg, preset=preset, c=c, entry=entry), witnesses=1))
    i = 0
    for first in OPS:
        for s in ("PLY", "LINEAR"):
            for o in ("PLY", "LINEAR"):
                for c in ("SH0_SH", "SH0_RGB"):
                    prov = ("fresh", "consolidated", "stepped")[i % 3]
                    i += 1
                    deg = (0, 1, 2, 3)[(i // 2) % 4]
                    out.append(H(f"hist[{first},{s},{o},{c},{prov}]", h_hist, dict(n=1, deg=deg, s=s, o=o, c=c, prov=prov, first=first, length=3 if th else 2),
                                 witnesses=1, obs=o_, paths=30000))
    if not th:
        # length 3 from one start
        for first in OPS:
            out.append(H(f"hist3[{first}]", h_hist, dict(n=1, deg=0, s="PLY", o="LINEAR", c="SH0_RGB", prov="fresh", first=first, length=3), witnesses=1, obs=o_, paths=3000))
    for s in ("PLY", "LINEAR"):
        for o in ("PLY", "LINEAR"):
            for prov in ("fresh", "consolidated", "stepped", "fortran", "flipped"):
                for deg in (0, 3) if not th else (0, 1, 2, 3):
                    out.append(H(f"convert[{s},{o},{prov},deg={deg}]", h_convert, dict(n=2, deg=deg, s=s, o=o, prov=prov), witnesses=1, obs=o_))
            for c in ("SH0_SH", "SH0_RGB"):
                for prov in ("fresh", "consolidated") if not th else ("fresh", "consolidated", "read", "stepped", "strided", "fortran", "flipped"):
                    for compressed in (False, True):
                        for deg in (1,) if not th else (0, 1, 2, 3):
                            out.append(H(f"save[{s},{o},{c},{prov},deg={deg},{'compressed' if compressed else 'plain'}]", h_save,
                                         dict(n=2, deg=deg, s=s, o=o, c=c, prov=prov, compressed=compressed), witnesses=1, obs=o_))
    for n in (0, 1, 2, 3, 5) if th else (0, 1, 2):
        for a in ("neg", "lin", "big"):
            for b in ("in", "above", "below"):
                for entry in ("from_arrays", "from_dict", "constructor") if n == 1 or th else ("from_arrays",):
                    out.append(H(f"auto[n={n},{a},{b},{entry}]", h_auto, dict(n=n, case=(a, b), entry=entry), mode="fp", witnesses=1))
    for n in (0, 1, 2, 3) if th else (0, 1, 2):
        out.append(H(f"auto file[n={n}]", h_auto, dict(n=n, case=("any", "any"), entry="file"), mode="fp", witnesses=1, obs=o_))
    return out
