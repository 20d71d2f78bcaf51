"""C07: readers on truncated, malformed and inconsistent files."""
from engine.driver import H
from . import plyspec as S
from .common import BANDS

BOUNDS = ("files of N<=2 (one 258) Gaussians, degrees 0-3, both formats, every payload byte symbolic; cut at any payload byte and at the "
          "header positions listed; header mutations: each listed edit at a symbolic line; array index checks on every kernel access")
OUTSIDE = "several header edits at once; declared sizes that do not fit in memory"

READERS = ("plyread", "load", "bytes")


def reader(cx, name, p):
    gs = cx.gs
    if name == "plyread":
        return lambda: gs.plyread(p)
    if name == "load":
        return lambda: gs.GSData.load(p)
    return lambda: gs.decompress_from_bytes(cx.mkbytes(cx.read(p)))


def payload_size(kind, n, deg):
    if kind == "plain":
        return n * 4 * (14 + 3 * BANDS[deg])
    return 72 * ((n + 255) // 256) + 16 * n + n * 3 * BANDS[deg]


def make(cx, kind, n, deg):
    lines = S.header(n, deg) if kind == "plain" else S.cheader(n, deg)
    return lines, cx.byte_syms("b", payload_size(kind, n, deg))


def verdict(cx, label, rd, p, n, deg):
    """n None: must be rejected"""
    k, v = cx.outcome(reader(cx, rd, p))
    if n == "declared":
        # not one of the documented layouts, but what it declares can be read
        cx.check(f"{label}: rejected or read as declared", v == "ValueError" if k == "err" else len(v) == deg[0] and v.shN.shape == (deg[0], deg[1], 3))
    elif n is None:
        cx.check(f"{label}: rejected with ValueError", k == "err" and v == "ValueError")
    else:
        cx.check(f"{label}: accepted", k == "ok")
        if k == "ok":
            cx.check(f"{label}: count", len(v) == n and v.scales.shape == (n, 3) and v.quats.shape == (n, 4)
                     and v.opacities.shape == (n,) and v.sh0.shape == (n, 3))
            cx.check(f"{label}: degree", v.get_sh_degree() == deg)
    return k, v


def h_cut(cx, kind, n, deg, rd, lo, hi):
    lines, body = make(cx, kind, n, deg)
    full = S.text(cx, lines) + body
    cut = cx.int("cut", len(full) - hi, len(full) - lo)
    items = full[:cut.__index__()]
    p = cx.path("a.ply")
    cx.write(p, items)
    verdict(cx, "cut", rd, p, n if len(items) == len(full) else None, deg)


def h_cut_header(cx, kind, n, deg, rd):
    lines, body = make(cx, kind, n, deg)
    k = cx.choice("line", list(range(len(lines))))
    how = cx.choice("how", ["before", "mid", "eol"])
    txt = S.text(cx, lines[:k]) if k else []
    last = lines[k]
    if how == "mid":
        txt = txt + cx.text(last[: max(1, len(last) // 2)])
    elif how == "eol":
        txt = txt + cx.text(last)
    p = cx.path("a.ply")
    cx.write(p, txt)
    verdict(cx, "cut header", rd, p, None, deg)


def h_line(cx, kind, n, deg, rd, edit):
    """one edit of the header at a symbolic line, the payload left alone"""
    lines, body = make(cx, kind, n, deg)
    m = list(lines)
    isp = [i for i, l in enumerate(m) if l.startswith("property")]
    ise = [i for i, l in enumerate(m) if l.startswith("element")]
    want = None
    if edit == "drop":
        k = cx.choice("k", [i for i in range(len(m)) if i > 1])
        if m[k] == "end_header":
            # the payload does not contain one either
            for b in body:
                cx.assume(cx.lnot(b == 10))
        del m[k]
    elif edit == "drop_ply":
        del m[0]
    elif edit == "drop_format":
        del m[1]
    elif edit == "format":
        m[1] = cx.choice("fmt", ["format ascii 1.0", "format binary_big_endian 1.0", "format", "format  "])
    elif edit == "rename":
        k = cx.choice("k", isp)
        m[k] = m[k] + "_"
    elif edit == "type":
        k = cx.choice("k", isp)
        t = cx.choice("t", ["double", "int", "uint", "float", "uchar", "short", "list uchar"])
        old = m[k].split()
        if t == old[1]:
            want = n
        m[k] = f"property {t} {old[2]}"
    elif edit == "swap":
        k = cx.choice("k", [i for i in isp if i + 1 in isp])
        m[k], m[k + 1] = m[k + 1], m[k]
    elif edit == "move_element":
        # an element line one or more places further on: its first properties belong to another element, or to none
        k = cx.choice("k", ise)
        by = cx.choice("by", [1, 2, 4, 8])
        line = m.pop(k)
        m.insert(min(k + by, len(m) - 1), line)
    elif edit == "split_element":
        # the last properties in an element of their own
        k = cx.choice("k", [isp[-1], isp[-2], isp[1]])
        m.insert(k, cx.choice("e", [f"element extra {n}", "element sh2 0"]))
    elif edit == "junk":
        k = cx.choice("k", [1, 2, 3, len(m) - 1])
        m.insert(k, cx.choice("j", ["junk", "Property float a", "elements 2", "propertyfloat a", "x", "format binary_little_endian 1.0",
                                    "format ascii 1.0", "ply"]))
    elif edit == "tabs":
        # white space of another kind does not hide a line
        j = cx.choice("j", ["property\tdouble a", "property \tfloat a", "element\tface 3"])
        # (coefficients left to another element in threes leave a scene with fewer bands)
        m.insert(cx.choice("k", isp if j[:1] == "p" else isp[-1:]), j)
    elif edit == "tokens":
        k = cx.choice("k", isp + ise)
        m[k] = m[k] + cx.choice("j", [" 1", " x y"])
    elif edit == "sh_count":
        k = isp[-1]
        m, by = [x for x in m if not x.startswith("property uchar")], cx.choice("by", [0, 1, 2, 3, 6, 8, 10, 12, 15, 27, 48, 3 * BANDS[deg]])
        if by == 3 * BANDS[deg]:
            want = n
        elif by % 3 == 0:
            want = "declared"       # other numbers of bands can be written and read
            decl = (n, by // 3)
        m = m[:-1] + [f"property uchar f_rest_{i}" for i in range(by)] + m[-1:]
        body = (body + body + body)[: payload_size(kind, n, 0) + n * by]
    elif edit == "dup":
        k = cx.choice("k", isp)
        m.insert(k, m[k])
    elif edit == "count":
        k = cx.choice("k", ise)
        c = cx.choice("c", ["-1", "x", "", "1e3", "3.5", "1_0", "+2", "7", "300", "100000000", str(n)])
        parts = m[k].split()
        if c == str(n) and parts[1] != "chunk":
            want = n
        m[k] = f"element {parts[1]} {c}".rstrip()
    elif edit == "chunks":
        k = ise[0]
        c = cx.choice("c", [0, 1, 2, 3, 5])
        m[k] = f"element chunk {c}"
        if c == (n + 255) // 256:
            want = n
    elif edit == "extra_first":
        m.insert(2, cx.choice("e", ["element face 2", "element camera 1"]))
        m.insert(3, cx.choice("q", ["property list uchar int vertex_index", "property float focal", "property uchar v"]))
    elif edit == "double_element":
        k = cx.choice("k", ise)
        m.insert(len(m) - 1, m[k])
    elif edit == "element_order":
        # vertex before chunk / sh before vertex
        blocks, head = [], m[:2]
        for l in m[2:-1]:
            if l.startswith("element"):
                blocks.append([])
            blocks[-1].append(l)
        perm = cx.choice("perm", [(1, 0, 2), (0, 2, 1), (2, 0, 1), (1, 2, 0), (2, 1, 0)] if len(blocks) == 3 else [(1, 0)])
        m = head + [l for b in perm for l in blocks[b]] + ["end_header"]
    p = cx.path("a.ply")
    cx.write(p, S.text(cx, m) + body)
    verdict(cx, edit, rd, p, want, decl if want == "declared" else deg)


def h_garbage(cx, n, rd):
    """n arbitrary bytes"""
    b = cx.byte_syms("b", n)
    # a file this short cannot be a scene; keep the bytes unreadable as text
    p = cx.path("a.ply")
    if n:
        cx.assume(b[0] > 127)
    for x in b:
        cx.assume(cx.lnot(x == 10))
    cx.write(p, b)
    verdict(cx, "garbage", rd, p, None, 0)


def h_binary_header(cx, kind, rd):
    lines, body = make(cx, kind, 1, 0)
    k = cx.choice("k", list(range(1, len(lines))))
    v = cx.choice("v", [128, 200, 255])
    for b in body:
        cx.assume(cx.lnot(b == 10))
    p = cx.path("a.ply")
    cx.write(p, S.text(cx, lines[:k]) + [v] + S.text(cx, lines[k:]) + body)
    verdict(cx, "non-ASCII header", rd, p, None, 0)


def h_noend(cx, rd, size):
    """a header that never ends"""
    p = cx.path("a.ply")
    lines = S.header(1, 0)[:-1]
    cx.write(p, S.text(cx, lines) + cx.text("comment x\n" * size))
    verdict(cx, "no end of header", rd, p, None, 0)


def h_missing(cx, rd):
    p = cx.path("nothing.ply")
    k, v = cx.outcome(reader(cx, rd, p))
    cx.check("missing file: error", k == "err" and v in ("ValueError", "FileNotFoundError"))


def harnesses(tier):
    out = []
    T = tier != "quick"

    def add(name, fn, **p):
        out.append(H(name, fn, p, paths=4000, witnesses=2, limit=4_000_000))
    for deg in (0, 1, 3) if not T else (0, 1, 2, 3):
        size = payload_size("plain", 1, deg)
        add(f"cut[plain,deg={deg}]", h_cut, kind="plain", n=1, deg=deg, rd="plyread", lo=0, hi=size + 3)
        csize = payload_size("comp", 2, deg)
        for rd in ("plyread", "bytes"):
            add(f"cut[comp,deg={deg},{rd}]", h_cut, kind="comp", n=2, deg=deg, rd=rd, lo=0, hi=csize + 3)
    add("cut[comp,n=258]", h_cut, kind="comp", n=258, deg=0, rd="plyread", lo=0, hi=40)
    add("cut[comp,n=258,bytes]", h_cut, kind="comp", n=258, deg=0, rd="bytes", lo=0, hi=40)
    for kind in ("plain", "comp"):
        for rd in READERS:
            if kind == "plain" and rd == "bytes":
                continue
            add(f"cut_header[{kind},{rd}]", h_cut_header, kind=kind, n=1, deg=1 if kind == "comp" else 0, rd=rd)
            for edit in ("drop", "drop_ply", "drop_format", "format", "rename", "type", "swap", "dup", "count", "chunks", "extra_first",
                         "double_element", "element_order", "move_element", "split_element", "junk", "tabs", "tokens", "sh_count"):
                if kind == "plain" and edit in ("chunks", "element_order", "sh_count"):
                    continue
                if rd == "load" and edit not in ("drop", "type", "count"):
                    continue
                add(f"{edit}[{kind},{rd}]", h_line, kind=kind, n=2 if edit != "chunks" else 258, deg=1 if kind == "comp" else 0, rd=rd, edit=edit)
    for rd in READERS:
        add(f"garbage[{rd}]", h_garbage, n=40, rd=rd)
        add(f"garbage0[{rd}]", h_garbage, n=0, rd=rd)
        add(f"noend[{rd}]", h_noend, rd=rd, size=5)
        add(f"nonascii[{rd}]", h_binary_header, kind="comp", rd=rd)
        if rd != "bytes":
            add(f"missing[{rd}]", h_missing, rd=rd)
    add("noend_long[plyread]", h_noend, rd="plyread", size=1200)
    add("nonascii[plain]", h_binary_header, kind="plain", rd="plyread")
    return out
