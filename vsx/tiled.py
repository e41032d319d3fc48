"""Builders of symbolic Tiled documents (both formats) with their expected results.

Every builder takes `fmt` ("json" or "xml") and `rich`: the set of fields that are
unknown and, where the format allows it, optional (True: all of them)."""
import z3

from . import core, env
from .core import SymInt, SymBytes, SList, SDict, SymUnion, conj, neg, mkunion
from .spec import (
    Leaf, Opt, Node, Obj, Tup, ListX, MapX, Alt, EMPTY, ANY, Strict, X,
    const, exp, present, leaf, jobj, xel, merge_x,
)
from .text import mk, Ch, IntTxt, B64, Packed, parts_of

U32 = 2 ** 32 - 1


class Fields:
    """Collects the stored fields of one object."""

    def __init__(self, g, n, fmt, rich):
        self.g, self.n, self.fmt, self.rich = g, n, fmt, rich
        self.ents = []
        self.kids = []
        self.text = None

    def on(self, key):
        if self.g.paired and key in ("start", "size"):
            return False  # kept by one format only
        return self.rich is True or key in self.rich

    def leaf(self, key, kind, **k):
        return getattr(self.g, kind)("%s.%s" % (self.n, key), **k)

    def req(self, key, kind, default, jkey=None, xkey=None, **k):
        """Required in both formats."""
        lf = self.leaf(key, kind, **k) if self.on(key) else const(default)
        self.ents.append((key, lf))
        return lf

    def opt(self, key, kind, default=None, need_json=None, need_xml=None, **k):
        """Optional; need_json/need_xml: value stored there when not rich."""
        need = need_json if self.fmt == "json" else need_xml
        if self.g.paired and (need_json is not None or need_xml is not None):
            return self.both(key, kind, default, need_json, need_xml, **k)
        if self.on(key):
            lf = self.leaf(key, kind, **k)
            if need is None:
                lf = Opt(z3.Bool("%s.%s?" % (self.n, key)), lf)
        elif need is not None:
            lf = const(need)
        else:
            return default
        self.ents.append((key, lf))
        return exp(lf, default)

    def both(self, key, kind, default, need_json, need_xml, **k):
        """One format always stores the field: make the two agree."""
        if not self.on(key):
            lf = const(need_json if need_json is not None else need_xml)
        else:
            lf = self.leaf(key, kind, **k)
            if need_json is None or need_xml is None and default is not None:
                p = z3.Bool("%s.%s?" % (self.n, key))
                if need_json is None:
                    p = True
                else:
                    c = core.eq(lf.exp, default)
                    self.g.add(z3.Or(p, c))
                if self.fmt == "xml" and need_xml is None:
                    lf = Opt(p, lf)
        self.ents.append((key, lf))
        return exp(lf, default)

    def put(self, key, lf):
        if lf is not None:
            self.ents.append((key, lf))

    def kid(self, node):
        if node is not None:
            self.kids.append(node)

    def node(self, tag, x):
        if self.fmt == "json":
            return Node(json=jobj(*self.ents), exp=x)
        return Node(xml=xel(tag, *self.ents, text=self.text, kids=self.kids), exp=x)


def pair(cls, a, b):
    return Tup(cls, a, b)


# ----------------------------------------------------------------- properties
def props(g, n, fmt, kinds, names=None, optional=True, legacy=False):
    """(file part, expectation).  kinds: list of property kinds."""
    if kinds is None:
        return None, EMPTY
    n = n + ".props"
    items, ents, lvs = [], [], []
    p = z3.Bool(n + "?") if optional else True
    for i, kind in enumerate(kinds):
        nm = "%s.%d" % (n, i)
        if names == "sym":
            name = g.str(nm + ".name", lo=1, hi=3)
        else:
            name = const("%s %d" % (kind, i) if not legacy else "%s%d" % (kind, i))
        lvs.append(name)
        xtype = None
        if kind == "str":
            v, ty = g.str(nm), "string"
        elif kind == "str0":  # TMX without a type attribute
            v, ty = g.str(nm), "string"
        elif kind in ("mstr", "tstr"):
            v, ty = g.str(nm, lo=1), "string"
        elif kind == "int":
            v, ty = g.int(nm), "int"
        elif kind == "object":
            v, ty = g.int(nm, 0, 2 ** 31), "object"
        elif kind == "float":
            v, ty = g.real(nm), "float"
        elif kind == "bool":
            v, ty = g.pbool(nm), "bool"
        elif kind == "file":
            v, ty = g.path([g.seg(nm + ".d"), "..", mk(list(parts_of(g.seg(nm + ".f"))) + [".txt"])]), "file"
        elif kind == "color":
            v, ty = g.color(nm), "color"
        elif kind == "acolor":
            v, ty = g.color(nm, alpha=True), "color"
        else:
            raise KeyError(kind)
        ents.append((name.exp, v.exp, p))
        if fmt == "json":
            if legacy:
                items.append((name.json, v.json))
            else:
                items.append(jobj(("name", name), ("type", const(ty)), ("value", v)))
        else:
            at = [("name", name)]
            if ty != "string" or kind in ("str", "tstr"):
                at.append(("type", const(ty)))
            if kind in ("mstr", "tstr"):
                items.append(xel("property", *at, text=v.xml))
            else:
                items.append(xel("property", *at, ("value", v)))
    if names == "sym":
        g.distinct(*lvs)
    x = MapX(ents, strict=True)
    if fmt == "json":
        if legacy:
            part = SDict([[k, v, True] for k, v in items])
        else:
            part = SList(items)
        part = Leaf(part, None, None)
    else:
        part = Node(xml=xel("properties", kids=items))
    return (Opt(p, part) if optional else part), x


def put_props(f, g, n, fmt, kinds, **k):
    part, x = props(g, n, fmt, kinds, **k)
    if part is not None:
        if fmt == "json":
            f.put("properties", part)
        else:
            f.kid(part)
    return x


# -------------------------------------------------------------------- objects
OBJ_CLASS = {"rect": "Rectangle", "ellipse": "Ellipse", "point": "Point", "polygon": "Polygon",
             "polyline": "Polyline", "text": "Text", "tile": "Tile"}


def class_of(f, spelling, default=""):
    """'type' / 'class' spellings, class winning."""
    x = default
    if spelling in ("type", "both"):
        lf = f.leaf("type", "str")
        f.put("type", Opt(z3.Bool(f.n + ".type?"), lf))
        x = exp(Opt(z3.Bool(f.n + ".type?"), lf), x)
    if spelling in ("class", "both"):
        lf = f.leaf("class", "str")
        f.put("class", Opt(z3.Bool(f.n + ".class?"), lf))
        x = exp(Opt(z3.Bool(f.n + ".class?"), lf), x)
    return x


def points(g, n, fmt, count):
    js, xs, es = SList(), [], []
    for i in range(count):
        a, b = g.real("%s.p%d.x" % (n, i)), g.real("%s.p%d.y" % (n, i))
        js.append(jobj(("x", a), ("y", b)))
        if i:
            xs.append(" ")
        xs.extend(list(parts_of(a.xml)) + [","] + list(parts_of(b.xml)))
        es.append(Tup("OrderedPair", a.exp, b.exp))
    return Leaf(js, mk(xs), ListX(es))


def text_part(g, n, fmt, rich):
    """(file part, expected Text attributes)."""
    f = Fields(g, n + ".text", fmt, rich)
    tx = f.leaf("text", "str") if f.on("text") else const("hi")
    x = dict(text=tx.exp)
    if fmt == "json":
        f.put("text", tx)
    else:
        s = tx.xml
        if isinstance(s, str) and not isinstance(s, core.Sym):
            f.text = s or None
        else:
            c = core.eq(s, "")
            f.text = mkunion([(c, None), (neg(c), s)]) if not isinstance(c, bool) else s
    if f.on("color"):
        lf = Opt(z3.Bool(f.n + ".color?"), g.color(f.n + ".color", alpha=f.on("alpha")))
        f.put("color", lf)
        x["color"] = exp(lf, Tup("Color", 255, 255, 255, 255))
    else:
        x["color"] = Tup("Color", 255, 255, 255, 255)
    x["font_family"] = f.opt("fontfamily", "str", "sans-serif")
    x["font_size"] = f.opt("pixelsize", "real", 16, lo=0)
    for k, a, d in (("bold", "bold", False), ("italic", "italic", False),
                    ("kerning", "kerning", True), ("strikeout", "strike_out", False),
                    ("underline", "underline", False), ("wrap", "wrap", False)):
        x[a] = f.opt(k, "bool", d)
    x["horizontal_align"] = f.opt("halign", "str", "left")
    x["vertical_align"] = f.opt("valign", "str", "top")
    nd = f.node("text", None)
    return nd, x


def shape_part(f, g, n, fmt, kind, npoints, rich):
    """Adds the shape's own fields; returns the expected ones."""
    x = {}
    if kind in ("ellipse", "point"):
        if fmt == "json":
            f.put(kind, const(True))
        else:
            f.kid(xel(kind))
    elif kind in ("polygon", "polyline"):
        pts = points(g, n, fmt, npoints)
        if fmt == "json":
            f.put(kind, pts)
        else:
            f.kid(xel(kind, ("points", pts)))
        x["points"] = pts.exp
    elif kind == "text":
        nd, tx = text_part(g, n, fmt, rich if rich is True else {
            r[5:] for r in rich if r.startswith("text.")})
        if fmt == "json":
            f.put("text", Leaf(nd.json, None, None))
        else:
            f.kid(nd)
        x.update(tx)
    return x


def obj(g, n, fmt, kind="rect", rich=(), pk=None, spelling=None, npoints=3, gid=None,
        oid=None, pkw={}):
    f = Fields(g, n, fmt, rich)
    i = oid if oid is not None else f.leaf("id", "int", lo=0) if f.on("id") else const(1)
    f.put("id", i)
    x_, y_ = f.req("x", "real", 1.5), f.req("y", "real", 2)
    name = f.opt("name", "str", "", need_json="o")
    if not f.on("name") and fmt == "json":
        name = "o"
    w = f.opt("width", "real", 0, need_json=0)
    h = f.opt("height", "real", 0, need_json=0)
    rot = f.opt("rotation", "real", 0, need_json=0)
    vis = f.opt("visible", "bool", True, need_json=True)
    cls = class_of(f, spelling)
    x = dict(id=i.exp, coordinates=Tup("OrderedPair", x_.exp, y_.exp), size=Tup("Size", w, h),
             rotation=rot, visible=vis, name=name, class_=cls)
    if kind == "tile":
        gd = gid if gid is not None else f.leaf("gid", "int", lo=1, hi=U32)
        f.put("gid", gd)
        x["gid"] = gd.exp
    x["properties"] = put_props(f, g, n, fmt, pk, **pkw)
    x.update(shape_part(f, g, n, fmt, kind, npoints, rich))
    return f.node("object", Obj(OBJ_CLASS[kind], **x))


# --------------------------------------------------------------------- layers
def common(f, g, n, fmt, rich, pk, pkw):
    i = f.opt("id", "int", None, lo=0)
    name = f.opt("name", "str", "", need_json="L")
    if not f.on("name") and fmt == "json":
        name = "L"
    op = f.opt("opacity", "real", 1, need_json=1, lo=-2, hi=2)
    vis = f.opt("visible", "bool", True, need_json=True)
    cls = f.opt("class", "str", None)
    ox, oy = f.opt("offsetx", "real", 0), f.opt("offsety", "real", 0)
    px, py = f.opt("parallaxx", "real", 1), f.opt("parallaxy", "real", 1)
    rx, ry = f.opt("repeatx", "bool", False), f.opt("repeaty", "bool", False)
    tint = None
    if f.on("tintcolor"):
        lf = Opt(z3.Bool(n + ".tint?"), g.color(n + ".tint", alpha=f.on("alpha")))
        f.put("tintcolor", lf)
        tint = exp(lf, None)
    sx = sy = 0
    if fmt == "json" and f.on("start"):
        p = z3.Bool(n + ".start?")
        a, b = Opt(p, f.leaf("startx", "int")), Opt(p, f.leaf("starty", "int"))
        f.put("startx", a)
        f.put("starty", b)
        sx, sy = exp(a, 0), exp(b, 0)
    return dict(id=i, name=name, opacity=op, visible=vis, class_=cls,
                offset=Tup("OrderedPair", ox, oy), parallax_factor=Tup("OrderedPair", px, py),
                repeat_x=rx, repeat_y=ry, tint_color=tint,
                coordinates=Tup("OrderedPair", sx, sy),
                properties=put_props(f, g, n, fmt, pk, **pkw))


def sized(f, g, n, fmt, rich):
    """Optional stored size of a non-tile layer (JSON only)."""
    if fmt == "json" and f.on("size"):
        p = z3.Bool(n + ".size?")
        a = Opt(p, f.leaf("width", "int", lo=0))
        b = Opt(p, f.leaf("height", "int", lo=0))
        f.put("width", a)
        f.put("height", b)
        return merge_x(p, Tup("Size", a.leaf.exp, b.leaf.exp), None)
    return ANY


def payload(g, n, count, sparse=None):
    """`count` little-endian words: (SymBytes, expected ids).  sparse: only every
    sparse-th word is unknown."""
    bs, ids = [], []
    for i in range(count):
        if sparse and i % sparse:
            v = (i * 2654435761) % 2 ** 32 if i % 3 else i % 7
            bs.extend(v.to_bytes(4, "little"))
            ids.append(v)
            continue
        w = [g.int("%s.b%d" % (n, 4 * i + j), 0, 255).exp for j in range(4)]
        bs.extend(w)
        ids.append(SymInt(core.simp(w[0].e + 256 * w[1].e + 65536 * w[2].e + 16777216 * w[3].e)))
    return SymBytes(bs), ids


def cells(g, n, w, h, enc, style="tiled", sparse=None):
    """(json value, xml text, encoding, compression, expected rows)."""
    count = w * h
    if g.paired:
        pl, ids = payload(g, n, count, sparse)
    if enc in ("b64", "zlib", "gzip", "zstd"):
        if not g.paired:
            pl, ids = payload(g, n, count, sparse)
        body = pl if enc == "b64" else Packed(enc, pl)
        t = [B64(body)]
        if style == "tiled":
            x = mk(["\n   "] + t + ["\n  "])
        else:
            x = mk(t)
        j = mk(t)
        rows = ids
    else:
        if g.paired:
            lv = [const(v) if type(v) is int else Leaf(v, mk([IntTxt(v.e)]), v) for v in ids]
        else:
            lv = [const(i % 1000) if sparse and i % sparse else g.int("%s.c%d" % (n, i), 0, U32)
                  for i in range(count)]
        rows = [l.exp for l in lv]
        j = SList([l.json for l in lv])
        parts = []
        # "odd": blanks around the numbers, the first seven of them unknown
        # ("odd end": the last seven)
        spots = count + (count + 1) // 2
        spot = 0

        def blank():
            nonlocal spot
            spot += 1
            if spot <= 7 if style == "odd" else spot > spots - 7:
                parts.append(Ch(ws_var("%s.ws%d" % (n, spot)), frozenset(b" \t\n\r")))
            else:
                parts.append(" \t\n\r"[spot % 4])
        odd = style.startswith("odd")
        if style == "tiled":
            parts.append("\n")
        for i, l in enumerate(lv):
            if i:
                parts.append(",")
                if style == "tiled" and i % w == 0:
                    parts.append("\n")
            if odd:
                blank()
            parts.extend(parts_of(l.xml))
            if odd and i % 2 == 0:
                blank()
        if style == "tiled":
            parts.append("\n")
        x = mk(parts)
    grid = ListX([ListX(rows[r * w:(r + 1) * w]) for r in range(h)])
    return j, x, grid


def ws_var(name):
    v = z3.Int(name)
    core.E.add(z3.Or(*[v == ord(c) for c in " \t\n\r"]))
    return v


def tile_layer(g, n, fmt, w=2, h=2, enc="plain", style="tiled", rich=(), pk=None, chunks=None,
               pkw={}, compression="same", tag="layer", size=None, sparse=None):
    """chunks: list of (w, h) for an infinite map's layer."""
    f = Fields(g, n, fmt, rich)
    if fmt == "json":
        f.put("type", const("tilelayer"))
    x = common(f, g, n, fmt, rich, pk, pkw)
    if size is None:
        size = (const(w), const(h))
    f.put("width", size[0])
    f.put("height", size[1])
    x["size"] = Tup("Size", size[0].exp, size[1].exp)
    comp = {"zlib": "zlib", "gzip": "gzip", "zstd": "zstd"}.get(enc, "")
    encoding = "base64" if enc in ("b64", "zlib", "gzip", "zstd") else "csv"
    if compression != "same":
        comp = compression
    cx, cj = [], SList()
    if chunks is not None:
        for k, (cw, ch) in enumerate(chunks):
            m = "%s.k%d" % (n, k)
            a, b = g.int(m + ".x"), g.int(m + ".y")
            j, t, grid = cells(g, m, cw, ch, enc, style)
            at = [("x", a), ("y", b), ("width", const(cw)), ("height", const(ch))]
            cj.append(jobj(*at, ("data", Leaf(j, None, None))))
            cx.append(xel("chunk", *at, text=t))
            x.setdefault("chunks", []).append(Obj(
                "Chunk", coordinates=Tup("OrderedPair", a.exp, b.exp),
                size=Tup("Size", cw, ch), data=grid))
        x["chunks"] = ListX(x["chunks"]) if "chunks" in x else EMPTY
        x["data"] = None
        j = t = None
    else:
        j, t, grid = cells(g, n, w, h, enc, style, sparse)
        x["data"] = grid
        x["chunks"] = EMPTY
    if fmt == "json":
        if enc != "plain":
            f.put("encoding", const(encoding))
            if encoding == "base64" and comp is not None:
                f.put("compression", const(comp))
        if chunks is None:
            f.put("data", Leaf(j, None, None))
        else:
            f.put("chunks", Leaf(cj, None, None))
    else:
        at = [("encoding", const(encoding))]
        if comp:
            at.append(("compression", const(comp)))
        f.kid(xel("data", *at, text=t, kids=cx))
    return f.node("layer", Obj("TileLayer", **x))


def object_layer(g, n, fmt, objects=(), rich=(), pk=None, pkw={}):
    f = Fields(g, n, fmt, rich)
    if fmt == "json":
        f.put("type", const("objectgroup"))
    x = common(f, g, n, fmt, rich, pk, pkw)
    x["size"] = sized(f, g, n, fmt, rich)
    x["draw_order"] = f.opt("draworder", "str", "topdown", need_json="topdown")
    x["tiled_objects"] = ListX([o.exp for o in objects])
    if fmt == "json":
        f.put("objects", Leaf(SList([o.json for o in objects]), None, None))
    else:
        for o in objects:
            f.kid(o)
    return f.node("objectgroup", Obj("ObjectLayer", **x))


def image_layer(g, n, fmt, rich=(), pk=None, pkw={}):
    f = Fields(g, n, fmt, rich)
    if fmt == "json":
        f.put("type", const("imagelayer"))
    x = common(f, g, n, fmt, rich, pk, pkw)
    x["size"] = sized(f, g, n, fmt, rich)
    img = g.path([g.seg(n + ".dir"), mk(list(parts_of(g.seg(n + ".img"))) + [".png"])]) \
        if f.on("image") else g.path(["i.png"])
    x["image"] = img.exp
    x["transparent_color"] = None
    tr = None
    if f.on("trans"):
        tr = Opt(z3.Bool(n + ".trans?"), g.color(n + ".trans"))
        x["transparent_color"] = exp(tr, None)
    if fmt == "json":
        f.put("image", img)
        f.put("transparentcolor", tr)
    else:
        f.kid(xel("image", ("source", img), ("trans", tr)))
    return f.node("imagelayer", Obj("ImageLayer", **x))


def group(g, n, fmt, layers=(), rich=(), pk=None, pkw={}):
    f = Fields(g, n, fmt, rich)
    if fmt == "json":
        f.put("type", const("group"))
    x = common(f, g, n, fmt, rich, pk, pkw)
    x["size"] = sized(f, g, n, fmt, rich)
    x["layers"] = ListX([l.exp for l in layers]) if layers else EMPTY
    if fmt == "json":
        f.put("layers", Leaf(SList([l.json for l in layers]), None, None))
    else:
        for l in layers:
            f.kid(l)
    return f.node("group", Obj("LayerGroup", **x))


# ------------------------------------------------------------------- wang sets
def wang_color(g, n, fmt, rich=(), pk=None, pkw={}):
    f = Fields(g, n, fmt, rich)
    name = f.req("name", "str", "wc")
    col = g.color(n + ".color", alpha=f.on("alpha")) if f.on("color") else Leaf(
        "#ff0000", "#ff0000", Tup("Color", 255, 0, 0, 255))
    f.put("color", col)
    tile = f.req("tile", "int", -1, lo=-1)
    prob = f.req("probability", "real", 1.0, lo=0)
    cls = f.opt("class", "str", None)
    p = put_props(f, g, n, fmt, pk, **pkw)
    return f.node("wangcolor", Obj("WangColor", name=name.exp, color=col.exp, tile=tile.exp,
                                   probability=prob.exp, class_=cls, properties=p))


def wang_set(g, n, fmt, colors=(), ntiles=1, rich=(), pk=None, pkw={}, sep=","):
    f = Fields(g, n, fmt, rich)
    name = f.req("name", "str", "ws")
    ty = f.req("type", "str", "corner")
    tile = f.req("tile", "int", -1, lo=-1)
    cls = f.opt("class", "str", None)
    p = put_props(f, g, n, fmt, pk, **pkw)
    ids, tj, tx, ents = [], SList(), [], []
    for i in range(ntiles):
        if f.on("tiles"):
            tid = g.int("%s.t%d" % (n, i), 0, 2 ** 30)
            ids.append(tid)
            cs = [g.int("%s.t%d.%d" % (n, i, k), 0, 255) for k in range(8)]
        else:
            tid, cs = const(i), [const(k % 3) for k in range(8)]
        xs = []
        for k, c in enumerate(cs):
            if k:
                xs.append(sep)
            xs.extend(parts_of(c.xml))
        tj.append(jobj(("tileid", tid), ("wangid", Leaf(SList([c.json for c in cs]), None, None))))
        tx.append(xel("wangtile", ("tileid", tid), ("wangid", Leaf(None, mk(xs), None))))
        ents.append((tid.exp, Obj("WangTile", tile_id=tid.exp, wang_id=ListX([c.exp for c in cs])), True))
    if len(ids) > 1:
        g.distinct(*ids)
    if fmt == "json":
        f.put("colors", Leaf(SList([c.json for c in colors]), None, None))
        f.put("wangtiles", Leaf(tj, None, None))
    else:
        for c in colors:
            f.kid(c)
        for t in tx:
            f.kid(t)
    return f.node("wangset", Obj("WangSet", name=name.exp, tile=tile.exp, wang_type=ty.exp,
                                 class_=cls, properties=p,
                                 wang_colors=ListX([c.exp for c in colors]),
                                 wang_tiles=MapX(ents)))


# -------------------------------------------------------------------- tilesets
def image_leaf(g, n, shape, base):
    """shape: literal segments, 'S' for an unknown one, 'S.png' for an unknown name."""
    segs, absolute = [], False
    for i, s in enumerate(shape):
        if s == "/":
            absolute = True
        elif s == "S":
            segs.append(g.seg("%s.s%d" % (n, i)))
        elif s.startswith("S."):
            segs.append(mk(list(parts_of(g.seg("%s.s%d" % (n, i)))) + [s[1:]]))
        else:
            segs.append(s)
    return g.path(segs, base, absolute)


def tile_def(g, n, fmt, tid, rich=(), pk=None, frames=None, collision=None, base=None,
             image=None, spelling=None, legacy=False, pkw={}):
    f = Fields(g, n, fmt, rich)
    if not legacy:
        f.put("id", tid)
    x = dict(id=tid.exp)
    x["class_"] = class_of(f, spelling, None)
    if frames is not None:
        fj, fx, fe = SList(), [], []
        for i in range(frames):
            t, d = g.int("%s.f%d.t" % (n, i), 0), g.int("%s.f%d.d" % (n, i), 0)
            fj.append(jobj(("tileid", t), ("duration", d)))
            fx.append(xel("frame", ("tileid", t), ("duration", d)))
            fe.append(Tup("Frame", t.exp, d.exp))
        p = z3.Bool(n + ".anim?")
        x["animation"] = merge_x(p, ListX(fe), None)
        if fmt == "json":
            f.put("animation", Opt(p, Leaf(fj, None, None)))
        else:
            f.kid(Opt(p, Node(xml=xel("animation", kids=fx))))
    else:
        x["animation"] = EMPTY
    if collision is not None:
        x["objects"] = collision.exp
        if fmt == "json":
            f.put("objectgroup", Leaf(collision.json, None, None))
        else:
            f.kid(collision)
    else:
        x["objects"] = None
    x["properties"] = put_props(f, g, n, fmt, pk, **pkw)
    w = h = 0
    x.update(image=None, image_width=None, image_height=None)
    if image is not None:
        p = z3.Bool(n + ".image?")
        img = image_leaf(g, n, image, base)
        iw, ih = g.int(n + ".iw", 0), g.int(n + ".ih", 0)
        for k, lf in (("image", img), ("image_width", iw), ("image_height", ih)):
            x[k] = exp(Opt(p, lf), None)
        w, h = exp(Opt(p, iw), 0), exp(Opt(p, ih), 0)
        if fmt == "json":
            f.put("image", Opt(p, img))
            f.put("imagewidth", Opt(p, iw))
            f.put("imageheight", Opt(p, ih))
        else:
            f.kid(Opt(p, Node(xml=xel("image", ("source", img), ("width", iw), ("height", ih)))))
    x["x"], x["y"] = f.opt("x", "int", 0), f.opt("y", "int", 0)
    x["width"], x["height"] = f.opt("width", "int", w), f.opt("height", "int", h)
    return f.node("tile", Obj("Tile", **x))


def tileset(g, n, fmt, rich=(), firstgid=None, base=None, image=None, tiles=(), wangs=None,
            pk=None, pkw={}, legacy=False, name=None, count=None, embedded=False, source=None,
            version="str", hash_trans=True):
    """firstgid: leaf of the first gid the result must carry; base: directory segments
    of an external file (None for embedded / standalone)."""
    f = Fields(g, n, fmt, rich)
    x = {}
    if firstgid is None:
        firstgid = const(1)
    x["firstgid"] = firstgid.exp
    if embedded:
        f.put("firstgid", firstgid)
    nm = name if name is not None else f.leaf("name", "str") if f.on("name") else const("ts")
    f.put("name", nm)
    x["name"] = nm.exp
    tc = count if count is not None else f.leaf("tilecount", "int", lo=0) if f.on("tilecount") else const(4)
    f.put("tilecount", tc)
    x["tile_count"] = tc.exp
    x["tile_width"] = f.req("tilewidth", "int", 16, lo=0).exp
    x["tile_height"] = f.req("tileheight", "int", 16, lo=0).exp
    if fmt == "json" and not g.paired:
        x["columns"] = f.opt("columns", "int", 1, lo=0)
        if not f.on("columns"):
            x["columns"] = 1
    else:
        x["columns"] = f.req("columns", "int", 2, lo=0).exp
    x["spacing"] = f.opt("spacing", "int", 0, need_json=0)
    x["margin"] = f.opt("margin", "int", 0, need_json=0)
    if version == "float" and fmt == "json":
        # legacy: a JSON number; returned as text
        x["version"] = None
        f.put("version", Leaf(1.5, None, "1.5"))
        x["version"] = "1.5"
    else:
        x["version"] = f.opt("version", "str", None)
    x["tiled_version"] = f.opt("tiledversion", "str", None)
    x["class_"] = f.opt("class", "str", None)
    x["alignment"] = f.opt("objectalignment", "str", None)
    x["tile_render_size"] = f.opt("tilerendersize", "str", "tile")
    x["fill_mode"] = f.opt("fillmode", "str", "stretch")
    if f.on("backgroundcolor"):
        c = Opt(z3.Bool(n + ".bg?"), g.color(n + ".bg", alpha=f.on("alpha")))
        f.put("backgroundcolor", c)
        x["background_color"] = exp(c, None)
    else:
        x["background_color"] = None
    x.update(image=None, image_width=None, image_height=None, transparent_color=None)
    if image is not None:
        p = z3.Bool(n + ".image?")
        img = image_leaf(g, n + ".image", image, base)
        iw, ih = g.int(n + ".iw", 0), g.int(n + ".ih", 0)
        for k, lf in (("image", img), ("image_width", iw), ("image_height", ih)):
            x[k] = exp(Opt(p, lf), None)
        tr = None
        if f.on("transparentcolor"):
            q = z3.Bool(n + ".tr?")
            tr = g.color(n + ".tr", hash_=hash_trans if fmt == "xml" else True)
            x["transparent_color"] = merge_x(z3.And(p, q), tr.exp, None)
            if fmt == "json":
                f.put("transparentcolor", Opt(z3.And(p, q), tr))
            tr = Opt(q, tr)
        if fmt == "json":
            f.put("image", Opt(p, img))
            f.put("imagewidth", Opt(p, iw))
            f.put("imageheight", Opt(p, ih))
        else:
            f.kid(Opt(p, Node(xml=xel("image", ("source", img), ("trans", tr), ("width", iw),
                                      ("height", ih)))))
    for key, attr, parts, cls in (
        ("tileoffset", "tile_offset", (("x", "int"), ("y", "int")), "OrderedPair"),
        ("grid", "grid", (("orientation", "str"), ("width", "int"), ("height", "int")), "Grid"),
        ("transformations", "transformations",
         (("hflip", "bool"), ("vflip", "bool"), ("rotate", "bool"), ("preferuntransformed", "bool")), None),
    ):
        if not f.on(key):
            x[attr] = None
            continue
        p = z3.Bool("%s.%s?" % (n, key))
        lv = [(k, getattr(g, kind)("%s.%s.%s" % (n, key, k))) for k, kind in parts]
        if cls:
            e = Tup(cls, *[l.exp for _, l in lv])
        else:
            e = Obj("Transformations", hflip=lv[0][1].exp, vflip=lv[1][1].exp,
                    rotate=lv[2][1].exp, prefer_untransformed=lv[3][1].exp)
        x[attr] = merge_x(p, e, None)
        if fmt == "json":
            f.put(key, Opt(p, Leaf(jobj(*lv), None, None)))
        else:
            f.kid(Opt(p, Node(xml=xel(key, *lv))))
    x["properties"] = put_props(f, g, n, fmt, pk, **pkw)
    if tiles:
        x["tiles"] = MapX([(t.exp.f["id"], t.exp, True) for t in tiles])
        if fmt == "json":
            if legacy:
                d = SDict([[text_of(t.exp.f["id"]), t.json, True] for t in tiles])
                f.put("tiles", Leaf(d, None, None))
            else:
                f.put("tiles", Leaf(SList([t.json for t in tiles]), None, None))
        else:
            for t in tiles:
                f.kid(t)
    else:
        x["tiles"] = EMPTY
    if wangs is not None:
        x["wang_sets"] = ListX([w.exp for w in wangs]) if wangs else EMPTY
        if fmt == "json":
            f.put("wangsets", Leaf(SList([w.json for w in wangs]), None, None))
        else:
            f.kid(xel("wangsets", kids=list(wangs)))
    else:
        x["wang_sets"] = EMPTY
    return f.node("tileset", Obj("Tileset", **x))


def text_of(v):
    return str(v) if type(v) is int else mk([IntTxt(v.e)])


def tileset_ref(g, fmt, firstgid, source):
    """Entry of a map's tileset list that names a file."""
    ents = [("firstgid", firstgid), ("source", source)]
    if fmt == "json":
        return Node(json=jobj(*ents))
    return Node(xml=xel("tileset", *ents))


# ------------------------------------------------------------------------ maps
def tiled_map(g, n, fmt, path, layers=(), tilesets=(), rich=(), pk=None, pkw={},
              version="str", infinite=False, extra=()):
    """tilesets: list of (file node, first gid leaf, expected Tileset)."""
    f = Fields(g, n, fmt, rich)
    x = {"map_file": path}
    if fmt == "json":
        f.put("type", const("map"))
    x["infinite"] = f.opt("infinite", "bool", False, need_xml=False)
    if not f.on("infinite"):
        if infinite:
            f.ents = [e for e in f.ents if e[0] != "infinite"]
            f.put("infinite", const(True))
            x["infinite"] = True
    x["map_size"] = Tup("Size", f.req("width", "int", 2, lo=0).exp, f.req("height", "int", 2, lo=0).exp)
    x["tile_size"] = Tup("Size", f.req("tilewidth", "int", 16, lo=0).exp,
                         f.req("tileheight", "int", 16, lo=0).exp)
    x["next_layer_id"] = f.opt("nextlayerid", "int", None, need_xml=7, lo=0)
    if not f.on("nextlayerid") and fmt == "xml":
        x["next_layer_id"] = 7
    x["next_object_id"] = f.req("nextobjectid", "int", 9, lo=0).exp
    x["orientation"] = f.req("orientation", "str", "orthogonal").exp
    x["render_order"] = f.req("renderorder", "str", "right-down").exp
    x["tiled_version"] = f.opt("tiledversion", "str", "", need_xml="1.9")
    if not f.on("tiledversion") and fmt == "xml":
        x["tiled_version"] = "1.9"
    if version == "float" and fmt == "json":
        f.put("version", Leaf(1.5, None, None))
        x["version"] = "1.5"
    else:
        x["version"] = f.req("version", "str", "1.9").exp
    x["class_"] = f.opt("class", "str", None)
    x["hex_side_length"] = f.opt("hexsidelength", "int", None, lo=0)
    x["stagger_axis"] = f.opt("staggeraxis", "str", None)
    x["stagger_index"] = f.opt("staggerindex", "str", None)
    x["parallax_origin"] = Tup("OrderedPair", f.opt("parallaxoriginx", "real", 0),
                               f.opt("parallaxoriginy", "real", 0))
    x["background_color"] = None
    if f.on("backgroundcolor"):
        c = Opt(z3.Bool(n + ".bg?"), g.color(n + ".bg", alpha=f.on("alpha")))
        f.put("backgroundcolor", c)
        x["background_color"] = exp(c, None)
    x["properties"] = put_props(f, g, n, fmt, pk, **pkw)
    x["layers"] = ListX([l.exp for l in layers])
    x["tilesets"] = MapX([(fg.exp, e, True) for _, fg, e in tilesets])
    if fmt == "json":
        f.put("tilesets", Leaf(SList([t.json for t, _, _ in tilesets]), None, None))
        f.put("layers", Leaf(SList([l.json for l in layers]), None, None))
        for k, v in extra:
            f.put(k, v)
    else:
        for t, _, _ in tilesets:
            f.kid(t)
        for l in layers:
            f.kid(l)
        for k in extra:
            f.kid(k)
    return f.node("map", Obj("TiledMap", **x))


def template(g, fmt, object_node, tileset_part=None):
    """Template document: object plus an optional tileset reference."""
    if fmt == "json":
        ents = [("type", const("template")), ("object", Leaf(object_node.json, None, None))]
        if tileset_part is not None:
            ents.insert(0, ("tileset", Leaf(tileset_part.json, None, None)))
        return Node(json=jobj(*ents))
    kids = ([tileset_part] if tileset_part is not None else []) + [object_node]
    return Node(xml=xel("template", kids=kids))
