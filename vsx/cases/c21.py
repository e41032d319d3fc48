"""Refusals: tile data (a layer or 1-2 chunks) whose compression is any text of up to 6
(quick) / 12 (thorough) printable characters other than the ones supported, or a near
miss (other case, blanks, prefixes, other names), over payloads stored raw, zlib-, gzip-
or zstd-compressed; tile data whose
encoding is any such text or a near miss, over lists, CSV and base64; XML tile elements, each
cell given or not; zstd without its library; layers whose kind is any such text other
than the four (JSON); image layers without an image (TMX); templates in the other
format, of every shape; each alone, after other layers, before other layers, and nested
in groups up to depth 2 / 3.  With zstd's library the data is decoded.
Outside: data that is damaged rather than unsupported."""
from .base import *
from . import c15

NEAR = ("ZLIB", "Gzip", "zlib ", " gzip", "deflate", "lz4", "zst", "zstandard", "zli", "gzip2",
        "none", "base64", "csv", "lzma", "bz2", "brotli", "null", "0")
PLACES = ("alone", "last", "first", "grouped", "deep")


def place(g, fmt, where, bad, depth=2):
    ok = [T.object_layer(g, "ok", fmt, [T.obj(g, "oko", fmt)]), T.tile_layer(
        g, "okt", fmt, 1, 1, "plain" if fmt == "json" else "csv")]
    if where == "alone":
        return [bad]
    if where == "last":
        return ok + [bad]
    if where == "first":
        return [bad] + ok
    l = bad
    for k in range(1 if where == "grouped" else depth):
        l = T.group(g, "g%d" % k, fmt, [ok[k % 2], l] if where == "grouped" else [l, ok[k % 2]])
    return [l]


def refused(fmt, where, make, chunks=False, depth=2, zstd=False):
    def build(g, sc):
        bad = make(g, sc)
        p = vpath(["maps", "m." + EXT[fmt]])
        m = T.tiled_map(g, "m", fmt, p, place(g, fmt, where, bad, depth), infinite=chunks)
        sc.file(["maps", "m." + EXT[fmt]], doc(fmt, m))
        sc.call("parse_map", p, Raises())
    return build


def packed(fmt, name, payload, chunks, n=6, w=2, h=2):
    """A tile layer naming a compression there is not."""
    def make(g, sc):
        if name is None:
            lf = g.str("comp", 1, n)
            for k in ("zlib", "gzip", "zstd"):
                g.add(core.neg(core.eq(lf.exp, k)))
        else:
            lf = const(name)
        from ..text import B64, Packed
        f = T.Fields(g, "bad", fmt, ())
        if fmt == "json":
            f.put("type", const("tilelayer"))
        T.common(f, g, "bad", fmt, (), None, {})
        f.put("width", const(w))
        f.put("height", const(h))

        def text(m, count):
            pl, _ = T.payload(g, m, count)
            return mk([B64(pl if payload == "b64" else Packed(payload, pl))])

        cj, cx, t = core.SList(), [], None
        if chunks:
            for k in range(chunks):
                t = text("bad.k%d" % k, 2)
                at = [("x", const(16 * k)), ("y", const(0)), ("width", const(2)), ("height", const(1))]
                cj.append(jobj(*at, ("data", Leaf(t, None, None))))
                cx.append(xel("chunk", *at, text=t))
            t = None
        else:
            t = text("bad", w * h)
        if fmt == "json":
            f.put("encoding", const("base64"))
            f.put("compression", lf)
            f.put("chunks" if chunks else "data", Leaf(cj if chunks else t, None, None))
        else:
            f.kid(xel("data", ("encoding", const("base64")), ("compression", lf), text=t, kids=cx))
        return f.node("layer", None)
    return make


def encoded(fmt, name, kind, chunks, n=6, w=2, h=2):
    """A tile layer naming an encoding there is not; kind: what its data is."""
    def make(g, sc):
        from ..text import B64
        if name is None:
            lf = g.str("enc", 1, n)
            for k in ("csv", "base64"):
                g.add(core.neg(core.eq(lf.exp, k)))
        else:
            lf = const(name)
        f = T.Fields(g, "bad", fmt, ())
        if fmt == "json":
            f.put("type", const("tilelayer"))
        T.common(f, g, "bad", fmt, (), None, {})
        f.put("width", const(w))
        f.put("height", const(h))

        def data(m, count):
            if kind == "b64":
                return mk([B64(T.payload(g, m, count)[0])])
            ids = [g.int("%s.%d" % (m, i), 0, 2 ** 32 - 1) for i in range(count)]
            if fmt == "json" and kind == "list":
                return core.SList([i.json for i in ids])
            out = []
            for i in ids:
                out += [","] * bool(out) + list(parts_of(i.xml))
            return mk(out)

        if chunks:
            cj, cx = core.SList(), []
            for k in range(chunks):
                t = data("bad.k%d" % k, 2)
                at = [("x", const(16 * k)), ("y", const(0)), ("width", const(2)), ("height", const(1))]
                cj.append(jobj(*at, ("data", Leaf(t, None, None))))
                cx.append(xel("chunk", *at, text=t if fmt != "json" else None))
            t = None
        else:
            t, cj, cx = data("bad", w * h), None, []
        comp = g.choice("bad.comp", ["", "zlib", "gzip"])
        if fmt == "json":
            f.put("encoding", lf)
            f.put("compression", Opt(z3.Bool("bad.comp?"), comp))
            f.put("chunks" if chunks else "data", Leaf(cj if chunks else t, None, None))
        else:
            f.kid(xel("data", ("encoding", lf), ("compression", Opt(z3.Bool("bad.comp?"), comp)),
                      text=t, kids=cx))
        return f.node("layer", None)
    return make


def elements(chunks, blank, w=2, h=2):
    """TMX tile data as one element to a cell."""
    def make(g, sc):
        f = T.Fields(g, "bad", "xml", ())
        T.common(f, g, "bad", "xml", (), None, {})
        f.put("width", const(w))
        f.put("height", const(h))
        tiles = [xel("tile", ("gid", Opt(z3.Bool("bad.%d?" % i), g.int("bad.%d" % i, 0, 2 ** 32 - 1))))
                 for i in range(w * h)]
        t = "\n   " if blank else None
        if chunks:
            kids = [xel("chunk", ("x", const(0)), ("y", const(2 * k)), ("width", const(w)), ("height", const(1)),
                        text=t, kids=tiles[w * k:w * k + w]) for k in range(chunks)]
            f.kid(xel("data", text=t, kids=kids))
        else:
            f.kid(xel("data", text=t, kids=tiles))
        return f.node("layer", None)
    return make


def unknown_kind(name, n=6):
    def make(g, sc):
        if name is None:
            lf = g.str("kind", 0, n)
            for k in ("tilelayer", "objectgroup", "imagelayer", "group"):
                g.add(core.neg(core.eq(lf.exp, k)))
        else:
            lf = const(name)
        # the fields of every kind of layer, so that none is missed
        l = jobj(("type", lf), ("name", const("x")), ("id", const(9)), ("opacity", const(1)),
                 ("visible", const(True)), ("x", const(0)), ("y", const(0)),
                 ("width", const(1)), ("height", const(1)), ("data", core.SList([g.int("c", 0, 9).json])),
                 ("draworder", const("topdown")), ("objects", core.SList([])),
                 ("image", const("i.png")), ("layers", core.SList([])))
        return Node(json=l)
    return make


def no_image(rich):
    def make(g, sc):
        f = T.Fields(g, "bad", "xml", rich)
        T.common(f, g, "bad", "xml", rich, ["str"], {})
        return f.node("imagelayer", None)
    return make


def foreign(fmt, kind, over):
    """An object that names a template in the other format."""
    other = "xml" if fmt == "json" else "json"

    def make(g, sc):
        t = c15.Tpl(g, "t", other, kind, None)
        ref = c15.store(g, sc, t, "tpl")
        t.fmt = fmt
        x = c15.inst(g, "i", t, ref, over=over) if over else None
        if x is None:
            f = T.Fields(g, "i", fmt, ())
            for k, lf in (("id", g.int("i.id", 0)), ("template", ref), ("x", g.real("i.x")),
                          ("y", g.real("i.y"))):
                f.put(k, lf)
            x = f.node("object", None)
        return T.object_layer(g, "bad", fmt, [T.obj(g, "before", fmt), x])
    return make


def with_zstd(fmt, w, h, chunks=None, wrong=None):
    def build(g, sc):
        sc.zstd = True
        core.E.zstd = True
        if wrong is None:
            add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, "zstd", chunks=chunks)],
                    infinite=chunks is not None)
        else:
            refused(fmt, "last", packed(fmt, wrong, "zstd", 0))(g, sc)
    return build


def cases(tier):
    out = []
    deep = tier == "thorough"
    n = 12 if deep else 6

    def add(fmt, what, make, chunks=False, places=PLACES):
        for w in places:
            out.append(("%s %s, %s" % (fmt, what, w), refused(fmt, w, make, bool(chunks), 3 if deep else 2), {}))

    for fmt in FMTS:
        for pl in WORDS + ("zstd",):
            for ch in (0, 1, 2):
                add(fmt, "unknown compression of %s%s" % (pl, ", %d chunks" % ch if ch else ""),
                    packed(fmt, None, pl, ch, n), ch, PLACES if deep or not ch else ("alone", "deep"))
                add(fmt, "zstd without its library, of %s%s" % (pl, ", %d chunks" % ch if ch else ""),
                    packed(fmt, "zstd", pl, ch), ch, PLACES if deep else ("alone", "grouped"))
        for nm in NEAR:
            for pl in (WORDS if deep else ("b64", "zlib")):
                add(fmt, "compression %r of %s" % (nm, pl), packed(fmt, nm, pl, 0), places=("alone",))
                add(fmt, "compression %r of %s, chunks" % (nm, pl), packed(fmt, nm, pl, 1), 1, ("grouped",))
        for kind in ("list", "b64", "csv") if fmt == "json" else ("b64", "csv"):
            for ch in (0, 1, 2):
                at = ", %d chunks" % ch if ch else ""
                add(fmt, "unknown encoding of %s%s" % (kind, at), encoded(fmt, None, kind, ch, n), ch,
                    PLACES if deep else ("alone", "deep"))
                for nm in ("CSV", "Base64", "base64 ", "base32", "xml", "hex", "base64url"):
                    if deep or ch < 2:
                        add(fmt, "encoding %r of %s%s" % (nm, kind, at), encoded(fmt, nm, kind, ch), ch, ("alone",))
        for k in c15.KINDS:
            for over in (False, True):
                add(fmt, "template of %s in the other format%s" % (k, ", overridden" if over else ""),
                    foreign(fmt, k, over), places=PLACES if deep else ("alone", "deep"))
        for w, h, ch in ((2, 2, None), (3, 1, None), (1, 4, None), (5, 5, [(2, 1), (1, 2)])):
            out.append(("%s zstd with its library %dx%d%s" % (fmt, w, h, " chunks" if ch else ""),
                        with_zstd(fmt, w, h, ch), {}))
        out.append(("%s other compression with zstd's library" % fmt, with_zstd(fmt, 2, 2, None, "zst"), {}))
    add("json", "unknown kind", unknown_kind(None, n))
    for nm in ("", "tileLayer", "layer", "objectlayer", "image", "Group", "tilelayer ", "map"):
        add("json", "kind %r" % nm, unknown_kind(nm), places=("alone", "grouped"))
    for ch in (0, 1, 2):
        for blank in (False, True):
            add("xml", "tiles as elements%s%s" % (", indented" if blank else "", ", %d chunks" % ch if ch else ""),
                elements(ch, blank), ch, PLACES if deep else ("alone", "grouped"))
    add("xml", "image layer without image", no_image({"name", "id"}))
    add("xml", "image layer without image, every attribute", no_image(True))
    return out
