"""Tileset attributes: all attributes unknown and present or absent at once, standalone,
embedded, external in either format from maps of either format; opaque and translucent
colours; single attributes alone (thorough); a number as JSON version;
all attributes beside tiles, wang sets, properties and layers of every kind."""
from .base import *


def alone(fmt, **kw):
    def build(g, sc):
        add_tileset(g, sc, fmt, **kw)
    return build


def in_map(fmt, tfmt, rich, **kw):
    def build(g, sc):
        fg = g.int("fg", 1, 2 ** 20)
        if tfmt is None:
            ts = embedded(g, fmt, "t", fg, rich=rich, **kw)
        else:
            ts = external(g, sc, fmt, tfmt, "t", fg, rich=rich, **kw)
        add_map(g, sc, fmt, [], [ts])
    return build


def full(fmt, tfmt, where):
    """Everything else a tileset may hold beside its attributes."""
    def build(g, sc):
        kw = dict(rich=True, image=["S", "S.png"])
        if where == "alone":
            return add_tileset(g, sc, fmt, **kw, **full_parts(g, "p", fmt))
        fg = g.int("fg", 1, 2 ** 20)
        if where == "embedded":
            ts = embedded(g, fmt, "t", fg, **kw, **full_parts(g, "p", fmt))
        else:
            ts = external(g, sc, fmt, tfmt, "t", fg, **kw, **full_parts(g, "p", tfmt, ["vfs", "sets"]))
        add_map(g, sc, fmt, full_layers(g, "l", fmt, False), [ts], rich={"class", "width"}, pk=["str"])
    return build


def cases(tier):
    out = []
    img = dict(image=["S", "S.png"])
    for fmt in FMTS:
        out.append(("%s standalone" % fmt, alone(fmt, rich=True, **img), {}))
        out.append(("%s embedded" % fmt, in_map(fmt, None, True, **img), {}))
        for tf in FMTS:
            out.append(("%s map, %s tileset" % (fmt, tf), in_map(fmt, tf, True, **img), {}))
        out.append(("%s standalone with everything" % fmt, full(fmt, fmt, "alone"), {}))
        out.append(("%s embedded with everything" % fmt, full(fmt, fmt, "embedded"), {}))
        for tf in FMTS:
            out.append(("%s map, %s tileset with everything" % (fmt, tf), full(fmt, tf, "external"), {}))
        out.append(("%s opaque colours" % fmt, alone(
            fmt, rich={"backgroundcolor", "transparentcolor"}, **img), {}))
        out.append(("%s bare transparent colour" % fmt, alone(
            fmt, rich={"transparentcolor"}, hash_trans=False, **img), {}))
        out.append(("%s no image" % fmt, alone(fmt, rich=True), {}))
        out.append(("%s numbers only" % fmt, alone(fmt, rich={"spacing", "margin", "columns", "tilecount", "tilewidth", "tileheight"}), {}))
        if tier == "thorough":
            for k in ("tileoffset", "grid", "transformations", "version", "tiledversion", "class",
                      "objectalignment", "tilerendersize", "fillmode", "spacing", "margin"):
                out.append(("%s %s alone" % (fmt, k), alone(fmt, rich={k}), {}))
                out.append(("%s %s alone, in a map" % (fmt, k), in_map(fmt, None, {k}), {}))
    out.append(("json number as version", alone("json", version="float"), {}))
    return out
