"""Layer attributes: every attribute of every kind of layer unknown and (where optional)
present or absent in every combination at once, alone, nested in a group, in pairs of
kinds (thorough) or three together; the tile layer's stored size unknown;
all kinds with properties and objects."""
from .base import *


def layer(g, fmt, kind, n, rich, nested=False):
    if kind == "tile":
        return T.tile_layer(g, n, fmt, 1, 2, "plain" if fmt == "json" else "csv", rich=rich)
    if kind == "tilechunks":
        return T.tile_layer(g, n, fmt, 3, 2, "plain" if fmt == "json" else "csv", rich=rich,
                            chunks=[(1, 2)])
    if kind == "object":
        return T.object_layer(g, n, fmt, [T.obj(g, n + "o", fmt)], rich=rich)
    if kind == "image":
        return T.image_layer(g, n, fmt, rich=rich)
    if kind == "group":
        return T.group(g, n, fmt, [T.object_layer(g, n + "i", fmt)], rich=rich)


KINDS = ("tile", "tilechunks", "object", "image", "group")
ALL = True


def case(fmt, kinds, rich, nested=False):
    def build(g, sc):
        ls = [layer(g, fmt, k, "l%d" % i, rich) for i, k in enumerate(kinds)]
        if nested:
            ls = [T.group(g, "g", fmt, ls)]
        add_map(g, sc, fmt, ls, infinite="tilechunks" in kinds)
    return build


def size_case(fmt):
    """Stored size of a tile layer (unknown) whose data sit in chunks."""
    def build(g, sc):
        w, h = g.int("w", 0, 2 ** 20), g.int("h", 0, 2 ** 20)
        add_map(g, sc, fmt, [T.tile_layer(g, "l", fmt, enc="plain" if fmt == "json" else "csv",
                                          chunks=[(2, 1)], size=(w, h))], infinite=True)
    return build


def full(fmt, twice=False):
    """Every attribute of every kind of layer, with properties and contents."""
    def build(g, sc):
        ls = full_layers(g, "a", fmt)
        if twice:
            ls += full_layers(g, "b", fmt, False)
        add_map(g, sc, fmt, ls, rich={"class", "width", "height"}, pk=["str"])
    return build


RICHES = [True,
          {"offsetx", "offsety", "parallaxx", "parallaxy", "opacity", "visible"},
          {"tintcolor", "alpha", "class", "id", "name", "repeatx", "repeaty"}]


def cases(tier):
    out = []
    for fmt in FMTS:
        for k in KINDS:
            out.append(("%s %s, every attribute" % (fmt, k), case(fmt, [k], True), {}))
            out.append(("%s %s, translucent tint" % (fmt, k), case(fmt, [k], {"tintcolor", "alpha", "trans"}), {}))
            out.append(("%s %s in a group" % (fmt, k), case(fmt, [k], True, True), {}))
            if tier == "thorough":
                for k2 in KINDS:
                    out.append(("%s %s and %s" % (fmt, k, k2), case(fmt, [k, k2], True), {}))
        out.append(("%s layers with contents" % fmt, full(fmt), {}))
        out.append(("%s layers with contents, twice" % fmt, full(fmt, True), {}))
        out.append(("%s unknown tile layer size" % fmt, size_case(fmt), {}))
        out.append(("%s three kinds" % fmt, case(fmt, ["object", "image", "group"],
                                                  {"offsetx", "offsety", "name", "visible", "parallaxx", "draworder"}), {}))
    return out
