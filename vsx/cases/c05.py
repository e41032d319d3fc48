"""Custom properties: up to 32 properties (text, multi-line text, integers, object ids, numbers with a
fraction, booleans, files, colours) of unknown value (text up to 12 characters), under
fixed names or up to 3 under unknown distinct names, the whole list present or not, on
16 kinds of owner, bare or with every attribute unknown; the legacy JSON mapping; TMX text elements.
Outside: properties of class type, empty colour values."""
from .base import *

OWNERS = ("map", "tilelayer", "objectgroup", "imagelayer", "group", "tileset", "exttileset",
          "tile", "rect", "polygon", "tileobj", "text", "wangset", "wangcolor", "nested",
          "collision")


def build_for(fmt, owner, kinds, rich=(), **pkw):
    def build(g, sc):
        kw = dict(pk=kinds, pkw=pkw, rich=rich)
        layers, tilesets, mk_ = [], [], {}
        if owner == "map":
            mk_ = kw
        elif owner == "tilelayer":
            layers = [T.tile_layer(g, "l", fmt, 1, 1, "plain" if fmt == "json" else "csv", **kw)]
        elif owner == "objectgroup":
            layers = [T.object_layer(g, "l", fmt, **kw)]
        elif owner == "imagelayer":
            layers = [T.image_layer(g, "l", fmt, **kw)]
        elif owner == "group":
            layers = [T.group(g, "l", fmt, [T.object_layer(g, "in", fmt)], **kw)]
        elif owner == "nested":
            layers = [T.group(g, "l", fmt, [T.object_layer(g, "in", fmt, [T.obj(g, "o", fmt, **kw)], **kw)])]
        elif owner in ("rect", "polygon", "text"):
            layers = [T.object_layer(g, "l", fmt, [T.obj(g, "o", fmt, owner, **kw), T.obj(g, "o2", fmt)])]
        elif owner == "tileobj":
            layers = [T.object_layer(g, "l", fmt, [T.obj(g, "o", fmt, "tile", **kw)])]
        else:
            fg = const(1)
            tk = {}
            if owner in ("tileset", "exttileset"):
                tk = kw
            elif owner == "tile":
                tk["tiles"] = [T.tile_def(g, "d", fmt, const(3), **kw), T.tile_def(g, "d2", fmt, const(0))]
            elif owner == "collision":
                tk["tiles"] = [T.tile_def(g, "d", fmt, const(3), collision=T.object_layer(
                    g, "cl", fmt, [T.obj(g, "o", fmt, **kw)], **kw))]
            elif owner == "wangset":
                tk["wangs"] = [T.wang_set(g, "w", fmt, **kw)]
            elif owner == "wangcolor":
                tk["wangs"] = [T.wang_set(g, "w", fmt, [T.wang_color(g, "wc", fmt, **kw)])]
            if owner == "exttileset":
                tilesets = [external(g, sc, fmt, fmt, "t", fg, **tk)]
            else:
                tilesets = [embedded(g, fmt, "t", fg, **tk)]
        add_map(g, sc, fmt, layers, tilesets, **mk_)
    return build


KINDS = ["str", "int", "float", "bool", "file", "color", "acolor", "mstr", "str0", "object"]


def cases(tier):
    out = []
    for fmt in FMTS:
        for o in OWNERS:
            out.append(("%s %s every kind" % (fmt, o), build_for(fmt, o, KINDS), {}))
            out.append(("%s %s with every attribute" % (fmt, o), build_for(fmt, o, ["str", "bool", "color"], True), {}))
            out.append(("%s %s unknown names" % (fmt, o), build_for(fmt, o, ["str", "bool", "int"], names="sym"), {}))
            if tier == "thorough":
                for k in KINDS:
                    out.append(("%s %s two of %s" % (fmt, o, k), build_for(fmt, o, [k, k], names="sym"), {}))
        for o in OWNERS if tier == "thorough" else ("map", "rect", "tile"):
            out.append(("%s %s empty list" % (fmt, o), build_for(fmt, o, []), {}))
            out.append(("%s %s text elements" % (fmt, o), build_for(fmt, o, ["tstr", "mstr"]), {}))
            out.append(("%s %s many" % (fmt, o), build_for(fmt, o, (KINDS[:7] + KINDS[9:]) * 4), {}))
    for o in OWNERS:
        if tier == "thorough" or o in ("map", "objectgroup", "rect", "tile", "tileset", "wangset"):
            out.append(("json %s legacy mapping" % o,
                        build_for("json", o, ["str", "int", "bool", "float"], legacy=True), {}))
    out.append(("json map legacy mapping, unknown names",
                build_for("json", "map", ["str", "int"], legacy=True, names="sym"), {}))
    return out
