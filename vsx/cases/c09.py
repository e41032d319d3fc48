"""Text objects: all 12 attributes unknown and present or absent at once, text up to 12
characters including none, one to three text objects in a layer, with every object
attribute; each attribute alone (thorough)."""
from .base import *


def case(fmt, rich, n=1, spell=None, others=()):
    def build(g, sc):
        os = [T.obj(g, "o%d" % i, fmt, "text", rich=rich, spelling=spell) for i in range(n)]
        for i, k in enumerate(others):
            os.append(T.obj(g, "x%d" % i, fmt, k))
        add_map(g, sc, fmt, [T.object_layer(g, "l", fmt, os)])
    return build


def grouped(fmt):
    def build(g, sc):
        os = [T.obj(g, "o%d" % i, fmt, "text", rich=True, spelling="both", pk=["str", "int"]) for i in range(2)]
        ls = full_layers(g, "l", fmt, False)
        ls.append(T.group(g, "g", fmt, [T.object_layer(g, "in", fmt, os, rich={"name", "draworder"}, pk=["str"])]))
        add_map(g, sc, fmt, ls, pk=["bool"])
    return build


FLAGS = ["bold", "italic", "kerning", "strikeout", "underline", "wrap"]
ALL = ["text", "color", "fontfamily", "pixelsize", "halign", "valign"] + FLAGS


def cases(tier):
    out = []
    for fmt in FMTS:
        out.append(("%s every attribute" % fmt, case(fmt, {"text." + k for k in ALL}), {}))
        out.append(("%s every attribute, translucent" % fmt,
                    case(fmt, {"text." + k for k in ALL + ["alpha"]}), {}))
        out.append(("%s text only" % fmt, case(fmt, {"text.text"}, 2), {}))
        out.append(("%s with object attributes" % fmt, case(
            fmt, {"text." + k for k in ALL} | {"id", "x", "y", "width", "height", "rotation", "visible", "name"},
            1, "both"), {}))
        out.append(("%s with properties, in groups" % fmt, grouped(fmt), {}))
        out.append(("%s two texts" % fmt, case(fmt, {"text." + k for k in ALL}, 2, None, ["rect"]), {}))
        if tier == "thorough":
            for k in ALL:
                out.append(("%s %s alone" % (fmt, k), case(fmt, {"text." + k}, 3), {}))
    return out
