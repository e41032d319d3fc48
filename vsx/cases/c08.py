"""Objects: every kind with every attribute unknown and present or absent at once, both
class spellings, polygons and polylines of 1-7 (quick) / 1-24 (thorough) points with
unknown coordinates, all kinds together in either order, pairs of kinds, nested layers.
Numbers are multiples of 1/8 up to 2**20."""
import itertools

from .base import *

KINDS = ("rect", "ellipse", "point", "polygon", "polyline", "text", "tile")


def case(fmt, kinds, rich=True, spelling="both", npoints=3, pk=None, nested=False):
    def build(g, sc):
        os = [T.obj(g, "o%d" % i, fmt, k, rich=rich, spelling=spelling, npoints=npoints, pk=pk)
              for i, k in enumerate(kinds)]
        ls = [T.object_layer(g, "l", fmt, os)]
        if nested:
            ls = [T.group(g, "g", fmt, ls)]
        add_map(g, sc, fmt, ls)
    return build


SOME = {"id", "x", "y", "width", "height", "rotation", "visible", "name"}


def cases(tier):
    out = []
    for fmt in FMTS:
        for k in KINDS:
            r = SOME
            out.append(("%s %s, every attribute" % (fmt, k), case(fmt, [k], r), {}))
            out.append(("%s %s, every attribute and properties" % (fmt, k),
                        case(fmt, [k, k], True, pk=["str", "int", "bool"]), {}))
            out.append(("%s %s in a group" % (fmt, k), case(fmt, [k, "rect"], {"id", "x", "width", "height"}, nested=True), {}))
            out.append(("%s %s, size only" % (fmt, k), case(fmt, [k], {"width", "height"}, spelling=None), {}))
        for n in (1, 2, 4, 7) if tier == "quick" else range(1, 25):
            for k in ("polygon", "polyline"):
                out.append(("%s %s of %d points" % (fmt, k, n), case(fmt, [k], {"id"}, None, n), {}))
        out.append(("%s one of each" % fmt, case(fmt, KINDS, {"id", "name"}, None), {}))
        out.append(("%s one of each, reversed" % fmt, case(fmt, KINDS[::-1], {"id", "x"}, None), {}))
        out.append(("%s no objects" % fmt, case(fmt, []), {}))
        out.append(("%s many objects" % fmt, case(fmt, KINDS * 6, {"id"}, None), {}))
        out.append(("%s polygons of 60 points" % fmt, case(fmt, ["polygon", "polyline"], set(), None, 60), {}))
        pairs = itertools.product(KINDS, KINDS)
        for a, b in pairs:
            if tier == "thorough" or (KINDS.index(a) + 1) % 7 == KINDS.index(b):
                out.append(("%s %s then %s" % (fmt, a, b), case(fmt, [a, b], {"id", "x", "visible"}, "class"), {}))
    return out
