"""Map attributes: all unknown and present or absent at once; every pair of optional
attributes alone (thorough); relative paths and paths with dots; number as version;
all attributes beside tilesets, properties and layers of every kind."""
from .base import *


def case(fmt, rich, relative=False, segs=None, **kw):
    def build(g, sc):
        add_map(g, sc, fmt, simple_layers(g, fmt), rich=rich, relative=relative, segs=segs, **kw)
    return build


def full(fmt):
    """Everything else a map may hold beside its attributes."""
    def build(g, sc):
        fg, fg2 = g.int("fg", 1, 2 ** 20), g.int("fg2", 1, 2 ** 20)
        g.distinct(fg, fg2)
        ts = [embedded(g, fmt, "t", fg, rich={"name", "spacing"}, image=["S.png"], **full_parts(g, "p", fmt)),
              external(g, sc, fmt, fmt, "x", fg2, rich={"name", "tilecount"})]
        add_map(g, sc, fmt, full_layers(g, "l", fmt, False), ts, rich=True, pk=["str", "bool"])
    return build


OPT = ["infinite", "nextlayerid", "tiledversion", "class", "hexsidelength", "staggeraxis",
       "staggerindex", "parallaxoriginx", "parallaxoriginy", "backgroundcolor"]


def cases(tier):
    out = []
    for fmt in FMTS:
        out.append(("%s every attribute" % fmt, case(fmt, True), {}))
        out.append(("%s every attribute with everything" % fmt, full(fmt), {}))
        out.append(("%s opaque background" % fmt, case(fmt, {"backgroundcolor"}), {}))
        out.append(("%s relative path" % fmt, case(fmt, {"class", "width"}, True), {}))
        out.append(("%s path with dots" % fmt, case(fmt, {"class"}, segs=["maps", "..", "maps", "m." + EXT[fmt]]), {}))
        out.append(("%s bare" % fmt, case(fmt, set()), {}))
        for k in OPT if tier == "quick" else []:
            pass
        if tier == "thorough":
            for a in OPT:
                for b in OPT:
                    if a < b:
                        out.append(("%s %s, %s" % (fmt, a, b), case(fmt, {a, b}), {}))
        out.append(("%s with properties" % fmt, case(fmt, {"parallaxoriginx", "class"}, pk=["int", "str"]), {}))
    out.append(("json number as version", case("json", {"class"}, version="float"), {}))
    return out
