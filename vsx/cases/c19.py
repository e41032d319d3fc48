"""The two formats: every scene of the other properties that both formats can hold
(maps, layers of all kinds, tile data in every encoding, chunks, objects of all shapes,
custom properties, image layers, groups, tilesets standalone, embedded and external,
tile definitions, wang sets, template instances and their tilesets), built twice over
the same unknowns, once as JSON and once as TMX, and parsed; the two results must be
equal.  Tile data is also compared between different encodings of the same words.
Where one format always stores a field and the other may leave it out, the stored value
is the default when left out.  Outside: fields one format has no place for (start
coordinates, sizes of layers other than tile layers, the map's own path)."""
import importlib

from .base import *

SKIP = (".map_file",)
FROM = ("c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13",
        "c14", "c15", "c16")


class Side:
    """Keeps a scene's files and calls, not what it expects."""

    def __init__(self, sc):
        self.sc = sc

    def expect(self, i, x):
        pass

    def call(self, fn, path, x):
        self.sc.op(fn, path)

    def __getattr__(self, k):
        return getattr(self.sc, k)

    def __setattr__(self, k, v):
        if k == "sc":
            object.__setattr__(self, k, v)
        else:
            setattr(self.sc, k, v)


def pair(a, b):
    def build(g, sc):
        g.paired = True
        n = []
        for f in (a, b):
            f(g, Side(sc))
            n.append(len(sc.ops))
        if n[1] != 2 * n[0]:
            raise AssertionError("scenes of different length")
        for i in range(n[0]):
            sc.checks.append(("same", n[0] + i, i, SKIP))
    return build


def encodings(je, xe, w=2, h=2, chunks=None, rich=()):
    def build(g, sc):
        g.paired = True
        for fmt, e in (("json", je), ("xml", xe)):
            add_map(g, Side(sc), fmt, [T.tile_layer(g, "a", fmt, w, h, e, rich=rich, chunks=chunks)],
                    infinite=chunks is not None)
        sc.checks.append(("same", 1, 0, SKIP))
    return build


def cases(tier):
    out = []
    deep = tier == "thorough"
    for je in ("plain", "csv") + WORDS:
        for xe in ("csv",) + WORDS:
            out.append(("%s and %s" % (je, xe), encodings(je, xe), {}))
            out.append(("%s and %s chunks" % (je, xe), encodings(je, xe, chunks=[(2, 1), (1, 3)]), {}))
            if deep:
                for w, h in ((1, 1), (1, 5), (4, 3), (7, 2)):
                    out.append(("%s and %s %dx%d" % (je, xe, w, h), encodings(je, xe, w, h, rich=True), {}))
    for m in FROM:
        by = {}
        for name, build, opt in importlib.import_module("vsx.cases." + m).cases(
                "quick" if m == "c16" else tier):
            fmt, _, rest = name.partition(" ")
            by.setdefault(rest, {})[fmt] = build
        for rest, d in by.items():
            if "json" in d and "xml" in d:
                out.append(("%s: %s" % (m, rest), pair(d["json"], d["xml"]), {}))
    return out
