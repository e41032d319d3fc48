"""Chunks: 0-3 (quick) / 0-5 (thorough) chunks of 1x1 to 3x3 / 6x6 and 16x16 cells,
coordinates unknown in -2**31..2**31, ids unknown, in every encoding of both formats, in
one to three layers."""
from .base import *


def case(fmt, enc, chunks, w=5, h=5, rich=(), style="tiled"):
    def build(g, sc):
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, enc, style, rich=rich, chunks=chunks)],
                infinite=True)
    return build


def two(fmt, enc):
    def build(g, sc):
        add_map(g, sc, fmt, [
            T.tile_layer(g, "a", fmt, 4, 4, enc, chunks=[(2, 1), (1, 2)]),
            T.tile_layer(g, "b", fmt, 4, 4, enc, chunks=[]),
            T.tile_layer(g, "c", fmt, 4, 4, enc, chunks=[(1, 1)])], infinite=True)
    return build


def cases(tier):
    out = []
    lists = [[(1, 1)], [(2, 3)], [(3, 2), (2, 3)], [(1, 2), (2, 1), (2, 2)], []]
    if tier == "thorough":
        lists += [x for x in ([(w, h)] for w in range(1, 7) for h in range(1, 7)) if x not in lists]
        lists += [[(4, 4)] * 4, [(16, 16), (16, 16)], [(5, 1), (1, 5), (3, 3), (2, 4), (4, 2)]]
    for fmt in FMTS:
        for enc in (("plain",) if fmt == "json" else ()) + ("csv",) + WORDS:
            for cs in lists:
                out.append(("%s %s %s" % (fmt, enc, cs), case(fmt, enc, cs), {}))
            out.append(("%s %s many chunks" % (fmt, enc), case(fmt, enc, [(1, 1)] * 24), {}))
            out.append(("%s %s three layers" % (fmt, enc), two(fmt, enc), {}))
    for enc in ("plain", "zlib"):
        out.append(("json %s start coordinates" % enc,
                    case("json", enc, [(2, 1), (1, 2)], rich={"start"}), {}))
    for st in ("odd", "odd end", "other"):
        out.append(("xml csv %s" % st, case("xml", "csv", [(2, 2), (3, 1)], style=st), {}))
    return out
