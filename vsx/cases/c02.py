"""Grids: width and height each 1-6 (quick) / 1-8 (thorough), every id unknown in
0..2**32-1; JSON arrays, TMX CSV as Tiled writes it, bare, and with a blank
character before, between or after numbers (the first or last seven unknown among space,
tab, line feed, carriage return, the others fixed);
every encoding at some sizes; 60x45 / 130x140 cells with every 97th id unknown.
Outside: numbers written with signs, leading zeros or in other bases."""
from .base import *


def case(fmt, w, h, enc, style="tiled"):
    def build(g, sc):
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, enc, style)])
    return build


def cases(tier):
    n = 6 if tier == "quick" else 8
    out = []
    for w in range(1, n + 1):
        for h in range(1, n + 1):
            out.append(("json plain %dx%d" % (w, h), case("json", w, h, "plain"), {}))
            for st in ("tiled", "odd", "odd end", "other"):
                if st == "odd end" and w * h < 5:
                    continue
                out.append(("xml csv %s %dx%d" % (st, w, h), case("xml", w, h, "csv", st), {}))
    for w, h in ((3, 2), (1, 4), (5, 1)):
        out.append(("json csv %dx%d" % (w, h), case("json", w, h, "csv"), {}))
        for enc in WORDS:
            for fmt in FMTS:
                out.append(("%s %s %dx%d" % (fmt, enc, w, h), case(fmt, w, h, enc), {}))
    for w, h in ((60, 45),) if tier == "quick" else ((60, 45), (130, 140)):
        for fmt, enc in (("json", "plain"), ("xml", "csv")):
            out.append(("%s %s large %dx%d" % (fmt, enc, w, h), big(fmt, enc, w, h), {"sample": 1}))
    return out


def big(fmt, enc, w, h):
    def build(g, sc):
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, enc, sparse=97)])
    return build
