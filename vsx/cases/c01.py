"""Encoded tile data: layers of 1x1 to 8x8 (quick) / 16x16, 40x25 (thorough) cells
and layers of 1-3 / 1-5 chunks, every payload byte unknown, base64 alone and compressed
with zlib, gzip and (library present) zstd, compression given, empty or absent, one or
two layers of different encodings in one map; and layers of 140x130 / 260x270 cells
with every 997th word unknown.  Outside: payloads that are not whole words."""
from .base import *

SIZES = {"quick": [(1, 1), (3, 2), (2, 3), (4, 1), (1, 5), (5, 4), (8, 8)],
         "thorough": [(w, h) for w in range(1, 9) for h in range(1, 9)] + [(16, 16), (40, 25)]}


def layer_case(fmt, enc, w, h, compression="same"):
    def build(g, sc):
        sc.zstd = core.E.zstd = enc == "zstd"
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, enc, compression=compression)])
    return build


def chunk_case(fmt, enc, sizes, compression="same"):
    def build(g, sc):
        sc.zstd = core.E.zstd = enc == "zstd"
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, 9, 7, enc, chunks=sizes,
                                          compression=compression)], infinite=True)
    return build


def two_layers(fmt, a, b):
    def build(g, sc):
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, 2, 1, a), T.tile_layer(g, "b", fmt, 2, 1, b)])
    return build


def big_case(fmt, enc, w, h, step):
    """Mostly fixed ids; one word in `step` unknown (so that size limits show)."""
    def build(g, sc):
        sc.zstd = core.E.zstd = enc == "zstd"
        add_map(g, sc, fmt, [T.tile_layer(g, "a", fmt, w, h, enc, sparse=step)])
    return build


def cases(tier):
    out = []
    for fmt in FMTS:
        for enc in WORDS + ("zstd",):
            for w, h in SIZES[tier]:
                out.append(("%s %s layer %dx%d" % (fmt, enc, w, h), layer_case(fmt, enc, w, h), {}))
            for cs in ([[(2, 2)], [(3, 1), (1, 2)]] if tier == "quick" else
                       [[(2, 2)], [(3, 1), (1, 2)], [(4, 4), (2, 8), (16, 16)], [(1, 1)] * 5]):
                out.append(("%s %s chunks %s" % (fmt, enc, cs), chunk_case(fmt, enc, cs), {}))
            for w, h in ((140, 130),) if tier == "quick" else ((140, 130), (260, 270)):
                out.append(("%s %s large layer %dx%d" % (fmt, enc, w, h),
                            big_case(fmt, enc, w, h, 997), {"sample": 1}))
        out.append(("%s no compression given" % fmt, layer_case(fmt, "b64", 2, 2, None), {}))
        out.append(("%s no compression given, chunks" % fmt, chunk_case(fmt, "b64", [(2, 1)], None), {}))
        for a in WORDS + ("csv",):
            for b in WORDS + ("csv",):
                if a != b and (tier != "quick" or (WORDS + ("csv",)).index(a) == ((WORDS + ("csv",)).index(b) + 1) % 4):
                    out.append(("%s layers %s and %s" % (fmt, a, b), two_layers(fmt, a, b), {}))
    return out
