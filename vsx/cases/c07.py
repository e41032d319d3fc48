"""Layer trees: all forests of up to 2 (quick) / 3 (thorough) layers over tile, object,
image and group layers, 16 chosen ones, and 200 generated ones of up to 10 layers and
depth 4 (thorough), names, ids and visibility unknown; every third with a tileset whose
tiles have collision shapes."""
import random

from .base import *

RICH = {"name", "id", "visible"}


def leaf_layer(g, fmt, k, n):
    if k == "t":
        return T.tile_layer(g, n, fmt, 1, 1, "plain" if fmt == "json" else "csv", rich=RICH)
    if k == "o":
        return T.object_layer(g, n, fmt, [T.obj(g, n + "o", fmt, rich={"id"})], rich=RICH)
    if k == "i":
        return T.image_layer(g, n, fmt, rich=RICH)
    raise KeyError(k)


def tree(g, fmt, t, n):
    """t: string of t/o/i or a tuple of children (a group)."""
    if isinstance(t, tuple):
        return T.group(g, n, fmt, [tree(g, fmt, c, "%s.%d" % (n, i)) for i, c in enumerate(t)], rich=RICH)
    return leaf_layer(g, fmt, t, n)


def case(fmt, ts, decoys=False):
    def build(g, sc):
        tilesets = []
        if decoys:
            fg = g.int("fg", 1, 1000)
            tilesets = [embedded(g, fmt, "ts", fg, tiles=[
                T.tile_def(g, "d0", fmt, const(0), collision=T.object_layer(g, "c0", fmt, [T.obj(g, "co", fmt)])),
                T.tile_def(g, "d1", fmt, const(1), collision=T.object_layer(g, "c1", fmt))])]
        add_map(g, sc, fmt, [tree(g, fmt, t, "l%d" % i) for i, t in enumerate(ts)], tilesets)
    return build


SHAPES = [
    (), ("t",), ("o",), ("i",), ((),), ("t", "o", "i", ()),
    ("i", "o", "t"), ("o", "t", "o", "t"),
    (("t", "o"),), (("i", "o", "t"),), (("o", ("t",), "i"),), ((("t",), "o"), "i"),
    (("t",), ("t",)), (((("o",),),),), ("t", ("i", ("o", ("t", "i"), "t"), "o"), "i"),
    (("o", (), "t", ("i",), "i"), "t"),
]


def random_shape(r, depth, budget):
    out = []
    while budget[0] > 0 and len(out) < 5:
        budget[0] -= 1
        k = r.choice("toig")
        if k == "g" and depth:
            out.append(random_shape(r, depth - 1, budget))
        elif k != "g":
            out.append(k)
        if r.random() < 0.2:
            break
    return tuple(out)


def all_shapes(n):
    """Every forest with exactly n nodes over t/o/i/groups."""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):  # size of the first tree
        for rest in all_shapes(n - k):
            if k == 1:
                out.extend((c,) + rest for c in ("t", "o", "i"))
            for inner in all_shapes(k - 1):
                out.append((inner,) + rest)
    return out


def cases(tier):
    shapes = list(SHAPES)
    if tier == "thorough":
        for n in range(4):
            shapes += all_shapes(n)
        r = random.Random(5)
        for _ in range(200):
            shapes.append(random_shape(r, 4, [10]))
    else:
        shapes += all_shapes(2)
    deep = "o"
    for i in range(12):
        deep = (deep, "t")[:1 + i % 2]
    shapes += [("t", "o", "i", ()) * 12, (("o", "t", "i") * 12, "o"), (deep, "t", (deep,))]
    shapes = sorted(set(shapes), key=lambda s: (len(str(s)), str(s)))
    out = []
    for fmt in FMTS:
        for i, s in enumerate(shapes):
            out.append(("%s %r" % (fmt, s), case(fmt, s, decoys=i % 3 == 0), {}))
    return out
