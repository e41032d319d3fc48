"""Tile definitions: 1-3 tiles of unknown distinct ids 0..2**28, each plain, animated
(0-3 frames), with image, class, properties, collision shapes or everything, each
optional part present or absent; standalone, embedded and external; every triple of
kinds (thorough); the legacy JSON mapping."""
from .base import *


def tid(g, n):
    return g.int(n + ".id", 0, 2 ** 28)


def defs(g, fmt, kinds, base=None, legacy=False):
    out, ids = [], []
    for i, k in enumerate(kinds):
        n = "d%d" % i
        t = tid(g, n)
        ids.append(t)
        kw = dict(base=base, legacy=legacy)
        if k == "full":
            kw.update(rich=True, spelling="both", frames=2, pk=["str", "bool"], image=["S.png"],
                      collision=T.object_layer(g, n + "c", fmt, [T.obj(g, n + "co", fmt, rich={"id", "x"})]))
        elif k == "anim":
            kw.update(frames=3)
        elif k == "anim0":
            kw.update(frames=0)
        elif k == "image":
            kw.update(rich={"width", "height", "x", "y"}, image=["..", "S", "S.png"])
        elif k == "class":
            kw.update(spelling="both")
        elif k == "collision":
            kw.update(collision=T.object_layer(g, n + "c", fmt, [
                T.obj(g, n + "a", fmt, "polygon"), T.obj(g, n + "b", fmt, "ellipse", rich={"width", "height"})], rich={"draworder", "name", "opacity"}))
        elif k == "props":
            kw.update(pk=["str", "int", "bool", "color"])
        out.append(T.tile_def(g, n, fmt, t, **kw))
    if len(ids) > 1:
        g.distinct(*ids)
    return out


def many(g, fmt, base=None):
    """30 tiles listed in no order, long animations and many collision objects."""
    out = []
    first = g.int("first.id", 0, 2 ** 20)
    for i in range(30):
        n = "d%d" % i
        t = shifted(first, (i * 7) % 30)
        kw = dict(base=base)
        if i == 12:
            kw.update(frames=30)
        if i == 17:
            kw.update(collision=T.object_layer(g, n + "c", fmt, [
                T.obj(g, "%so%d" % (n, j), fmt, rich={"id"}) for j in range(30)]))
        if i % 5 == 0:
            kw.update(rich={"class"}, spelling="both")
        out.append(T.tile_def(g, n, fmt, t, **kw))
    return out


def shifted(lf, k):
    e = core.SymInt(core.simp(lf.exp.e + k))
    from ..text import IntTxt
    return Leaf(e, mk([IntTxt(e.e)]), e)


def many_case(fmt, tfmt):
    def build(g, sc):
        fg = g.int("fg", 1, 2 ** 20)
        if tfmt is None:
            ts = embedded(g, fmt, "t", fg, tiles=many(g, fmt))
        else:
            ts = external(g, sc, fmt, tfmt, "t", fg, tiles=many(g, tfmt, base=["vfs", "sets"]))
        add_map(g, sc, fmt, [], [ts])
    return build


def alone(fmt, kinds, legacy=False):
    def build(g, sc):
        add_tileset(g, sc, fmt, tiles=defs(g, fmt, kinds, legacy=legacy), legacy=legacy)
    return build


def in_map(fmt, tfmt, kinds):
    def build(g, sc):
        fg = g.int("fg", 1, 2 ** 20)
        if tfmt is None:
            ts = embedded(g, fmt, "t", fg, tiles=defs(g, fmt, kinds))
        else:
            ts = external(g, sc, fmt, tfmt, "t", fg, tiles=defs(g, tfmt, kinds, base=["vfs", "sets"]))
        add_map(g, sc, fmt, [], [ts])
    return build


def full(fmt, tfmt):
    """Everything in every tile, in a tileset with every attribute."""
    def build(g, sc):
        fg = g.int("fg", 1, 2 ** 20)
        kw = dict(rich=True, image=["S.png"], pk=["str"])
        if tfmt is None:
            ts = embedded(g, fmt, "t", fg, tiles=defs(g, fmt, ["full", "image"]), **kw)
        else:
            ts = external(g, sc, fmt, tfmt, "t", fg, tiles=defs(g, tfmt, ["full", "image"], base=["vfs", "sets"]), **kw)
        add_map(g, sc, fmt, full_layers(g, "l", fmt, False), [ts])
    return build


SETS = [["full"], ["class", "anim"], ["image", "props"], ["plain", "collision", "plain"],
        ["anim", "image", "class"], ["anim0"]]


def cases(tier):
    out = []
    for fmt in FMTS:
        for s in SETS:
            out.append(("%s standalone %s" % (fmt, s), alone(fmt, s), {}))
            out.append(("%s embedded %s" % (fmt, s), in_map(fmt, None, s), {}))
            for tf in FMTS:
                if tier == "thorough" or s in (SETS[0], SETS[2]):
                    out.append(("%s map, %s tileset %s" % (fmt, tf, s), in_map(fmt, tf, s), {}))
        for tf in (None, fmt):
            out.append(("%s %s many tiles" % (fmt, tf), many_case(fmt, tf), {}))
        for tf in (None,) + FMTS:
            out.append(("%s %s full tiles, full tileset" % (fmt, tf), full(fmt, tf), {}))
        if tier == "thorough":
            ks = ("plain", "anim", "image", "class", "collision", "props")
            for a in ks:
                for b in ks:
                    for c in ks:
                        out.append(("%s %s %s %s" % (fmt, a, b, c), alone(fmt, [a, b, c]), {}))
    for s in [["full"], ["class", "anim", "image"], ["props", "collision"]]:
        out.append(("json legacy mapping %s" % s, alone("json", s, True), {}))
    return out
