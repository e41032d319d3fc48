"""Tileset references: maps with 0-3 (quick) / 0-4 (thorough) tilesets embedded, JSON or
TSX in either map format, first gids 1..2**20 unknown and distinct, references plain,
dotted, by a detour, absolute, into unknown directories up to depth 2, under any
extension; image paths of eight shapes with unknown segments for tilesets and tiles; one
file named twice; equal names in different directories; maps by relative path.
Outside: symbolic links."""
from .base import *

RICH = {"name", "tilecount", "columns"}


def tile(g, n, fmt, base, shape):
    t = g.int(n + ".id", 0, 2 ** 20)
    return T.tile_def(g, n, fmt, t, base=base, image=shape)


def make(g, sc, fmt, kind, n, fg, dirs=("sets",), shape=("S.png",), ref=None, ext=None,
         tshape=None, rich=RICH):
    """One entry of the list, its file stored."""
    if kind == "emb":
        tiles = [tile(g, n + "t", fmt, None, tshape)] if tshape else ()
        return embedded(g, fmt, n, fg, image=shape, tiles=tiles, rich=rich)
    base = ["vfs"] + list(dirs)
    tiles = [tile(g, n + "t", kind, base, tshape)] if tshape else ()
    t = T.tileset(g, n, kind, firstgid=fg, base=base, image=shape, tiles=tiles, rich=rich)
    name = n + (ext if ext is not None else "." + TEXT[kind])
    sc.file(list(dirs) + [name], doc(kind, t))
    segs = ref(dirs, name) if ref else [".."] + list(dirs) + [name]
    absolute = segs[0] == "/"
    src = g.path(segs[1:] if absolute else segs, ["vfs", "maps"], absolute)
    return (T.tileset_ref(g, fmt, fg, src), fg, t.exp)


def several(fmt, kinds, tshape=None):
    def build(g, sc):
        fgs = [g.int("fg%d" % i, 1, 2 ** 20) for i in range(len(kinds))]
        if len(fgs) > 1:
            g.distinct(*fgs)
        ts = [make(g, sc, fmt, k, "t%d" % i, fgs[i], dirs=("sets", "d%d" % i)[:1 + i % 2],
                   tshape=tshape) for i, k in enumerate(kinds)]
        add_map(g, sc, fmt, [], ts)
    return build


def one(fmt, kind, relative=False, cwd=None, symdir=0, mapsegs=None, **kw):
    def build(g, sc):
        fg = g.int("fg", 1, 2 ** 20)
        if symdir:
            kw["dirs"] = [g.seg("dir%d" % i) for i in range(symdir)]
            for i, d in enumerate(kw["dirs"]):
                g.add(neg_eq(d, "maps"))
        ts = make(g, sc, fmt, kind, "t", fg, **kw)
        add_map(g, sc, fmt, [], [ts], relative=relative, segs=mapsegs)
    return build


def neg_eq(a, b):
    return z3.Not(core.eq(a, b))


def alone(fmt, shape, tshape=None):
    def build(g, sc):
        tiles = [tile(g, "tt", fmt, None, tshape)] if tshape else ()
        add_tileset(g, sc, fmt, image=shape, tiles=tiles, rich=RICH)
    return build


def twice(fmt, kind):
    """One file named twice, under two first gids."""
    def build(g, sc):
        a, b = g.int("fa", 1, 2 ** 20), g.int("fb", 1, 2 ** 20)
        g.distinct(a, b)
        first = make(g, sc, fmt, kind, "t", a, tshape=["S.png"])
        f = dict(first[2].f)
        f["firstgid"] = b.exp
        src = const("../sets/t." + TEXT[kind])
        second = (T.tileset_ref(g, fmt, b, src), b, Obj("Tileset", **f))
        add_map(g, sc, fmt, [], [first, second])
    return build


def own_files(fmt, kinds):
    """Files of one name in different directories."""
    def build(g, sc):
        ts = []
        fgs = [g.int("fg%d" % i, 1, 2 ** 20) for i in range(len(kinds))]
        g.distinct(*fgs)
        for i, k in enumerate(kinds):
            d = "d%d" % i
            base = ["vfs", "maps", d]
            t = T.tileset(g, "t%d" % i, k, firstgid=fgs[i], base=base, image=["a.png"], rich=RICH)
            sc.file(["maps", d, "same.set"], doc(k, t))
            ts.append((T.tileset_ref(g, fmt, fgs[i], const(d + "/same.set")), fgs[i], t.exp))
        # a file of that name next to the map, which nothing refers to
        decoy = T.tileset(g, "decoy", fmt, rich=())
        sc.file(["maps", "same.set"], doc(fmt, decoy))
        add_map(g, sc, fmt, [], ts)
    return build


SHAPES = (["S.png"], ["S", "S.png"], ["..", "S.png"], ["..", "..", "S", "S.png"], [".", "S.png"],
          ["S", "..", "S", "S.png"], ["/", "S", "S.png"], ["S"])
REFS = {
    "plain": lambda d, n: [".."] + list(d) + [n],
    "dotted": lambda d, n: [".", "..", ".", *d, n],
    "around": lambda d, n: ["..", "maps", "..", *d, n],
    "absolute": lambda d, n: ["/", "vfs", *d, n],
}


def cases(tier):
    out = []
    deep = tier == "thorough"
    for fmt in FMTS:
        for ks in ([], ["emb"], ["json", "xml"], ["xml", "emb"], ["emb", "json", "xml"],
                   ["xml", "json", "emb"]) if not deep else [
                       list(k) for r in range(4) for k in itertools_product(r)] + [
                           ["emb", "json", "xml", "emb"], ["xml", "xml", "json", "json"]]:
            out.append(("%s list %s" % (fmt, ks), several(fmt, ks), {}))
            out.append(("%s list %s with tiles" % (fmt, ks), several(fmt, ks, ["S", "S.png"]), {}))
        out.append(("%s list of many" % fmt, several(fmt, ["emb", "json", "xml"] * 5), {}))
        for kind in ("json", "xml"):
            tag = "%s map, %s tileset" % (fmt, kind)
            for s in SHAPES:
                out.append(("%s, image %s" % (tag, "/".join(s)),
                            one(fmt, kind, shape=s, tshape=s, rich={"name"}), {}))
            for k, r in REFS.items():
                out.append(("%s, reference %s" % (tag, k), one(fmt, kind, ref=r, shape=["..", "S.png"]), {}))
            out.append((tag + " beside the map", one(
                fmt, kind, dirs=("maps",), ref=lambda d, n: [n], tshape=["S.png"]), {}))
            out.append((tag + " below the map", one(
                fmt, kind, dirs=("maps", "in"), ref=lambda d, n: ["in", n], tshape=["S.png"],
                shape=["..", "S.png"]), {}))
            for e in (".json", ".tsx", ".xml", ".tmx", ""):
                out.append(("%s called t%s" % (tag, e), one(fmt, kind, ext=e), {}))
            out.append((tag + " in unknown directories", one(fmt, kind, symdir=2, tshape=["S.png"]), {}))
            out.append((tag + ", map by relative path", one(
                fmt, kind, relative=True, tshape=["..", "S.png"]), {}))
            out.append((tag + ", map in the working directory", one(
                fmt, kind, relative=True, mapsegs=["m." + EXT[fmt]], dirs=("sets",),
                ref=lambda d, n: list(d) + [n], tshape=["..", "S.png"]), {}))
            out.append((tag + " twice", twice(fmt, kind), {}))
        for ks in (["json", "xml"], ["xml", "json"], ["xml", "xml"]):
            out.append(("%s map, same names %s" % (fmt, ks), own_files(fmt, ks), {}))
        for s in SHAPES:
            out.append(("%s standalone, image %s" % (fmt, "/".join(s)), alone(fmt, s, s), {}))
            out.append(("%s embedded, image %s" % (fmt, "/".join(s)), one(fmt, "emb", shape=s, tshape=s), {}))
    return out


def itertools_product(r):
    import itertools

    return itertools.product(("emb", "json", "xml"), repeat=r)
