"""Shared pieces of the cases."""
import z3

from .. import core, env, spec, tiled as T
from ..spec import (Leaf, Opt, Node, Obj, Tup, ListX, MapX, Alt, EMPTY, ANY, Strict, Raises,
                    const, exp, jobj, xel, json_doc, xml_doc, bad_doc)
from ..text import mk, Ch, Byte, parts_of

FMTS = ("json", "xml")
EXT = {"json": "json", "xml": "tmx"}
TEXT = {"json": "json", "xml": "tsx"}
XEXT = {"json": "json", "xml": "tx"}
WORDS = ("b64", "zlib", "gzip")


def doc(fmt, node, prefix="", indent=None, decl=True):
    if fmt == "json":
        return json_doc(node.json, prefix, indent)
    return xml_doc(node.xml, prefix, decl and not prefix)


def vpath(segs, absolute=True):
    return env.VPath._make(absolute, (["vfs"] if absolute else []) + list(segs))


def add_map(g, sc, fmt, layers=(), tilesets=(), segs=None, n="m", prefix="", relative=False,
            more=(), **kw):
    """Store a map, parse it, expect what it holds (more: fields to expect instead).
    Returns the call's number."""
    segs = segs or ["maps", n + "." + EXT[fmt]]
    p = vpath(segs)
    if relative:
        p = vpath(segs, False)
    m = T.tiled_map(g, n, fmt, p, layers, tilesets, **kw)
    sc.file(env.normalise(list(segs)), doc(fmt, m, prefix))
    m.exp.f.update(more)
    i = sc.op("parse_map", p)
    sc.expect(i, m.exp)
    return i


def add_tileset(g, sc, fmt, segs=None, n="ts", prefix="", **kw):
    """A tileset parsed on its own."""
    segs = segs or ["sets", n + "." + TEXT[fmt]]
    t = T.tileset(g, n, fmt, **kw)
    p = sc.file(segs, doc(fmt, t, prefix))
    sc.call("parse_tileset", p, t.exp)
    return t


def embedded(g, fmt, n, firstgid, **kw):
    """Entry of a map's tileset list: an embedded definition."""
    t = T.tileset(g, n, fmt, firstgid=firstgid, embedded=True, **kw)
    return (t, firstgid, t.exp)


def external(g, sc, fmt, tfmt, n, firstgid, dirs=("sets",), mapdir=("maps",), **kw):
    """Entry of a map's tileset list naming a file (in format tfmt) in another directory."""
    name = n + "." + TEXT[tfmt]
    t = T.tileset(g, n, tfmt, firstgid=firstgid, base=["vfs"] + list(dirs), **kw)
    sc.file(list(dirs) + [name], doc(tfmt, t))
    up = [".."] * len(mapdir) + list(dirs)
    if list(dirs[:len(mapdir)]) == list(mapdir):
        up = list(dirs[len(mapdir):])
    src = const("/".join(up + [name]))
    return (T.tileset_ref(g, fmt, firstgid, src), firstgid, t.exp)


def one_map(fmt, make_layers, **kw):
    """Case body: a map with the layers make_layers(g, sc) returns."""
    def build(g, sc):
        add_map(g, sc, fmt, make_layers(g, sc), **kw)
    return build


def full_parts(g, n, fmt, base=None):
    """Something of everything a tileset may hold: keywords for T.tileset."""
    tiles = [
        T.tile_def(g, n + ".ta", fmt, const(2), rich=True, spelling="both", frames=2, pk=["int"],
                   image=["S.png"], base=base),
        T.tile_def(g, n + ".tb", fmt, const(0), collision=T.object_layer(
            g, n + ".co", fmt, [T.obj(g, n + ".coo", fmt, "polygon", rich={"id", "x", "rotation"})]),
            base=base)]
    wangs = [T.wang_set(g, n + ".w", fmt, [T.wang_color(g, n + ".wc", fmt, rich={"name", "color"})], 1,
                        rich={"name", "tile"})]
    return dict(tiles=tiles, wangs=wangs, pk=["str", "bool"])


def full_layers(g, n, fmt, rich=True):
    """A layer of every kind, each with attributes, properties and contents."""
    enc = "plain" if fmt == "json" else "csv"
    small = {"id", "name", "visible", "offsetx", "opacity", "class"} if rich is not True else True
    obs = [T.obj(g, n + ".oa", fmt, "tile", rich={"id", "x", "y", "width", "visible", "name"}, spelling="class"),
           T.obj(g, n + ".ob", fmt, "text", rich={"id", "bold", "wrap", "color"}, pk=["str"]),
           T.obj(g, n + ".oc", fmt, "polyline", rich={"height", "rotation"})]
    return [
        T.tile_layer(g, n + ".t", fmt, 2, 1, enc, rich=small, pk=["int"]),
        T.group(g, n + ".g", fmt, [
            T.object_layer(g, n + ".o", fmt, obs, rich=small, pk=["bool"]),
            T.image_layer(g, n + ".i", fmt, rich=small, pk=["str"]),
        ], rich=small, pk=["float"])]


def simple_layers(g, fmt, n="p"):
    return [T.tile_layer(g, n, fmt, 1, 1, enc="plain" if fmt == "json" else "csv")]
