"""Detection of the format: every document kind (map, standalone tileset, a map's
external tileset, object template, a template's tileset), in every combination of
formats, preceded by 0-6 (quick) / 0-16 (thorough) characters each an unknown blank
(space, tab, line feed, carriage return) or by 20 lines, 100 spaces, 3000 lines (9000
blanks) and an unknown blank, under names ending in .json .tmx .tsx .tx
.xml or nothing whatever the content; and the same places holding text that is not a
document: an unknown first character (any of U+0020-U+007E) after the blanks, files
cut short, files with an unknown byte that starts no UTF-8 character in any of 6 places, empty files and files of blanks.
Outside: byte-order marks, an XML declaration after blanks (not well-formed), other
encodings than UTF-8."""
from .base import *

BLANK = " \t\n\r"


LONG = {"20 lines": "\n" * 20, "100 spaces": " " * 100, "3000 lines": "\r\n" * 3000,
        "9000 blanks": " \t\n" * 3000}


def blanks(g, n, name="ws"):
    if n in LONG:
        return [LONG[n]] + blanks(g, 1, name)
    cs = []
    for i in range(n):
        v = z3.Int("%s%d" % (name, i))
        dom = frozenset(map(ord, BLANK))
        g.add(z3.Or(*[v == o for o in sorted(dom)]))
        cs.append(Ch(v, dom))
    return cs


def simple_map(g, fmt, n="m", **kw):
    return T.tiled_map(g, n, fmt, None, [T.object_layer(g, "l", fmt, [T.obj(g, "o", fmt, rich={"x"})])],
                       rich={"width", "class"}, **kw)


class Place:
    """Where the document under test stands: stores everything else around it and
    makes the call; content(kind, format) gives the text."""

    def __init__(self, g, sc, fmt):
        self.g, self.sc, self.fmt = g, sc, fmt

    def run(self, where, inner, prefix, bad=None, ext=None):
        g, sc, fmt = self.g, self.sc, self.fmt
        inner = inner or fmt

        def text(node):
            if bad is not None:
                return bad(prefix)
            return doc(inner, node, mk(list(prefix)), decl=False)

        if where == "map":
            segs = ["maps", "m" + (ext if ext is not None else "." + EXT[fmt])]
            p = vpath(segs)
            m = T.tiled_map(g, "m", fmt, p, [T.object_layer(g, "l", fmt, [T.obj(g, "o", fmt, rich={"x"})])],
                            rich={"width", "class"})
            sc.file(segs, text(m))
            return sc.op("parse_map", p), m.exp
        if where == "tileset":
            t = T.tileset(g, "t", fmt, rich={"name", "columns"})
            p = sc.file(["sets", "t" + (ext if ext is not None else "." + TEXT[fmt])], text(t))
            return sc.op("parse_tileset", p), t.exp
        if where == "external":
            fg = g.int("fg", 1, 2 ** 20)
            t = T.tileset(g, "t", inner, firstgid=fg, base=["vfs", "sets"], rich={"name", "columns"})
            name = "t" + (ext if ext is not None else "." + TEXT[inner])
            sc.file(["sets", name], text(t))
            ref = (T.tileset_ref(g, fmt, fg, const("../sets/" + name)), fg, t.exp)
            return self.map([], [ref])
        if where == "template":
            f = T.Fields(g, "t", fmt, {"name"})
            nm = f.leaf("name", "str")
            for k, lf in (("name", nm), ("width", const(8)), ("height", const(8)),
                          ("rotation", const(0)), ("visible", const(True))):
                f.put(k, lf)
            name = "t" + (ext if ext is not None else "." + XEXT[fmt])
            sc.file(["templates", name], text(T.template(g, fmt, f.node("object", None))))
            return self.map([self.instance(name, Obj("Rectangle", id=1, name=nm.exp))], [])
        assert where == "template tileset"
        t = T.tileset(g, "t", inner, base=["vfs", "sets"], rich={"name", "columns"})
        name = "t" + (ext if ext is not None else "." + TEXT[inner])
        sc.file(["sets", name], text(t))
        f = T.Fields(g, "t", fmt, {})
        for k, lf in (("name", const("o")), ("width", const(8)), ("height", const(8)),
                      ("rotation", const(0)), ("visible", const(True)), ("gid", const(2))):
            f.put(k, lf)
        sc.file(["templates", "t." + XEXT[fmt]], doc(fmt, T.template(
            g, fmt, f.node("object", None), T.tileset_ref(g, fmt, const(1), const("../sets/" + name)))))
        x = Obj("Tileset", **{k: v for k, v in t.exp.f.items()})
        x.f["firstgid"] = 1
        i, m = self.map([self.instance("t." + XEXT[fmt], Obj("Tile", id=1, gid=2))], [])
        m.f["tilesets"] = MapX([(1, x, True)])
        return i, m

    def instance(self, name, x):
        f = T.Fields(self.g, "i", self.fmt, ())
        for k, lf in (("id", const(1)), ("template", const("../templates/" + name)),
                      ("x", const(1)), ("y", const(2))):
            f.put(k, lf)
        return f.node("object", x)

    def map(self, objects, tilesets):
        g, sc, fmt = self.g, self.sc, self.fmt
        p = vpath(["maps", "m." + EXT[fmt]])
        m = T.tiled_map(g, "m", fmt, p, [T.object_layer(g, "l", fmt, objects)], tilesets)
        sc.file(["maps", "m." + EXT[fmt]], doc(fmt, m))
        return sc.op("parse_map", p), m.exp


def good(fmt, where, inner, n, ext=None):
    def build(g, sc):
        i, x = Place(g, sc, fmt).run(where, inner, blanks(g, n), None, ext)
        sc.expect(i, x)
    return build


def refused(fmt, where, n, kind, ext=None):
    def build(g, sc):
        want = Raises(("UnknownFormat",))

        def content(prefix):
            if kind == "char":
                v = z3.Int("c")
                g.add(z3.And(v >= 32, v <= 126))
                nonlocal want
                want = Alt([(v == ord("<"), Raises()), (v != ord("<"), want)])
                return bad_doc("}", "{", mk(list(prefix) + [Ch(v)]))
            if kind == "":
                return mk(list(prefix)) if prefix else ""
            if kind.startswith("byte"):
                # a byte that starts no character, after what the kind says
                v = z3.Int("b")
                g.add(z3.And(v >= 0xdc80, v <= 0xdcff, z3.Or(v < 0xdcc2, v > 0xdcf4)))
                if kind[4:5] == "<":
                    want = Raises()
                return mk(list(prefix) + ([kind[4:]] if kind[4:] else []) + [Byte(v), "PNG"])
            return mk(list(prefix) + [kind])

        i, _ = Place(g, sc, fmt).run(where, None, blanks(g, n), content, ext)
        sc.expect(i, want)
    return build


WHERE = ("map", "tileset", "external", "template", "template tileset")
CUT = ("{", "[1, 2", '{"type": "map",', "nul", "// {}", "}", "'a'")


def cases(tier):
    out = []
    deep = tier == "thorough"
    lens = range(17) if deep else (0, 1, 2, 3, 6)
    for fmt in FMTS:
        for w in WHERE:
            two = w in ("external", "template tileset")
            for inner in (FMTS if two else (fmt,)):
                tag = "%s %s%s" % (fmt, w, " in " + inner if two else "")
                for n in lens:
                    out.append(("%s, %d blanks" % (tag, n), good(fmt, w, inner, n), {}))
                for n in list(LONG)[:4 if deep else 3]:
                    out.append(("%s, %s and a blank" % (tag, n), good(fmt, w, inner, n), {}))
                for e in (".json", ".tmx", ".tsx", ".tx", ".xml", ""):
                    out.append(("%s, called *%s" % (tag, e), good(fmt, w, inner, 1 if deep else 0, e), {}))
            if w in ("map", "tileset") and fmt == "xml":
                continue  # the same as for json: nothing else is in play
            for n in (range(7) if deep else (0, 2)):
                out.append(("%s %s, unknown character after %d blanks" % (fmt, w, n),
                            refused(fmt, w, n, "char"), {}))
                out.append(("%s %s, only %d blanks" % (fmt, w, n), refused(fmt, w, n, ""), {}))
            for c in CUT:
                out.append(("%s %s holding %s" % (fmt, w, c), refused(fmt, w, 1, c), {}))
            for c in ("", "{", '{"type": "map", "name": "', "x\n\n", "<", "<map>\n"):
                for n in (0, 2) if deep else (0,):
                    out.append(("%s %s, %d blanks, %r and a stray byte" % (fmt, w, n, c),
                                refused(fmt, w, n, "byte" + c), {}))
            for e in (".tmx", ".tsx", ".tx", ".xml", ".json"):
                out.append(("%s %s called *%s, no document" % (fmt, w, e),
                            refused(fmt, w, 0, "char", e), {}))
    return out
