"""Purity: the scenes of the other properties (maps, tilesets, templates, worlds; good
ones and ones that must be refused), each parsed twice.  In further cases everything in
the results is changed before parsing again, and the new results must equal the old ones
as they were; or the map, its tileset, its template or the template's tileset is
rewritten, or the working directory changed, and the new result must be that of what is
there now.  On the symbolic results: no list, mapping or object is reachable by two
ways, within a result or from both; the results of equal calls are equal; no text
printed, no file written, created or left open at the end of a call, whatever its
outcome.  Outside: objects that cannot be changed (tuples, strings, paths) may be
shared; several threads."""
import importlib

from .base import *
from .c19 import Side

FROM = ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12",
        "c13", "c14", "c15", "c16", "c17", "c18")

# quick: every n-th case of these
STRIDE = dict(c01=3, c02=5, c03=3, c04=3, c05=2, c07=3, c08=2, c14=3, c15=3, c16=3, c17=5, c18=4)


def twice(build0):
    def build(g, sc):
        build0(g, Side(sc))
        n = len(sc.ops)
        for i in range(n):
            sc.op(*sc.ops[i])
        for i in range(n):
            sc.checks.append(("same", n + i, i, ()))
        sc.checks.append(("pure", "quiet"))
        sc.checks.append(("pure", "unshared"))
    return build


def spoiled(build0):
    """Parse, change everything in the results, parse again."""
    def build(g, sc):
        build0(g, Side(sc))
        n = len(sc.ops)
        sc.op("!spoil", None)
        for i in range(n):
            sc.op(*sc.ops[i])
            sc.checks.append(("same", n + 1 + i, i, ()))
    return build


def edition(g, fmt, v, tf, names=None):
    """One edition of a map, its tileset, its template and the template's tileset, in
    unknowns of their own: files by name, and the parts of the expected map."""
    names = names or tf  # what the files are called after
    fg = const(1)
    t = T.tileset(g, "t" + v, tf, firstgid=fg, base=["vfs", "sets"], count=const(4),
                  rich={"name", "spacing", "class"}, pk=["str"], image=["S.png"])
    u = T.tileset(g, "u" + v, tf, firstgid=const(5), base=["vfs", "sets"], count=const(8),
                  rich={"name", "margin"}, name=const("u"), tiles=[
                      T.tile_def(g, "ut" + v, tf, const(1), spelling="class", pk=["int"])])
    f = T.Fields(g, "o" + v, fmt, {"name", "width"})
    nm, w = f.leaf("name", "str"), f.leaf("width", "real")
    gid = g.int("gid" + v, 1, 8)
    for k, lf in (("name", nm), ("width", w), ("height", const(8)), ("rotation", const(0)),
                  ("visible", const(True)), ("gid", gid)):
        f.put(k, lf)
    tpl = T.template(g, fmt, f.node("object", None),
                     T.tileset_ref(g, fmt, const(1), const("../sets/u." + TEXT[names])))
    files = {"tileset": (["sets", "t." + TEXT[names]], doc(tf, t)),
             "template's tileset": (["sets", "u." + TEXT[names]], doc(tf, u)),
             "template": (["templates", "o." + XEXT[fmt]], doc(fmt, tpl))}
    return files, t, u, (nm, w, gid)


def rewritten(fmt, what, tf, relative=False, then=None):
    """Parse, change files, parse again: the second result is that of the new files."""
    def build(g, sc):
        eds = [edition(g, fmt, "a", tf), edition(g, fmt, "b", then or tf, tf)]
        use = {k: 0 for k in ("tileset", "template", "template's tileset", "map")}
        segs = ["maps", "m." + EXT[fmt]]
        path = vpath(segs)
        if relative:
            sc.cwd = ("vfs", "maps")
            path = env.VPath._make(False, segs[1:])

        def current():
            t, u = eds[use["tileset"]][1], eds[use["template's tileset"]][2]
            nm, w, gid = eds[use["template"]][3]
            f = T.Fields(g, "i", fmt, ())
            for k, lf in (("id", const(1)), ("template", const("../templates/o." + XEXT[fmt])),
                          ("x", const(1)), ("y", const(2))):
                f.put(k, lf)
            x = Obj("Tile", id=1, name=nm.exp, size=Tup("Size", w.exp, 8), gid=gid.exp + 4)
            ref = (T.tileset_ref(g, fmt, const(1), const("../sets/t." + TEXT[tf])), const(1), t.exp)
            m = T.tiled_map(g, "m" + "ab"[use["map"]], fmt, path, [T.object_layer(
                g, "l", fmt, [f.node("object", x)])], [ref], rich={"width", "orientation", "class"})
            m.exp.f["tilesets"] = MapX([(1, t.exp, True), (5, u.exp, True)])
            return m

        def alone(v):
            x = T.tileset(g, "t" + "ab"[v], then if v and then else tf, count=const(4), rich={"name", "spacing", "class"},
                          pk=["str"], image=["S.png"]).exp
            x.f["firstgid"] = ANY
            return x

        m = current()
        for s, c in eds[0][0].values():
            sc.file(s, c)
        sc.file(segs, doc(fmt, m))
        sc.expect(sc.op("parse_map", path), m.exp)
        if not relative:
            p = vpath(eds[0][0]["tileset"][0])
            sc.expect(sc.op("parse_tileset", p), alone(0))
        for k in what:
            use[k] = 1
        m = current()
        for k in what:
            if k == "map":
                sc.rewrite(segs, doc(fmt, m))
            else:
                sc.rewrite(*eds[1][0][k])
        sc.expect(sc.op("parse_map", path), m.exp)
        if not relative:
            sc.expect(sc.op("parse_tileset", p), alone(use["tileset"]))
        sc.checks.append(("pure", "quiet"))
        sc.checks.append(("pure", "unshared"))
    return build


def moved(fmt):
    """One relative path, parsed in two working directories."""
    def build(g, sc):
        for k, d in enumerate("ab"):
            fg = const(1)
            t = T.tileset(g, "t" + d, fmt, firstgid=fg, base=["vfs", d], rich={"name", "margin"},
                          image=["S.png"])
            sc.file([d, "t." + TEXT[fmt]], doc(fmt, t))
            p = vpath(["m." + EXT[fmt]], False)
            p = env.VPath._make(False, ["m." + EXT[fmt]])
            m = T.tiled_map(g, "m" + d, fmt, p, [T.object_layer(g, "l" + d, fmt, [
                T.obj(g, "o" + d, fmt, rich={"x"})])],
                [(T.tileset_ref(g, fmt, fg, const("t." + TEXT[fmt])), fg, t.exp)],
                rich={"width", "class"})
            sc.file([d, "m." + EXT[fmt]], doc(fmt, m))
            sc.op("!cd", ["vfs", d])
            sc.expect(sc.op("parse_map", p), m.exp)
    return build


def worlds():
    """A world and its directory change between two parses."""
    def build(g, sc):
        from . import c18

        def text(v):
            e, x = c18.static(g, v, "real", "here", vpath(["worlds"]))
            pe, make = c18.pattern(g, v, "plain", "int", "given", "no")
            w = jobj(("maps", core.SList([e])), ("patterns", core.SList([pe])))
            return json_doc(w), x, make

        names = []
        for v in range(2):
            t, x, y = c18.written(g, "plain", "n%d" % v, (1, 1 + v))
            names.append((mk(t), x, y))
        c1, x1, make1 = text(0)
        c2, x2, make2 = text(1)
        sc.file(["worlds", "w.world"], c1)
        for nm, _, _ in names:
            sc.file(["worlds", nm], "x")
        p = vpath(["worlds", "w.world"])
        for c, x, make in ((None, x1, make1), (c2, x2, make2)):
            if c is not None:
                sc.rewrite(["worlds", "w.world"], c)
            hits = [(True, make(vpath(["worlds"]) / nm, a, b)) for nm, a, b in names]
            sc.expect(sc.op("parse_world", p), Obj("World", only_show_adjacent=False,
                      maps=spec.Pred(c18.in_groups, [x], [hits])))
    return build


CHANGES = (("tileset",), ("template",), ("template's tileset",), ("map",), ("tileset", "template"),
           ("tileset", "template", "template's tileset", "map"))


def cases(tier):
    out = [("world rewritten", worlds(), {})]
    for fmt in FMTS:
        out.append((fmt + " other directory", moved(fmt), {}))
        for tf in FMTS:
            for what in CHANGES:
                out.append(("%s map, %s tilesets, rewritten %s" % (fmt, tf, "+".join(what)),
                            rewritten(fmt, what, tf), {}))
            for what in (("tileset",), ("template's tileset",)):
                out.append(("%s map, %s tilesets, rewritten %s in the other format" % (fmt, tf, what[0]),
                            rewritten(fmt, what, tf, then="xml" if tf == "json" else "json"), {}))
            out.append(("%s map, %s tilesets, rewritten, relative" % (fmt, tf),
                        rewritten(fmt, CHANGES[-1], tf, True), {}))
    for m in FROM:
        for i, (name, build, opt) in enumerate(importlib.import_module("vsx.cases." + m).cases("quick")):
            if tier == "quick" and i % STRIDE.get(m, 1):
                continue
            out.append(("%s: %s" % (m, name), twice(build), {}))
            if tier != "quick" or i // STRIDE.get(m, 1) % 3 == 0:
                out.append(("%s spoiled: %s" % (m, name), spoiled(build), {}))
    return out
