"""Template tile objects: maps with 0-2 (quick) / 0-3 (thorough) tilesets of their own
(embedded, JSON, TSX; first gids 1..2**20, tile counts 0..2**16 and up to 2 tile ids
0..2**16 unknown, ranges disjoint), up to 3 / 4 instances of up to 2 / 3 templates with
a JSON or TSX tileset each, which the map has (once or twice) or has not, under equal or
different unknown names, or with the same name and image and some other difference; gids of the templates 1..2**16 with unknown flip flags; objects
at top level, in other layers and nested in groups; instances with a gid of their own.
Outside: templates whose tileset has a first gid other than 1, gid sums beyond 2**28."""
from .base import *

# what may tell two tilesets of the same name and image apart
TWIN = {"columns", "tilewidth", "tileheight", "spacing", "margin", "class"}
TWIN_DEEP = TWIN | {"tileoffset", "grid", "objectalignment"}
FLIPS = 4  # bits above 2**28


class Set:
    """A tileset kept in a file that templates (and maps) refer to."""

    def __init__(self, g, sc, n, fmt, ntiles=0, name=None, twin=False, dirs=("sets",)):
        self.n, self.fmt, self.dirs = n, fmt, dirs
        self.file = n + "." + TEXT[fmt]
        self.count = g.int(n + ".tc", 0, 2 ** 16)
        base = ["vfs"] + list(dirs)
        self.ids = [g.int("%s.id%d" % (n, i), 0, 2 ** 16) for i in range(ntiles)]
        if len(self.ids) > 1:
            g.distinct(*self.ids)
        tiles = [T.tile_def(g, "%s.t%d" % (n, i), fmt, t, base=base) for i, t in enumerate(self.ids)]
        t = T.tileset(g, n, fmt, firstgid=const(0), base=base,
                      image=["i.png" if twin else "i" + n + ".png"],
                      rich=set(twin or {"columns"}), tiles=tiles, name=name, count=self.count)
        g.add(z3.Bool(n + ".image?"))
        sc.file(list(dirs) + [self.file], doc(fmt, t))
        self.exp = t.exp

    def at(self, firstgid):
        f = dict(self.exp.f)
        f["firstgid"] = firstgid
        return Obj("Tileset", **f)

    def ref(self, up):
        return const("/".join([".."] * up + list(self.dirs) + [self.file]))

    def span(self):
        return span(self.count.exp, [i.exp for i in self.ids])


def span(count, ids):
    e = core.num_expr(count)
    for i in ids:
        k = core.num_expr(i) + 1
        e = z3.If(k > e, k, e)
    return SymInt(core.simp(e))


SymInt = core.SymInt


def own(g, sc, fmt, kind, n, fg, ntiles=0, name=None):
    """A tileset of the map alone: (entry, span)."""
    count = g.int(n + ".tc", 0, 2 ** 16)
    ids = [g.int("%s.id%d" % (n, i), 0, 2 ** 16) for i in range(ntiles)]
    if len(ids) > 1:
        g.distinct(*ids)
    f = fmt if kind == "emb" else kind
    tiles = [T.tile_def(g, "%s.t%d" % (n, i), f, t) for i, t in enumerate(ids)]
    kw = dict(tiles=tiles, count=count, name=name, rich={"columns"})
    if kind == "emb":
        e = embedded(g, fmt, n, fg, **kw)
    else:
        e = external(g, sc, fmt, kind, n, fg, **kw)
    return e, span(count.exp, [i.exp for i in ids])


def check(m, paths, objs, origs, news, exact, out):
    """The tilesets and gids of a parsed map.
    objs: (local gid, "own" | ("map", [first gids]) | ("new", number));
    origs: (first gid, expected tileset, span); news: (expected tileset at first gid 0, span)."""
    d = m.tilesets
    ents = d.ents if type(d) in (core.SDict, core.SObjDict) else [[k, v, True] for k, v in d.items()]
    isold = [core.disj([eq(k, fg) for fg, _, _ in origs]) for k, _, _ in ents]
    for j, (fg, x, _) in enumerate(origs):
        hit = []
        for k, v, p in ents:
            sub = []
            spec.cmp(v, x, "", sub)
            hit.append(core.conj([p, eq(k, fg)] + [c for _, c in sub]))
        out.append(("tileset %d of the map is kept" % j, core.disj(hit)))
    is_new = []
    for j, (x, sp) in enumerate(news):
        row = []
        for (k, v, p), old in zip(ents, isold):
            sub = []
            spec.cmp(v, with_gid(x, k), "", sub)
            row.append(core.conj([p, core.neg(old)] + [c for _, c in sub]))
        is_new.append(row)
        if exact:
            out.append(("tileset %d of the templates is added" % j, core.disj(row)))
            for a in range(len(row)):
                for c in range(a):
                    out.append(("tileset %d of the templates is added once" % j,
                                core.neg(core.conj([row[a], row[c]]))))
    if exact:
        for i, (k, v, p) in enumerate(ents):
            out.append(("no other tileset", core.disj(
                [core.neg(p), isold[i]] + [row[i] for row in is_new])))
    for j, (x, sp) in enumerate(news):
        for i, (k, v, p) in enumerate(ents):
            for fg, _, osp in origs:
                out.append(("gids of template tileset %d are above the map's" % j, core.disj(
                    [core.neg(is_new[j][i]), b(k >= fg + osp)])))
            out.append(("first gid is positive", core.disj([core.neg(is_new[j][i]), b(k >= 1)])))
            for j2 in range(j):
                for i2, (k2, _, _) in enumerate(ents):
                    out.append(("gid ranges of template tilesets %d and %d" % (j, j2), core.disj(
                        [core.neg(is_new[j][i]), core.neg(is_new[j2][i2]),
                         b(k >= k2 + news[j2][1]), b(k2 >= k + sp)])))
    for path, (gid, how) in zip(paths, objs):
        o = m
        for s in path:
            o = getattr(o, s) if isinstance(s, str) else o[s]
        label = "gid of %s" % (path,)
        if how == "own":
            out.append((label, eq(o.gid, gid)))
        elif how[0] == "map":
            out.append((label, core.disj([eq(o.gid, gid + fg - 1) for fg in how[1]])))
        else:
            for i, (k, v, p) in enumerate(ents):
                out.append((label, core.disj([core.neg(is_new[how[1]][i]), eq(o.gid, gid + k - 1)])))


def b(x):
    return core.bexpr(x)


eq = core.eq


def with_gid(x, k):
    f = dict(x.f)
    f["firstgid"] = k
    return Obj("Tileset", **f)


def scene(fmt, sets, own_kinds, has, objs, nest=(), names=None, tiles=(1, 1), tdirs=("templates",),
          twin=None):
    """sets: format of each template tileset; own_kinds: the map's own tilesets;
    has: {set number: times the map refers to it}; objs: (template number, own gid?)."""
    def build(g, sc):
        nm = {None: lambda n: None, "sym": lambda n: g.str(n + ".name", 1, 2),
              "same": lambda n: const("same")}[names]
        ss = [Set(g, sc, "s%d" % i, f, tiles[0], nm("s%d" % i), twin)
              for i, f in enumerate(sets)]
        if twin:
            for i in range(len(ss)):
                for j in range(i):
                    # equal but for something (or their tiles' ids)
                    g.add(core.bexpr(core.mkbool(core.neg(core.conj(
                        [same(ss[i].exp.f[k], ss[j].exp.f[k]) for k in ss[i].exp.f])))))
        entries, origs, where = [], [], {}
        for i, k in enumerate(own_kinds):
            fg = g.int("own%d.fg" % i, 1, 2 ** 20)
            e, sp = own(g, sc, fmt, k, "own%d" % i, fg, tiles[1], nm("own%d" % i))
            entries.append(e)
            origs.append((fg.exp, e[2], sp))
        for i, s in enumerate(ss):
            for r in range(has.get(i, 0)):
                fg = g.int("s%d.fg%d" % (i, r), 1, 2 ** 20)
                x = s.at(fg.exp)
                ent = (T.tileset_ref(g, fmt, fg, s.ref(1)), fg, x)
                # between the others
                entries.insert(i % (len(entries) + 1), ent)
                origs.append((fg.exp, x, s.span()))
                where.setdefault(i, []).append(fg.exp)
        for i in range(len(origs)):
            for j in range(i):
                a, sa = origs[i][0], origs[i][2]
                c, sc2 = origs[j][0], origs[j][2]
                g.add(core.bexpr(eqnot(a, c)))
                g.add(z3.Or(b(a >= c + sc2), b(c >= a + sa)))
        tg = []
        for i, s in enumerate(ss):
            flags = g.int("t%d.flags" % i, 0, 2 ** FLIPS - 1)
            loc = g.int("t%d.gid" % i, 1, 2 ** 16)
            e = core.simp(flags.exp.e * 2 ** 28 + loc.exp.e)
            v = SymInt(e, 0, 32)
            from ..text import IntTxt
            tg.append(Leaf(v, mk([IntTxt(e)]), v))
            f = T.Fields(g, "t%d" % i, fmt, ())
            for k, lf in (("name", const("o")), ("width", const(8)), ("height", const(8)),
                          ("rotation", const(0)), ("visible", const(True)), ("gid", tg[i])):
                f.put(k, lf)
            node = f.node("object", None)
            sc.file(list(tdirs) + ["t%d.%s" % (i, XEXT[fmt])], doc(fmt, T.template(
                g, fmt, node, T.tileset_ref(g, fmt, const(1), s.ref(len(tdirs))))))
        nodes, want, plain = [], [], []
        used = []
        for j, (t, own_gid) in enumerate(objs):
            n = "o%d" % j
            if t is None:
                lf = g.int(n + ".gid", 1, T.U32)
                nodes.append(T.obj(g, n, fmt, "tile", gid=lf, oid=const(j + 1)))
                want.append((lf.exp, "own"))
                continue
            f = T.Fields(g, n, fmt, ())
            f.put("id", const(j + 1))
            f.put("template", const("/".join([".."] + list(tdirs) + ["t%d.%s" % (t, XEXT[fmt])])))
            f.put("x", const(1))
            f.put("y", const(2))
            if own_gid:
                lf = g.int(n + ".gid", 1, T.U32)
                f.put("gid", lf)
                want.append((lf.exp, "own"))
            elif t in where:
                want.append((tg[t].exp, ("map", where[t])))
            else:
                if t not in used:
                    used.append(t)
                want.append((tg[t].exp, ("new", used.index(t))))
            nodes.append(f.node("object", Obj("Tile", id=j + 1, name="o")))
        layers, paths = [], []
        for j, nd in enumerate(nodes):
            how = nest[j] if j < len(nest) else 0
            if how == 0:  # the shared layer
                if not layers or layers[0][0] != 0:
                    layers.insert(0, (0, []))
                    paths = [(p[0], p[1] + 1) + p[2:] for p in paths]
                layers[0][1].append(nd)
                paths.append(("layers", 0, "tiled_objects", len(layers[0][1]) - 1))
            else:
                layers.append((how, [nd]))
                paths.append(("layers", len(layers) - 1) + ("layers", 0) * (how - 1)
                             + ("tiled_objects", 0))
        ls = []
        for k, (how, os) in enumerate(layers):
            l = T.object_layer(g, "l%d" % k, fmt, os)
            for d in range(max(0, how - 1)):
                l = T.group(g, "l%dg%d" % (k, d), fmt, [l])
            ls.append(l)
        i = add_map(g, sc, fmt, ls, entries, more=dict(tilesets=ANY))
        news = [(ss[t].exp, ss[t].span()) for t in used]
        exact = not any(o for _, o in objs)
        sc.expect(i, spec.Pred(check, paths, want, origs, news, exact))
    return build


def same(a, c):
    """Whether two expected values are equal."""
    if a is c:
        return True
    if isinstance(a, spec.Alt) or isinstance(c, spec.Alt):
        return core.disj([core.conj([p, q, same(x, y)]) for p, x in alts(a) for q, y in alts(c)])
    if isinstance(a, Tup) and isinstance(c, Tup):
        return core.conj([same(x, y) for x, y in zip(a.items, c.items)])
    if isinstance(a, Obj) and isinstance(c, Obj):
        return core.conj([same(a.f[k], c.f[k]) for k in a.f])
    if issubclass(type(a), spec.X) or issubclass(type(c), spec.X):
        return type(a) is type(c)
    return eq(a, c)


def alts(x):
    return x.alts if isinstance(x, spec.Alt) else [(True, x)]


def eqnot(a, c):
    return core.mkbool(core.neg(eq(a, c)))


def cases(tier):
    out = []
    deep = tier == "thorough"
    tw = TWIN_DEEP if deep else TWIN
    for fmt in FMTS:
        def add(name, *a, **k):
            out.append(("%s %s" % (fmt, name), scene(fmt, *a, **k), {}))
        for sf in FMTS:
            one = [(0, False)]
            add("%s set, empty map" % sf, [sf], [], {}, one)
            add("%s set, embedded beside" % sf, [sf], ["emb"], {}, one)
            add("%s set, two beside" % sf, [sf], ["json", "xml"], {}, one)
            add("%s set, already there" % sf, [sf], [], {0: 1}, one)
            add("%s set, there among others" % sf, [sf], ["emb", "xml"], {0: 1}, one)
            add("%s set, there twice" % sf, [sf], [], {0: 2}, one)
            add("%s set, names unknown" % sf, [sf], ["emb", "xml"], {}, one, names="sym")
            add("%s set, names unknown, there" % sf, [sf], ["json"], {0: 1}, one, names="sym")
            add("%s set, same names" % sf, [sf], ["json", "emb"], {}, one, names="same")
            add("%s set, twice" % sf, [sf], ["emb"], {}, [(0, False), (0, False)])
            add("%s set, two layers" % sf, [sf], ["emb"], {}, [(0, False), (0, False)], nest=(0, 1))
            add("%s set, in a group" % sf, [sf], ["emb"], {}, one, nest=(2,))
            add("%s set, in nested groups and out" % sf, [sf], ["xml"], {}, [(0, False), (0, False)], nest=(3, 0))
            add("%s set, there, in a group" % sf, [sf], [], {0: 1}, one, nest=(2,))
            add("%s set, own gid" % sf, [sf], ["emb"], {}, [(0, True)])
            add("%s set, own gid and not" % sf, [sf], ["emb"], {}, [(0, True), (0, False), (0, True)])
            add("%s set, own gid, there" % sf, [sf], [], {0: 1}, [(0, True), (0, False)])
            add("%s set, plain beside" % sf, [sf], ["emb"], {}, [(None, False), (0, False), (None, False)])
            add("%s set, tiles beyond the count" % sf, [sf], ["emb"], {}, one, tiles=(2, 2))
            add("%s set, no tiles listed" % sf, [sf], ["emb"], {}, [(0, False), (0, False)], tiles=(0, 0))
            for sf2 in FMTS:
                two = [(0, False), (1, False)]
                add("%s and %s sets" % (sf, sf2), [sf, sf2], ["emb"], {}, two)
                add("%s and %s sets, same names" % (sf, sf2), [sf, sf2], [], {}, two, names="same")
                add("%s and %s sets, twins" % (sf, sf2), [sf, sf2], [], {}, two, names="same", twin=tw, tiles=(0, 0))
                add("%s and %s sets, twin there" % (sf, sf2), [sf, sf2], [], {1: 1}, one, names="same", twin=tw,
                    tiles=(0, 0))
                add("%s and %s sets, twins there" % (sf, sf2), [sf, sf2], [], {0: 1, 1: 1}, two, names="same", twin=tw,
                    tiles=(0, 0))
                add("%s and %s sets, one there" % (sf, sf2), [sf, sf2], ["emb"], {1: 1}, two)
                add("%s and %s sets, mixed" % (sf, sf2), [sf, sf2], ["emb"], {0: 1},
                    [(1, False), (0, False), (1, False)], nest=(0, 2, 1))
            add("%s set, many" % sf, [sf, "json"], ["emb"], {1: 1},
                [(0, False), (None, False), (1, False), (0, False), (1, False), (None, False), (0, False),
                 (1, False), (0, False)], nest=(0, 0, 0, 0, 0, 2, 1, 3, 0), tiles=(0, 0))
        add("templates in the map's directory", ["json"], [], {}, [(0, False)], tdirs=("maps",))
        if deep:
            import itertools
            for sf in itertools.product(FMTS, repeat=3):
                for ks in ([], ["emb"], ["json", "emb", "xml"]):
                    for has in ({}, {1: 1}, {0: 1, 2: 1}):
                        for k, (os, nest) in enumerate((
                                ([(0, False), (1, False), (2, False)], (0, 2, 3)),
                                ([(2, False), (1, True), (0, False), (2, False)], (2, 0, 1, 0)))):
                            add("sets %s, own %s, has %s, pattern %d" % ("+".join(sf), "+".join(ks), sorted(has), k),
                                list(sf), ks, has, os, nest=nest, names=("sym", "same", None)[(len(ks) + k) % 3],
                                tiles=(1, len(has)))
    return out
