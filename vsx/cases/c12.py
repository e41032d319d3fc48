"""Wang sets: 0-2 sets of 0-3 colours and 0-4 tiles, every attribute, colour and colour
index unknown, present or absent, with properties; standalone, embedded and external in
either format; beside tiles, properties and layers of every kind."""
from .base import *


def build_for(fmt, sets, mode="alone", sep=","):
    """sets: list of (colours, tiles, rich, property kinds)."""
    def build(g, sc):
        tf = fmt if mode in ("alone", "embedded") else mode
        ws = []
        for i, (nc, nt, rich, pk) in enumerate(sets):
            n = "w%d" % i
            cs = [T.wang_color(g, "%s.c%d" % (n, k), tf, rich=rich, pk=pk) for k in range(nc)]
            ws.append(T.wang_set(g, n, tf, cs, nt, rich=rich, pk=pk, sep=sep))
        if mode == "alone":
            add_tileset(g, sc, fmt, wangs=ws)
        else:
            fg = const(1)
            ts = embedded(g, fmt, "t", fg, wangs=ws) if mode == "embedded" else \
                external(g, sc, fmt, tf, "t", fg, wangs=ws)
            add_map(g, sc, fmt, [], [ts])
    return build


def full(fmt, mode):
    """Wang sets beside everything else a tileset may hold."""
    def build(g, sc):
        tf = fmt if mode in ("alone", "embedded") else mode
        ws = [T.wang_set(g, "w", tf, [T.wang_color(g, "w.c%d" % k, tf, rich=True, pk=["str"]) for k in range(2)],
                         1, rich=True, pk=["bool"])]
        kw = full_parts(g, "p", tf, ["vfs", "sets"] if mode in FMTS else None)
        kw["wangs"] = ws + kw["wangs"]
        kw.update(rich={"name", "spacing", "tileoffset"}, image=["S.png"])
        if mode == "alone":
            return add_tileset(g, sc, fmt, **kw)
        fg = g.int("fg", 1, 2 ** 20)
        ts = embedded(g, fmt, "t", fg, **kw) if mode == "embedded" else external(g, sc, fmt, tf, "t", fg, **kw)
        add_map(g, sc, fmt, full_layers(g, "l", fmt, False), [ts])
    return build


def cases(tier):
    out = []
    P = ["str", "bool", "int"]
    for fmt in FMTS:
        out.append(("%s one set" % fmt, build_for(fmt, [(1, 1, True, P)]), {}))
        out.append(("%s opaque colours" % fmt, build_for(fmt, [(2, 1, {"color", "name"}, None)]), {}))
        out.append(("%s two tiles" % fmt, build_for(fmt, [(2, 2, {"tiles"}, None)]), {}))
        out.append(("%s two sets" % fmt, build_for(fmt, [(2, 1, True, None), (0, 1, True, None)]), {}))
        out.append(("%s empty set" % fmt, build_for(fmt, [(0, 0, {"name"}, None)]), {}))
        out.append(("%s no sets" % fmt, build_for(fmt, []), {}))
        out.append(("%s embedded" % fmt, build_for(fmt, [(1, 1, True, P)], "embedded"), {}))
        out.append(("%s many colours and tiles" % fmt, build_for(fmt, [(24, 24, {"name"}, None)]), {}))
        out.append(("%s many sets" % fmt, build_for(fmt, [(1, 1, {"name"}, None)] * 14), {}))
        for tf in ("alone", "embedded") + FMTS:
            out.append(("%s %s with everything" % (fmt, tf), full(fmt, tf), {}))
        for tf in FMTS:
            out.append(("%s map, %s tileset" % (fmt, tf), build_for(fmt, [(1, 1, True, P)], tf), {}))
        if tier == "thorough":
            for nc in range(4):
                for nt in range(5):
                    out.append(("%s %d colours %d tiles" % (fmt, nc, nt),
                                build_for(fmt, [(nc, nt, True, None), (nc, nt, True, None)]), {}))
    out.append(("xml spaced indexes", build_for("xml", [(1, 2, {"tiles"}, None)], sep=", "), {}))
    return out
