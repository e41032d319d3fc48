"""Text and the locale: scenes of the other properties (layers, custom properties, objects, text
objects, tilesets, tiles, wang sets, maps, templates and their tilesets, worlds; JSON
and TMX, standalone, embedded and external) with every text of up to 12 characters out
of U+0020-U+007E and U+00A1-U+00FF, or of up to 12 of these and one more out of U+0020-U+2FFFF
(without U+007F-U+00A0, surrogates, U+FFFE and U+FFFF), in a process whose locale
encoding is unknown: UTF-8 or ASCII.
Outside: file names beyond ASCII (an ASCII file system encoding has none), locales
with other encodings, XML files that declare another encoding, byte-order marks."""
import importlib

from .base import *
from .c18 import wm


def located(build0, wide=False):
    def build(g, sc):
        sc.utf8 = z3.Bool("utf8 locale")
        g.wide = wide
        build0(g, sc)
    return build


def world(n):
    def build(g, sc):
        g.wide = True
        ms, xs = [], []
        base = vpath(["worlds"])
        for i in range(n):
            cs = [g.char("c%d" % i), g.char("d%d" % i)]
            g.add(z3.And(*[c.code > 0x7e for c in cs]))
            d, f = (mk(list(parts_of(g.seg("%s%d" % (k, i)))) + [c]) for k, c in zip("df", cs))
            lf = g.path([d, f])
            ms.append(jobj(("fileName", lf), ("height", const(1)), ("width", const(2)),
                           ("x", const(3)), ("y", const(4))))
            xs.append(wm(base / lf.exp, 2, 1, 3, 4))
        sc.utf8 = z3.Bool("utf8 locale")
        p = sc.file(["worlds", "w.world"], json_doc(jobj(("maps", core.SList(ms)))))
        sc.call("parse_world", p, Obj("World", maps=ListX(xs)))
    return build


FROM = {  # of which cases (quick)
    "c06": lambda n: "every" in n,
    "c07": lambda n: True,
    "c05": lambda n: "every kind" in n or "text elements" in n,
    "c08": lambda n: "every" in n or "all" in n,
    "c09": lambda n: True,
    "c10": lambda n: True,
    "c11": lambda n: "class" in n or "every" in n,
    "c12": lambda n: True,
    "c13": lambda n: True,
    "c14": lambda n: True,
    "c15": lambda n: True,
    "c17": lambda n: ", 0 blanks" in n or ", 1 blanks" in n,
}
SOME = {"c07": 10, "c10": 4, "c11": 4, "c14": 10, "c15": 4}


def cases(tier):
    out = []
    deep = tier == "thorough"
    for n in range(4 if deep else 3):
        out.append(("world of %d maps" % n, world(n), {}))
    for m, want in FROM.items():
        k = j = 0
        for name, build, opt in importlib.import_module("vsx.cases." + m).cases("quick"):
            if not deep and not want(name):
                continue
            k += 1
            if deep or (k % SOME[m] == 1 if m in SOME else True):
                j += 1
                for wide in (False, True) if deep else (j % 2 == 0,):
                    out.append(("%s%s: %s" % (m, " wide" if wide else "", name), located(build, wide), {}))
    return out
