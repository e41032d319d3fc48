"""Colours: every spelling of 6 and 8 hexadecimal digits (each unknown, each letter in
either case), with and without #, at eight places (map and tileset background, layer
tint, image layer and tileset transparent colour, text, wang colour, colour property);
and every string of 0-10 characters, each unknown over the hexadecimal digits and 21
others (#+-_ xXgGzZ/:@` and non-ASCII digits), that is not such a colour.
Outside: other characters; an empty colour property."""
from .base import *

SITES = ("map", "tint", "imagetrans", "text", "prop", "tsbg", "tstrans", "wang")


def color_leaf(g, n, alpha, hash_):
    return g.color(n, alpha=alpha, hash_=hash_, case="any")


def put(g, sc, fmt, site, leaf, ok=None):
    """A map whose colour at `site` is `leaf`; result refused when ok is a condition."""
    x = leaf.exp

    class One:
        """Generator that answers the colour asked for."""

        def __init__(self):
            self.g = g

        def __getattr__(self, k):
            return getattr(g, k)

        def color(self, name, **k):
            return leaf

    h = One()
    layers, tilesets, kw = [], [], {}
    if site == "map":
        kw["rich"] = {"backgroundcolor"}
    elif site == "tint":
        layers = [T.object_layer(h, "l", fmt, rich={"tintcolor"})]
    elif site == "imagetrans":
        layers = [T.image_layer(h, "l", fmt, rich={"trans"})]
    elif site == "text":
        layers = [T.object_layer(h, "l", fmt, [T.obj(h, "o", fmt, "text", rich={"text.color"})])]
    elif site == "prop":
        kw["pk"] = ["color"]
    elif site in ("tsbg", "tstrans", "wang"):
        fg = const(1)
        tk = {}
        if site == "tsbg":
            tk["rich"] = {"backgroundcolor"}
        elif site == "tstrans":
            tk["rich"] = {"transparentcolor"}
            tk["image"] = ["a.png"]
        else:
            tk["wangs"] = [T.wang_set(h, "w", fmt, [T.wang_color(h, "wc", fmt, rich={"color"})])]
        tilesets = [embedded(h, fmt, "t", fg, **tk)]
    segs = ["maps", "m." + EXT[fmt]]
    p = vpath(segs)
    m = T.tiled_map(h, "m", fmt, p, layers, tilesets, **kw)
    sc.file(segs, doc(fmt, m))
    i = sc.op("parse_map", p)
    return i, m.exp


def good(fmt, site, alpha, hash_):
    def build(g, sc):
        leaf = color_leaf(g, "c", alpha, hash_)
        i, x = put(g, sc, fmt, site, leaf)
        sc.expect(i, x)
    return build


DIGITS = "0123456789abcdefABCDEF"
# characters int(.., 16) or a lax reader might take, and plain ones
ODD = "#+-_ xXgGzZ/:@`\u0661\uff11\u00b2"


def bad(fmt, site, n):
    """n arbitrary characters that do not spell a colour."""
    def build(g, sc):
        cs, valid = [], []
        for i in range(n):
            v = z3.Int("c%d" % i)
            dom = frozenset(ord(c) for c in DIGITS + ODD)
            g.add(z3.Or(*[v == o for o in sorted(dom)]))
            cs.append(Ch(v, dom))
            valid.append(z3.Or(*[v == ord(c) for c in DIGITS]))
        t = mk(cs)
        leaf = Leaf(t, t, Tup("Color", 0, 0, 0, 0))
        hashed = cs and (cs[0].code == ord("#"))
        forms = []
        if n in (6, 8):
            forms.append(z3.And(*valid))
        if n in (7, 9):
            forms.append(z3.And(hashed, *valid[1:]))
        for f in forms:
            g.add(z3.Not(f))
        if not n:
            leaf = Leaf("", "", leaf.exp)
        present = {"map": "m.bg?", "tint": "l.tint?", "imagetrans": "l.trans?",
                   "text": "o.text.color?", "prop": "m.props?", "tsbg": "t.bg?"}.get(site)
        if present:
            g.add(z3.Bool(present))
        if site == "tstrans":
            g.add(z3.And(z3.Bool("t.image?"), z3.Bool("t.tr?")))
        i, _ = put(g, sc, fmt, site, leaf)
        sc.expect(i, Raises())
    return build


def cases(tier):
    out = []
    for fmt in FMTS:
        for site in SITES:
            for alpha in (False, True):
                for hash_ in (True, False):
                    out.append(("%s %s alpha=%d hash=%d" % (fmt, site, alpha, hash_),
                                good(fmt, site, alpha, hash_), {}))
        for site in SITES:
            for n in range(0, 11):
                # every length at one place, the close ones everywhere
                if site == "map" or n in (5, 6, 7, 8, 9) and tier == "thorough" or n in (6, 7):
                    if n == 0 and site != "map":
                        continue
                    out.append(("%s %s malformed, %d characters" % (fmt, site, n),
                                bad(fmt, site, n), {}))
    return out
