"""Template instances: for every shape, each of name, class, width, height, rotation,
visible, properties and the shape's own data unknown in the template and given or left
out, with unknown values, by the instance; properties under names only one or both of
them have, of different types, as lists (also empty ones) or legacy mappings; up to 3 (quick) / 4 (thorough) instances of up to 2
templates in any order, among plain objects, in one or several object layers, nested
in groups; polygons of 1-4 points; text objects with every attribute.
Outside: templates inside a tileset's collision objects (refused by the library), a
template naming the class by one key (`type`) and the instance by the other, object
templates whose instances change the kind of shape."""
from .base import *


def props2(g, n, fmt, tk, ik, inst=True):
    """Properties of template and instance: lists of (name, kind); with the first
    element "legacy" a JSON mapping of names to values."""
    def side(tag, kinds):
        if kinds is None:
            return None, {}
        old = kinds[:1] == ["legacy"]
        kinds = kinds[old:]
        p = z3.Bool("%s.%s.props?" % (n, tag))
        items, vals, raw = [], {}, {}
        for name, kind in kinds:
            nm = "%s.%s.%s" % (n, tag, name)
            v = {"str": g.str, "int": g.int, "bool": g.pbool, "float": g.real}[kind](nm)
            ty = {"str": "string"}.get(kind, kind)
            q = z3.Bool(nm + "?")
            e = [("name", const(name)), ("type", const(ty)), ("value", v)]
            items.append((q, jobj(*e) if fmt == "json" else xel("property", *e)))
            vals[name] = (z3.And(p, q), v.exp)
            raw[name] = v
        if fmt == "json":
            # a JSON list has no optional items: all of them, when there are any
            for q, _ in items:
                g.add(q)
            part = core.SList([x for _, x in items])
            if old:
                part = spec.SDict([[k, v.json if hasattr(v, "json") else v, True] for k, v in raw.items()])
            part = Leaf(part, None, None)
        else:
            part = Node(xml=xel("properties", kids=[Opt(q, Node(xml=x)) for q, x in items]))
        return Opt(p, part), vals

    tp, tv = side("t", tk)
    ip, iv = side("i", ik)
    ents = []
    for name in sorted(set(tv) | set(iv)):
        pt, vt = tv.get(name, (False, None))
        pi, vi = iv.get(name, (False, None))
        if pi is False:
            ents.append((name, vt, pt))
        elif pt is False:
            ents.append((name, vi, pi))
        else:
            ents.append((name, spec.merge_x(pi, vi, vt), z3.Or(pi, pt)))
    return tp, ip, MapX(ents, strict=True)


TK = [("a", "str"), ("b", "int")]
IK = [("b", "int"), ("c", "bool")]
LTK, LIK = ["legacy"] + TK, ["legacy"] + IK
IK2 = [("b", "str"), ("a", "float")]


class Tpl:
    """A template document's object: remembers its leaves."""

    def __init__(self, g, n, fmt, kind, spelling=None, pk=TK, ids=True, npoints=2):
        self.fmt, self.kind, self.spelling, self.pk, self.n = fmt, kind, spelling, pk, n
        f = self.f = T.Fields(g, n, fmt, True)
        json = fmt == "json"
        self.v = {}
        if ids:
            for k, kd in (("id", "int"), ("x", "real"), ("y", "real")):
                lf = f.leaf(k, kd) if kd == "real" else f.leaf(k, kd, lo=0)
                f.put(k, Opt(z3.Bool("%s.%s?" % (n, k)), lf))
        for k, kd, d in ATTRS:
            if k in ("type", "class") and k != spelling:
                continue
            lf = f.leaf(k, kd)
            if g.paired and k not in ("type", "class"):
                # JSON always stores it: the same as leaving it out in TMX
                g.add(z3.Or(z3.Bool("%s.%s?" % (n, k)), core.eq(lf.exp, d)))
            if not json or k in ("type", "class"):
                lf = Opt(z3.Bool("%s.%s?" % (n, k)), lf)
            f.put(k, lf)
            self.v[k] = exp(lf, d)
        self.props = None
        if kind == "tile":
            f.put("gid", g.int(n + ".gid", 1, 2 ** 20))
        self.shape = T.shape_part(f, g, n, fmt, kind, npoints, TEXTRICH)
        if pk is not None:
            tp, _, x = props2(g, n, fmt, pk, None)
            self.props = x
            f.put("properties", tp) if json else f.kid(tp)

    def node(self):
        return self.f.node("object", None)


ATTRS = [("name", "str", ""), ("type", "str", ""), ("class", "str", ""), ("width", "real", 0),
         ("height", "real", 0), ("rotation", "real", 0), ("visible", "bool", True)]
TEXTRICH = {"text." + k for k in ("text", "color", "fontfamily", "pixelsize", "bold", "halign",
                                  "valign", "wrap", "kerning", "italic")}


def inst(g, n, t, ref, ik=IK, over=True, npoints=3):
    """An instance of template t: (node)."""
    fmt = t.fmt
    f = T.Fields(g, n, fmt, True)
    i = f.leaf("id", "int", lo=0)
    f.put("id", i)
    f.put("template", ref)
    x_, y_ = f.leaf("x", "real"), f.leaf("y", "real")
    f.put("x", x_)
    f.put("y", y_)
    v = dict(t.v)
    if over:
        for k in t.v:
            kd, d = next((kd, d) for a, kd, d in ATTRS if a == k)
            p = z3.Bool("%s.%s?" % (n, k))
            lf = f.leaf(k, kd)
            f.put(k, Opt(p, lf))
            v[k] = spec.merge_x(p, lf.exp, v[k])
    sh = dict(t.shape)
    if over and t.kind in ("polygon", "polyline", "text"):
        p = z3.Bool(n + ".shape?")
        h = T.Fields(g, n, fmt, True)
        new = T.shape_part(h, g, n, fmt, t.kind, npoints, TEXTRICH)
        for k, lf in h.ents:
            f.put(k, Opt(p, lf))
        for kid in h.kids:
            f.kid(Opt(p, Node(xml=getattr(kid, "xml", kid))))
        sh = {k: spec.merge_x(p, new[k], sh[k]) for k in new}
    elif over and t.kind in ("ellipse", "point"):
        p = z3.Bool(n + ".shape?")
        if fmt == "json":
            f.put(t.kind, Opt(p, const(True)))
        else:
            f.kid(Opt(p, Node(xml=xel(t.kind))))
    if t.kind == "tile":
        sh["gid"] = ANY
    if ik is not None:
        _, ip, _ = props2(g, n, fmt, None, ik)
        f.put("properties", ip) if fmt == "json" else f.kid(ip)
    # the template's side is named after the template, the instance's after itself
    x = merged(g, t, n, fmt, ik)
    return f.node("object", Obj(
        T.OBJ_CLASS[t.kind], id=i.exp, coordinates=Tup("OrderedPair", x_.exp, y_.exp),
        size=Tup("Size", v["width"], v["height"]), rotation=v["rotation"], visible=v["visible"],
        name=v["name"], class_=v.get(t.spelling, ""), properties=x, **sh))


def merged(g, t, n, fmt, ik):
    tv = {k: (p, v) for k, v, p in (t.props.ents if t.props else ())}
    _, _, ix = props2(g, n, fmt, None, ik)
    iv = {k: (p, v) for k, v, p in ix.ents}
    ents = []
    for name in sorted(set(tv) | set(iv)):
        if name not in iv:
            ents.append((name, tv[name][1], tv[name][0]))
        elif name not in tv:
            ents.append((name, iv[name][1], iv[name][0]))
        else:
            (pt, vt), (pi, vi) = tv[name], iv[name]
            ents.append((name, spec.merge_x(pi, vi, vt), z3.Or(pi, pt)))
    return MapX(ents, strict=True)


def store(g, sc, t, name, dirs=("templates",), up=("..",), prefix=""):
    """Write the template's file; the reference to it from /maps."""
    fmt = t.fmt
    ts = None
    if t.kind == "tile":
        s = T.tileset(g, t.n + ".set", fmt, count=const(8))
        sc.file(["sets", name + "." + TEXT[fmt]], doc(fmt, s))
        up2 = "/".join([".."] * len(dirs) + ["sets", name + "." + TEXT[fmt]])
        ts = T.tileset_ref(g, fmt, const(1), const(up2))
    sc.file(list(dirs) + [name + "." + XEXT[fmt]],
            doc(fmt, T.template(g, fmt, t.node(), ts), prefix))
    return const("/".join(list(up) + list(dirs) + [name + "." + XEXT[fmt]]))


def single(fmt, kind, spelling=None, tk=TK, ik=IK, over=True, wrap=None, npoints=2, **kw):
    def build(g, sc):
        t = Tpl(g, "t", fmt, kind, spelling, tk, npoints=npoints)
        ref = store(g, sc, t, "tpl", **kw)
        os = [inst(g, "i", t, ref, ik, over)]
        ls = [T.object_layer(g, "l", fmt, os)]
        for k in range(wrap or 0):
            ls = [T.group(g, "g%d" % k, fmt, ls)]
        add_map(g, sc, fmt, ls, more=dict(tilesets=ANY))
    return build


def several(fmt, kinds, pattern, layers=False, tk=TK, ik=IK, over=True):
    """pattern: sequence of template numbers and 'p' for a plain object."""
    def build(g, sc):
        ts = [Tpl(g, "t%d" % i, fmt, k, None, tk) for i, k in enumerate(kinds)]
        refs = [store(g, sc, t, "tpl%d" % i) for i, t in enumerate(ts)]
        os = []
        for j, c in enumerate(pattern):
            if c == "p":
                os.append(T.obj(g, "p%d" % j, fmt, rich={"id", "x", "width"}, pk=["str"]))
            else:
                os.append(inst(g, "i%d" % j, ts[int(c)], refs[int(c)], ik, over, npoints=1 + j))
        if layers:
            ls = [T.object_layer(g, "l%d" % j, fmt, [o]) for j, o in enumerate(os)]
            ls[-1] = T.group(g, "g", fmt, [ls[-1]])
        else:
            ls = [T.object_layer(g, "l", fmt, os)]
        add_map(g, sc, fmt, ls, more=dict(tilesets=ANY))
    return build


KINDS = ("rect", "ellipse", "point", "polygon", "polyline", "text", "tile")


def cases(tier):
    out = []
    deep = tier == "thorough"
    for fmt in FMTS:
        for k in KINDS:
            out.append(("%s %s, everything" % (fmt, k), single(fmt, k), {}))
            out.append(("%s %s, type" % (fmt, k), single(fmt, k, "type", None, None), {}))
            out.append(("%s %s, class" % (fmt, k), single(fmt, k, "class", None, None), {}))
            out.append(("%s %s, nothing overridden" % (fmt, k), single(fmt, k, over=False, ik=None), {}))
            out.append(("%s %s, only instance properties" % (fmt, k),
                        single(fmt, k, tk=None, over=False), {}))
            out.append(("%s %s, in groups" % (fmt, k), single(fmt, k, wrap=2, over=False), {}))
        out.append((fmt + " properties change type", single(fmt, "rect", ik=IK2, over=False), {}))
        out.append((fmt + " instance with an empty list", single(fmt, "rect", ik=[], over=False), {}))
        out.append((fmt + " template with an empty list", single(fmt, "rect", tk=[], over=False), {}))
        if fmt == "json":
            for tk, ik in ((LTK, LIK), (LTK, IK), (TK, LIK), (LTK, None), (None, LIK), (LTK, [])):
                out.append(("json legacy mapping %s %s" % (tk and tk[:1], ik and ik[:1]),
                            single(fmt, "rect", tk=tk, ik=ik, over=False), {}))
        out.append((fmt + " template beside the map", single(
            fmt, "rect", dirs=("maps",), up=(".", "..")), {}))
        out.append((fmt + " template with blank lines", single(
            fmt, "text", prefix="\n \n" if fmt == "json" else ""), {}))
        for ks, pat in ((["rect"], "00"), (["polygon"], "00"), (["text", "ellipse"], "01"),
                        (["tile"], "00"), (["rect", "rect"], "01")):
            out.append(("%s %s instances %s" % (fmt, ks, pat), several(fmt, ks, pat), {}))
        for ks, pat in ((["rect", "polygon"], "0p1"), (["rect"], "000"), (["polyline"], "0p0"),
                        (["tile", "tile"], "010")):
            out.append(("%s %s order %s" % (fmt, ks, pat), several(fmt, ks, pat, over=False), {}))
            out.append(("%s %s layers %s" % (fmt, ks, pat), several(fmt, ks, pat, True, over=False), {}))
        out.append((fmt + " many instances", several(
            fmt, ["rect", "polygon", "tile"], "0120p1201p2001p21", over=False, tk=None, ik=None), {}))
        if deep:
            for k in KINDS:
                for n in (1, 3, 4):
                    if k in ("polygon", "polyline"):
                        out.append(("%s %s of %d points" % (fmt, k, n), single(fmt, k, npoints=n), {}))
                out.append(("%s %s, same names" % (fmt, k), single(fmt, k, ik=TK, over=False), {}))
                out.append(("%s %s, other types" % (fmt, k), single(fmt, k, ik=IK2), {}))
                for k2 in KINDS:
                    for pat in ("01", "0101", "1p00", "p110"):
                        out.append(("%s %s %s order %s" % (fmt, k, k2, pat),
                                    several(fmt, [k, k2], pat, over=pat == "01"), {}))
                        out.append(("%s %s %s layers %s" % (fmt, k, k2, pat),
                                    several(fmt, [k, k2], pat, True, over=False), {}))
    return out
