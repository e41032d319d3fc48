"""What a symbolic file holds and what the parser must return for it.

Leaves pair the stored form (JSON value / XML text) with the value the parser must
return; X-classes describe expected results; cmp() turns "result == expected" into
named conditions for the solver; conc() evaluates everything under a model.
"""
import z3

from . import core, text, env
from .core import (
    Sym, SymBool, SymInt, SymReal, SymUnion, SymBytes, SDict, SList, SObjDict,
    conj, disj, neg, eq, merge, is_num, simp, num_expr, Unsupported,
)
from .text import SymStr, Ch, IntTxt, RealTxt, Opq, B64, DocTxt, mk, parts_of, is_text, to_z3


# ------------------------------------------------------------------- leaves
class Leaf:
    __slots__ = ("json", "xml", "exp")

    def __init__(self, json, xml, exp):
        self.json = json
        self.xml = xml
        self.exp = exp


class Opt:
    """A leaf or node that the file may leave out (p: z3 Bool or bool)."""

    __slots__ = ("p", "leaf")

    def __init__(self, p, leaf):
        self.p = p
        self.leaf = leaf


def present(x):
    return False if x is None else x.p if isinstance(x, Opt) else True


def leaf(x):
    return x.leaf if isinstance(x, Opt) else x


def exp(x, default=None):
    """Expected value of an optional leaf."""
    if x is None:
        return default
    if isinstance(x, Opt):
        return merge_x(x.p, x.leaf.exp, default)
    return x.exp


def merge_x(p, a, b):
    if p is True:
        return a
    if p is False:
        return b
    if issubclass(type(a), X) or issubclass(type(b), X):
        return Alt([(p, a), (z3.Not(p), b)])
    return merge(p, a, b)


def const(v, xml=None):
    if xml is None:
        if v is True or v is False:
            xml = "1" if v else "0"
        elif isinstance(v, float):
            xml = repr(int(v)) if v == int(v) else repr(v)
        else:
            xml = str(v)
    return Leaf(v, xml, v)


# ---------------------------------------------------------------- expectations
class X:
    pass


class Any(X):
    pass


ANY = Any()


class Obj(X):
    def __init__(self, cls, **f):
        self.cls = cls
        self.f = f


class Tup(X):
    def __init__(self, cls, *items):
        self.cls = cls
        self.items = items


class ListX(X):
    def __init__(self, items):
        self.items = list(items)


class MapX(X):
    """Mapping; entries (key, value, presence).  Empty may also be None."""

    def __init__(self, ents, strict=False, empty_ok=True):
        self.ents = list(ents)
        self.strict = strict
        self.empty_ok = empty_ok


class Strict(X):
    """Value whose boolean/number/text kind matters too."""

    def __init__(self, v):
        self.v = v


class Alt(X):
    def __init__(self, alts):
        self.alts = alts


class Empty(X):
    """Nothing there: None or an empty container."""


EMPTY = Empty()


class Pred(X):
    """fn(value, *args, out): appends (label, condition) pairs; args are made concrete
    for replays."""

    def __init__(self, fn, *args):
        self.fn = fn
        self.args = args


class Raises(X):
    def __init__(self, names=None):
        self.names = names

    def __repr__(self):
        return "raises %s" % (self.names or "an error")


def kind_of(v):
    if v is None:
        return "None"
    t = type(v)
    if t in (bool, SymBool):
        return "bool"
    if is_num(v):
        return "number"
    if is_text(v):
        return "str"
    if isinstance(v, env.VPath):
        return "Path"
    if isinstance(v, tuple):
        return "tuple"
    return t.__name__


COUNT = [0, 0]  # comparisons made, of these settled as identical terms


def cmp(a, e, path, out, g=True):
    """Append (path, condition) pairs whose conjunction says `a` is as expected."""
    if g is False:
        return
    if type(e) is Any:
        return
    if type(e) is Alt:
        for ge, x in e.alts:
            cmp(a, x, path, out, _and(g, ge))
        return
    if type(a) is SymUnion:
        for ga, x in a.alts:
            cmp(x, e, path, out, _and(g, ga))
        return
    if type(e) is SymUnion:
        for ge, x in e.alts:
            cmp(a, x, path, out, _and(g, ge))
        return

    def fact(c, p=path):
        COUNT[0] += 1
        if c is True:
            return
        if g is True:
            out.append((p, c))
        elif c is False:
            out.append((p, z3.Not(g)))
        else:
            out.append((p, z3.Implies(g, c)))

    if a is core.UNDEF:
        return fact(False)
    if type(e) is Pred:
        sub = []
        e.fn(a, *e.args, out=sub)
        for p, c in sub:
            fact(c, path + ": " + p)
        return
    if type(e) is Obj:
        if type(a).__name__ != e.cls:
            return fact(False, path + ": kind %s, expected %s" % (type(a).__name__, e.cls))
        for k, v in e.f.items():
            try:
                x = object.__getattribute__(a, k)
            except AttributeError:
                fact(False, path + "." + k + " missing")
                continue
            cmp(x, v, path + "." + k, out, g)
        return
    if type(e) is Tup:
        if not isinstance(a, tuple) or isinstance(a, Sym) or len(a) != len(e.items):
            return fact(False)
        if type(a).__name__ != e.cls:
            return fact(False, path + ": kind %s, expected %s" % (type(a).__name__, e.cls))
        names = getattr(a, "_fields", range(len(a)))
        for n, x, y in zip(names, a, e.items):
            cmp(x, y, "%s.%s" % (path, n), out, g)
        return
    if type(e) is ListX:
        if not isinstance(a, (list, tuple)) or isinstance(a, Sym):
            return fact(not e.items and a is None and False, path + ": not a list")
        if len(a) != len(e.items):
            return fact(False, path + ": %d items, expected %d" % (len(a), len(e.items)))
        for i, (x, y) in enumerate(zip(a, e.items)):
            cmp(x, y, "%s[%d]" % (path, i), out, g)
        return
    if type(e) is Empty:
        if a is None:
            return
        if isinstance(a, (list, tuple)) and not isinstance(a, Sym):
            return fact(len(a) == 0)
        if type(a) in (SDict, SObjDict):
            return fact(neg(a._truth()))
        if isinstance(a, dict):
            return fact(not a)
        return fact(False)
    if type(e) is MapX:
        if a is None:
            return fact(conj([neg(p) for _, _, p in e.ents]) if e.empty_ok else False)
        if type(a) in (SDict, SObjDict):
            ents = a.ents
        elif isinstance(a, dict):
            ents = [[k, v, True] for k, v in a.items()]
        else:
            return fact(False, path + ": not a mapping")
        for k, v, p in e.ents:
            # present in the result with an equal value
            hit = []
            for k2, v2, p2 in ents:
                same = eq(k2, k)
                if same is False:
                    continue
                sub = []
                cmp(v2, Strict(v) if e.strict else v, "", sub)
                hit.append(conj([same, p2] + [c for _, c in sub]))
            fact(disj([neg(p), disj(hit)]), "%s[%s]" % (path, show_key(k)))
        for k2, v2, p2 in ents:
            fact(disj([neg(p2), disj([conj([p, eq(k2, k)]) for k, _, p in e.ents])]),
                 "%s has an extra key" % path)
        return
    if type(e) is Strict:
        v = e.v
        if issubclass(type(v), X):
            return cmp(a, v, path, out, g)
        if type(v) is SymUnion:
            for gv, x in v.alts:
                cmp(a, Strict(x), path, out, _and(g, gv))
            return
        if kind_of(a) != kind_of(v):
            return fact(False, path + ": %s, expected %s" % (kind_of(a), kind_of(v)))
        return fact(eq_query(a, v))
    if isinstance(e, X):
        raise TypeError(e)
    if kind_of(e) == "bool" and kind_of(a) != "bool":
        return fact(False, path + ": %s, expected bool" % kind_of(a))
    return fact(eq_query(a, e))


def eq_query(a, e):
    """a == e for the solver: terms that are identical are left to it as well."""
    c = eq(a, e)
    if c is not True or not (isinstance(a, Sym) or isinstance(e, Sym)):
        return c
    COUNT[1] += 1
    if is_num(a) and is_num(e):
        x, y = (v.e if type(v) is SymBool else num_expr(v) for v in (a, e))
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
            return x == y
    elif is_text(a) and is_text(e):
        try:
            return to_z3(parts_of(a)) == to_z3(parts_of(e))
        except Unsupported:
            pass
    return True


def show_key(k):
    return repr(k) if not isinstance(k, Sym) else "?"


def _and(a, b):
    r = conj([a, b])
    if isinstance(r, bool):
        return r
    r = simp(r)
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def same_x(v, skip, path=""):
    """Expectation that equals an actual result (for result-vs-result checks)."""
    if type(v) is SymUnion:
        return Alt([(g, same_x(x, skip, path)) for g, x in v.alts])
    if path in skip or any(path.endswith(s) for s in skip if s.startswith("*")):
        return ANY
    for s in skip:
        if s.startswith("*") and path.endswith(s[1:]):
            return ANY
    if v is None:
        return EMPTY
    if type(v) in (SDict, SObjDict):
        return MapX([(k, same_x(x, skip, path + "[]"), p) for k, x, p in v.ents],
                    path.endswith(".properties"))
    if isinstance(v, dict):
        return MapX([(k, same_x(x, skip, path + "[]"), True) for k, x in v.items()],
                    path.endswith(".properties"))
    if isinstance(v, tuple) and not isinstance(v, Sym):
        return Tup(type(v).__name__, *[same_x(x, skip, path + "()") for x in v])
    if isinstance(v, list) and not isinstance(v, Sym):
        if not v:
            return EMPTY
        return ListX([same_x(x, skip, path + "[]") for x in v])
    if is_plain(v):
        return v
    return Obj(type(v).__name__, **{
        k: same_x(x, skip, path + "." + k) for k, x in vars(v).items()})


def is_plain(v):
    return isinstance(v, (Sym, str, int, float, bool, bytes, env.VPath)) or v is None


# -------------------------------------------------------- values under a model
def ev(m, e):
    return m.eval(e, model_completion=True)


def holds(m, p):
    return p if isinstance(p, bool) else z3.is_true(ev(m, p))


def num_value(m, e):
    v = ev(m, e)
    if z3.is_int_value(v):
        return v.as_long()
    n, d = v.numerator_as_long(), v.denominator_as_long()
    return n / d


def conc(v, m):
    """Value, tree or expectation with every unknown replaced by its model value."""
    t = type(v)
    if t is SymUnion:
        for g, x in v.alts:
            if holds(m, g):
                return conc(x, m)
        return None
    if t is SymBool:
        return holds(m, v.e)
    if t is SymInt:
        return num_value(m, v.e)
    if t is SymReal:
        return float(num_value(m, v.e))
    if t is SymStr:
        return text.text_value(v, m)
    if t is SymBytes:
        return text.bytes_value(v, m)
    if isinstance(v, env.VPath):
        return env.VPath._make(v.abs, [conc(s, m) for s in v.segs])
    if t in (SDict, SObjDict):
        return {conc(k, m): conc(x, m) for k, x, p in v.ents if holds(m, p)}
    if isinstance(v, X):
        if t is Alt:
            for g, x in v.alts:
                if holds(m, g):
                    return conc(x, m)
            return ANY
        if t is Obj:
            return Obj(v.cls, **{k: conc(x, m) for k, x in v.f.items()})
        if t is Tup:
            return Tup(v.cls, *[conc(x, m) for x in v.items])
        if t is ListX:
            return ListX([conc(x, m) for x in v.items])
        if t is MapX:
            return MapX([(conc(k, m), conc(x, m), True) for k, x, p in v.ents if holds(m, p)],
                        v.strict, v.empty_ok)
        if t is Strict:
            return Strict(conc(v.v, m))
        if t is Pred:
            return Pred(v.fn, *[conc(a, m) for a in v.args])
        return v
    if isinstance(v, tuple) and not isinstance(v, Sym):
        items = [conc(x, m) for x in v]
        return t(*items) if hasattr(t, "_fields") else tuple(items)
    if isinstance(v, list) and not isinstance(v, Sym):
        return [conc(x, m) for x in v]
    return v


CR = "\uffff"  # a carriage return in an XML text, where it has to be escaped


def to_etree(e, m):
    import xml.etree.ElementTree as ET

    r = ET.Element(e.tag, {k: str(conc(v, m)) for k, v in conc_dict(e.attrib, m)})
    r.text = conc(e.text, m)
    if r.text and "\r" in r.text:
        r.text = r.text.replace("\r", CR)
    r.tail = conc(e.tail, m)
    for k, p in e.kids:
        if holds(m, p):
            r.append(to_etree(k, m))
    return r


def conc_dict(d, m):
    return [(conc(k, m), v) for k, v, p in d.ents if holds(m, p)]


def render(content, m):
    """Bytes of a virtual file under a model."""
    import json
    import xml.etree.ElementTree as ET

    out = []
    for p in parts_of(content):
        if isinstance(p, DocTxt):
            d = p.doc
            if d.kind == "json":
                s = json.dumps(conc(d.tree, m), indent=d.indent, ensure_ascii=False)
            elif d.kind == "xml":
                s = ET.tostring(to_etree(d.tree, m), encoding="unicode").replace(CR, "&#13;")
                s = s[s.index("<", 1):] if s.startswith("<?xml") else s
                if d.head.startswith("<?xml"):
                    s = '<?xml version="1.0" encoding="UTF-8"?>\n' + s
            else:
                s = d.head + d.tail
            assert s.startswith(d.head), (s[:20], d.head)
            out.append(s[len(d.head):])
        elif isinstance(p, str):
            out.append(p)
        else:
            out.append(text.text_value(mk([p]), m))
    return "".join(out).encode("utf-8", "surrogateescape")


# ---------------------------------------------------------------------- trees
def clone(t):
    """Fresh copy of a document tree (documents may be read more than once)."""
    ty = type(t)
    if ty is SDict:
        return SDict([[k, clone(v), p] for k, v, p in t.ents])
    if ty is env.SElement:
        e = env.SElement(t.tag, clone(t.attrib), t.text, t.tail)
        e.kids = [[clone(k), p] for k, p in t.kids]
        return e
    if ty is SymUnion:
        return SymUnion([(g, clone(x)) for g, x in t.alts])
    if isinstance(t, list) and not isinstance(t, Sym):
        return SList([clone(x) for x in t])
    return t


class Doc(env.Doc):
    def __init__(self, kind, tree, head, tail="", indent=None):
        env.Doc.__init__(self, kind, lambda: clone(tree), head)
        self.tree = tree
        self.tail = tail
        self.indent = indent


def json_doc(tree, prefix="", indent=None):
    return Doc("json", tree, "{", indent=indent).rope(prefix)


def xml_doc(tree, prefix="", decl=False):
    return Doc("xml", tree, "<?xml" if decl else "<").rope(prefix)


def bad_doc(head, tail, prefix=""):
    return Doc("bad", None, head, tail).rope(prefix)


def jobj(*ents):
    """ents: (key, leaf-or-opt-or-tree)."""
    d = SDict()
    for k, v in ents:
        if v is None:
            continue
        p = present(v)
        v = leaf(v)
        d.ents.append([k, v.json if isinstance(v, Leaf) else getattr(v, "json", v), p])
    d._reindex()
    return d


def xel(tag, *ents, text=None, kids=()):
    e = env.SElement(tag, text=text)
    for k, v in ents:
        if v is None:
            continue
        p = present(v)
        v = leaf(v)
        e.attrib.ents.append([k, v.xml if isinstance(v, Leaf) else v, p])
    e.attrib._reindex()
    for k in kids:
        if k is None:
            continue
        p = present(k)
        k = leaf(k)
        e.kids.append([k.xml if isinstance(k, Node) else k, p])
    return e


class Node:
    """A piece of a document in one format, with the result it must yield."""

    __slots__ = ("json", "xml", "exp")

    def __init__(self, json=None, xml=None, exp=None):
        self.json = json
        self.xml = xml
        self.exp = exp


# ------------------------------------------------------------------ generator
class Gen:
    """Unknown leaves of one run.  Names make them the same in every run."""

    def __init__(self, max_str=12):
        self.max_str = max_str
        self.paired = False  # only what both formats can store
        self.n_leaves = 0

    def add(self, c):
        core.E.add(c)

    def bool_var(self, name):
        return z3.Bool(name)

    def opt(self, name, lf):
        return Opt(z3.Bool(name + "?"), lf)

    def int(self, name, lo=-(2 ** 31), hi=2 ** 31):
        self.n_leaves += 1
        v = z3.Int(name)
        self.add(z3.And(v >= lo, v <= hi))
        nb = hi.bit_length() if lo >= 0 else None
        return Leaf(SymInt(v, 0, nb), mk([IntTxt(v)]), SymInt(v, 0, nb))

    def real(self, name, lo=-(2 ** 20), hi=2 ** 20):
        """A multiple of 1/8: exact in binary floating point."""
        self.n_leaves += 1
        k = z3.Int(name + "*8")
        self.add(z3.And(k >= lo * 8, k <= hi * 8))
        v = SymReal(z3.ToReal(k) / 8)
        return Leaf(v, mk([RealTxt(k)]), v)

    def bool(self, name):
        self.n_leaves += 1
        b = z3.Bool(name)
        c = Ch(z3.If(b, z3.IntVal(49), z3.IntVal(48)), frozenset((48, 49)))
        return Leaf(SymBool(b), mk([c]), SymBool(b))

    def pbool(self, name):
        """Boolean custom property: TMX spells it true/false."""
        self.n_leaves += 1
        b = z3.Bool(name)
        return Leaf(SymBool(b), core.mkunion([(b, "true"), (z3.Not(b), "false")]), SymBool(b))

    wide = False

    def char(self, name):
        """Any character there is, except controls, blanks beyond ASCII and surrogates."""
        v = z3.Int(name)
        self.add(z3.Or(*[z3.And(v >= a, v <= b) for a, b in (
            (0x20, 0x7e), (0xa1, 0x167f), (0x1681, 0x1fff), (0x200b, 0x2027), (0x202a, 0x202e),
            (0x2030, 0x205e), (0x2060, 0x2fff), (0x3001, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x2ffff))]))
        return Ch(v)

    def str(self, name, lo=0, hi=None):
        self.n_leaves += 1
        s = z3.String(name)
        hi = self.max_str if hi is None else hi
        cs = [z3.Range(" ", "~"), z3.Range("\u00a1", "\u00ff"), z3.Re("\t"), z3.Re("\n"), z3.Re("\r")]
        self.add(z3.And(z3.Length(s) >= lo, z3.Length(s) <= hi,
                        z3.InRe(s, z3.Star(z3.Union(*cs)))))
        t = mk([Opq(s)] + ([self.char(name + "+")] if self.wide else []))
        return Leaf(t, t, t)

    def choice(self, name, values):
        """One of several literal strings."""
        self.n_leaves += 1
        v = z3.Int(name)
        self.add(z3.And(v >= 0, v < len(values)))
        u = core.mkunion([(v == i, x) for i, x in enumerate(values)])
        return Leaf(u, u, u)

    def seg(self, name, hi=6):
        s = z3.String(name)
        # printable ASCII without the dot and the slash
        cs = z3.Union(z3.Range(" ", "-"), z3.Range("0", "~"))
        self.add(z3.And(z3.Length(s) >= 1, z3.Length(s) <= hi, z3.InRe(s, z3.Plus(cs))))
        return mk([Opq(s, True)])

    def hexdigit(self, name, case="any"):
        """Character 0-9a-fA-F; returns (Ch, value expr)."""
        v = z3.Int(name)
        self.add(z3.And(v >= 0, v < 16))
        if case == "lower":
            e = z3.If(v < 10, v + 48, v + 87)
            dom = "0123456789abcdef"
        else:
            up = z3.Bool(name + "^")
            e = z3.If(v < 10, v + 48, z3.If(up, v + 55, v + 87))
            dom = "0123456789abcdefABCDEF"
        return Ch(e, frozenset(ord(c) for c in dom), v), v

    def color(self, name, alpha=False, hash_=True, case="lower"):
        self.n_leaves += 1
        n = 8 if alpha else 6
        cs, vs = [], []
        for i in range(n):
            c, v = self.hexdigit("%s.%d" % (name, i), case)
            cs.append(c)
            vs.append(v)
        ch = [SymInt(vs[i] * 16 + vs[i + 1], 0, 8) for i in range(0, n, 2)]
        if alpha:
            a, r, g, b = ch
        else:
            (r, g, b), a = ch, 255
        t = mk((["#"] if hash_ else []) + cs)
        return Leaf(t, t, Tup("Color", r, g, b, a))

    def path(self, segs, base=None, absolute=False):
        """segs: list of texts; the returned path joins base (absolute) or stays."""
        parts = ["/"] if absolute else []
        for i, s in enumerate(segs):
            if i:
                parts.append("/")
            parts.extend(parts_of(s))
        t = mk(parts)
        kept = [s for s in segs if not (isinstance(s, str) and not isinstance(s, Sym) and s in ("", "."))]
        if base is None:
            x = env.VPath._make(absolute, kept)
        elif absolute:
            x = env.VPath._make(True, env.normalise(kept))
        else:
            x = env.VPath._make(True, env.normalise(list(base) + kept))
        return Leaf(t, t, x)

    def distinct(self, *leaves):
        xs = [l.exp for l in leaves]
        for i in range(len(xs)):
            for j in range(i):
                c = eq(xs[i], xs[j])
                self.add(neg(c) if not isinstance(c, bool) else not c)
