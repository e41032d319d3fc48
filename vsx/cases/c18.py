"""World files: 0-3 (quick) / 0-5 (thorough) static maps with unknown names, numbers
(integers or eighths, either sign) and paths (same directory, below, beside, absolute);
0-2 / 0-3 patterns out of a list of regular expressions, unknown multipliers and
offsets (absent, zero or given); directories of up to 4 / 6 files whose names hold
unknown digits (1-3 / 1-5 to a number) or, for one name, unknown characters throughout, with
subdirectories and files in them that would match; the only-show-adjacent flag absent,
true or false; a relative world path.  Within a pattern the order of the maps is free.
Outside: unknown regular expressions, links, unreadable files."""
from .base import *
from ..core import SymBool, SymReal, SymInt, SList, conj, disj, neg, eq

DIG = "0123456789"


def digits(g, n, name):
    """n unknown digits: (atoms, value)."""
    cs, v = [], z3.IntVal(0)
    for i in range(n):
        d = z3.Int("%s%d" % (name, i))
        g.add(z3.And(d >= 0, d <= 9))
        cs.append(Ch(d + 48, frozenset(map(ord, DIG)), d))
        v = v * 10 + d
    return cs, v


def num(g, name, kind):
    return g.real(name) if kind == "real" else g.int(name, -(2 ** 24), 2 ** 24)


def static(g, i, kind, where, base):
    """(entry, expectation); base: VPath of the world's directory."""
    nm = g.seg("f%d" % i)
    dirs = {"here": [], "below": [g.seg("d%d" % i)], "beside": ["..", g.seg("d%d" % i)],
            "absolute": ["vfs", g.seg("d%d" % i)]}[where]
    lf = g.path(dirs + [mk(list(parts_of(nm)) + [".json"])], absolute=where == "absolute")
    w, h, x, y = (num(g, "%s%d" % (k, i), kind) for k in "whxy")
    e = jobj(("fileName", lf), ("height", h), ("width", w), ("x", x), ("y", y))
    p = lf.exp if where == "absolute" else base / lf.exp
    return e, wm(p, w.exp, h.exp, x.exp, y.exp)


def wm(p, w, h, x, y):
    return Obj("WorldMap", map_file=p, size=Tup("Size", w, h), coordinates=Tup("OrderedPair", x, y))


def in_groups(maps, fixed, groups, out):
    """maps: fixed in order, then each group's present items in any order."""
    if not isinstance(maps, (list, tuple)):
        out.append(("not a list", False))
        return
    n = len(maps)
    if n < len(fixed):
        out.append(("%d maps listed, %d named in the file" % (n, len(fixed)), False))
        return
    for i, x in enumerate(fixed):
        spec.cmp(maps[i], x, "[%d]" % i, out)

    def same(a, x):
        sub = []
        spec.cmp(a, x, "", sub)
        return conj([c for _, c in sub])

    start = z3.IntVal(len(fixed))
    for k, items in enumerate(groups):
        ps = [p if isinstance(p, bool) else p.e for p, _ in items]
        end = start + z3.Sum([z3.If(z3b(p), 1, 0) for p in ps]) if ps else start
        inside = [z3.simplify(z3.And(start <= i, i < end)) for i in range(n)]
        m = [[same(maps[i], x) for _, x in items] for i in range(n)]
        for j, p in enumerate(ps):
            out.append(("file %d of pattern %d not listed with its values" % (j, k),
                        disj([neg(p), disj([conj([inside[i], m[i][j]]) for i in range(n)])])))
        for i in range(len(fixed), n):
            out.append(("[%d] is not a file of pattern %d" % (i, k),
                        disj([neg(inside[i]), disj([conj([ps[j], m[i][j]]) for j in range(len(ps))])])))
        start = end
    c = z3.simplify(start == n)
    out.append(("%d maps listed" % n, True if z3.is_true(c) else False if z3.is_false(c) else c))
    for i, (l, c) in enumerate(out):
        if not isinstance(c, bool):
            c = z3.simplify(c)
            out[i] = (l, True if z3.is_true(c) else False if z3.is_false(c) else c)


def z3b(p):
    return z3.BoolVal(p) if isinstance(p, bool) else p


# regular expression, how a name that matches is written: text pieces and digit groups
PATTERNS = {
    "plain": (r"map_(\d+)_(\d+)\.json", ["map_", 1, "_", 2, ".json"]),
    "tmx": (r"ortho_(\d+)-(\d+)\.tmx", ["ortho_", 1, "-", 2, ".tmx"]),
    "loose": (r"w(\d+)x(\d+)", ["w", 1, "x", 2]),
    "signed": (r"map\((-?\d+),(-?\d+)\)\.json", ["map(", 1, ",", 2, ").json"]),
    "anchored": (r"^(\d+)\.(\d+)$", [1, ".", 2]),
    "class": (r"m_([0-9]+)_([0-9]+)\.(json|tmx)", ["m_", 1, "_", 2, ".tmx"]),
    "dot": (r"\.?m~?(\d+) (\d+)", [".m", 1, " ", 2]),
    "tilde": (r"\W*m(\d+)__(\d+)~?", ["~$m", 1, "__", 2, "~"]),
    "float": (r"f(\d+\.\d)_(\d+\.\d)", ["f", 1, ".5_", 2, ".5"]),
}


def written(g, pat, name, lens, sign=("", ""), cut=None):
    """Name that matches: (text, x, y)."""
    out, val = [], {}
    for p in PATTERNS[pat][1]:
        if isinstance(p, int):
            cs, v = digits(g, lens[p - 1], "%s.%d_" % (name, p))
            if sign[p - 1]:
                out.append("-")
                v = -v
            val[p] = z3.ToReal(v) + (z3.Q(1, 2) if pat == "float" else 0)
            out.extend(cs)
        else:
            out.append(p)
    return out, val[1], val[2]


def pattern(g, k, pat, kind, ox, oy, mult=None):
    """Pattern entry and the function giving a file's expectation."""
    mx, my = (const(mult), const(mult)) if mult else (num(g, "mx%d" % k, kind), num(g, "my%d" % k, kind))
    offs, val = [], []
    for key, how, n in (("offsetX", ox, "ox"), ("offsetY", oy, "oy")):
        lf = {"no": None, "zero": const(0)}.get(how)
        if how in ("maybe", "given"):
            lf = num(g, "%s%d" % (n, k), kind)
            if how == "maybe":
                lf = g.opt("%s%d" % (n, k), lf)
        offs.append((key, lf))
        val.append(exp(lf, 0))
    e = jobj(("regexp", const(PATTERNS[pat][0])), ("multiplierX", mx), ("multiplierY", my), *offs)

    def make(path, x, y):
        return wm(path, mx.exp, my.exp, SymReal(x) * mx.exp + val[0], SymReal(y) * my.exp + val[1])
    return e, make


def world(n_static=0, pats=(), files=(), dirs=(), kind="int", offs=("no", "no"), flag="maybe",
          where=("here",), relative=None, free=0, mult=None, keys=("maps", "patterns"),
          wname="w.world", other=()):
    """files: (pattern, digit counts, signs, tail); dirs the same, made directories; free:
    one more file of that many unknown characters, for the pattern 'loose'."""
    def build(g, sc):
        segs = ["worlds"]
        base = vpath(segs)
        if relative == "sub":
            base = vpath(segs, False)
        if relative == "bare":
            sc.cwd = ("vfs", "worlds")
            base = env.VPath._make(False, [])
        st = [static(g, i, kind, where[i % len(where)], base) for i in range(n_static)]
        pt = [pattern(g, k, p, kind, offs[0], offs[1], mult) for k, p in enumerate(pats)]
        names, hits = [], []
        for i, (pat, lens, sign, tail) in enumerate(files):
            t, x, y = written(g, pat, "n%d" % i, lens, sign)
            names.append(mk(t + [tail]))
            ok = tail == "" or pat in ("loose",) or (pat != "anchored" and not tail.startswith("\n"))
            hits.append((pat, True if ok else False, x, y))
        for t in other:
            names.append(t)
            hits.append((None, False, None, None))
        if free:
            cs = []
            for i in range(free):
                v = z3.Int("c%d" % i)
                g.add(z3.And(v >= 32, v <= 126, v != 47, v != 34, v != 92))
                cs.append(Ch(v))
            # not . or .. (no file can be called that), and no file called like another
            g.add(z3.Or(*[c.code != 46 for c in cs]))
            d = lambda c: z3.And(c.code >= 48, c.code <= 57)
            alts = []  # (condition, x, y), longest first as the expression is greedy
            one = lambda cs: z3.ToReal(sum_digits(cs))
            for a in range(1, free - 2):
                for b in range(1, free - 2 - a + 1):
                    if 2 + a + b > free:
                        continue
                    x, y = cs[1:1 + a], cs[2 + a:2 + a + b]
                    after = cs[2 + a + b:]
                    alts.append((z3.And(cs[0].code == ord("w"), cs[1 + a].code == ord("x"),
                                        *[d(c) for c in x + y],
                                        *[z3.Not(d(c)) for c in after[:1]]), one(x), one(y)))
            names.append(mk(cs))
            hits.append(("loose", alts, None, None))
        for n in names:
            sc.file(segs + [n], "x")
        for i in range(len(names)):
            for j in range(i):
                c = eq(names[i], names[j])
                g.add(neg(c) if not isinstance(c, bool) else z3.BoolVal(not c))
        for i, (pat, lens, sign, tail) in enumerate(dirs):
            t, _, _ = written(g, pat, "d%d" % i, lens, sign)
            nm = mk(["q" if tail == "pre" else ""] + t)
            for o in names:
                c = eq(o, nm)
                g.add(neg(c) if not isinstance(c, bool) else z3.BoolVal(not c))
            if tail == "file":
                inner, _, _ = written(g, pat, "e%d" % i, lens, sign)
                sc.file(segs + [nm, mk(inner)], "x")
            else:
                sc.dirs.append(segs + [nm])
        groups = []
        for k, p in enumerate(pats):
            items = []
            for nm, (pat, hit, x, y) in zip(names, hits):
                if pat != p:
                    continue
                path = base / nm
                if isinstance(hit, list):
                    for c, ax, ay in hit:
                        items.append((SymBool(c), pt[k][1](path, ax, ay)))
                elif hit:
                    items.append((True, pt[k][1](path, x, y)))
            groups.append(items)
        fl = None
        if flag == "maybe":
            fl = g.opt("flag", g.bool("adj"))
        ents = [("type", const("world"))]
        if "maps" in keys:
            ents.append(("maps", SList([e for e, _ in st])))
        if "patterns" in keys:
            ents.append(("patterns", SList([e for e, _ in pt])))
        if fl is not None:
            ents.append(("onlyShowAdjacentMaps", fl))
        sc.file(segs + [wname], json_doc(jobj(*ents)))
        i = sc.op("parse_world", base / wname)
        sc.expect(i, Obj("World", only_show_adjacent=exp(fl, False),
                         maps=spec.Pred(in_groups, [x for _, x in st], groups)))
    return build


def sum_digits(cs):
    v = z3.IntVal(0)
    for c in cs:
        v = v * 10 + (c.code - 48)
    return v


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(name, **k):
        out.append((name, world(**k), {}))

    wheres = ("here", "below", "beside", "absolute")
    for n in range(6 if deep else 4):
        for kind in ("int", "real"):
            for rot in (range(4) if n == 1 or deep else (n,)):
                w = wheres[rot % 4:] + wheres[:rot % 4]
                if n == 0 and rot:
                    continue
                add("%d static maps, %s, %s" % (n, kind, "+".join(w[:n])), n_static=n, kind=kind, where=w)
    add("many static maps", n_static=24, where=wheres)
    add("many files", pats=("plain", "tmx"), offs=("no", "maybe"), n_static=11,
        files=[("plain" if i % 3 else "tmx", (1, 1), ("", ""), "") for i in range(8)])
    for keys in ((), ("maps",), ("patterns",)):
        add("keys %s" % "+".join(keys), keys=keys, n_static=1 if "maps" in keys else 0,
            pats=("plain",) if "patterns" in keys else (),
            files=[("plain", (1, 1), ("", ""), "")])
    for rel in ("sub", "bare"):
        add("relative %s" % rel, relative=rel, n_static=2, where=("here", "beside"),
            pats=("plain",), files=[("plain", (2, 1), ("", ""), "")])
    hows = ("no", "zero", "given", "maybe")
    for a in hows:
        for b in hows:
            for kind in (("int", "real") if deep else ("real",)):
                add("offsets %s/%s %s" % (a, b, kind), pats=("plain",), offs=(a, b), kind=kind,
                    files=[("plain", (1, 2), ("", ""), "")])
    lens = range(1, 6 if deep else 4)
    for pat in PATTERNS:
        signs = [("", "")]
        if pat == "signed":
            signs = [("", "-"), ("-", ""), ("-", "-"), ("", "")]
        for s in signs:
            for a in lens:
                for b in ((1, 2) if not deep else lens):
                    add("pattern %s%s, %d and %d digits" % (pat, "".join(s) and " " + "/".join(x or "+" for x in s), a, b),
                        pats=(pat,), files=[(pat, (a, b), s, "")], offs=("maybe", "maybe"), kind="int")
    f = lambda *x, **k: [(p, n, ("", ""), t) for p, n, t in x]
    add("several files, numbers of different lengths", pats=("plain",), n_static=1,
        files=f(("plain", (1, 1), ""), ("plain", (1, 2), ""), ("plain", (2, 1), ""), ("plain", (2, 2), "")))
    if deep:
        add("six files", pats=("plain",), n_static=2, offs=("maybe", "maybe"),
            files=f(*[("plain", (a, b), "") for a in (1, 2) for b in (1, 2, 3)]))
    for k in (2, 3, 4) if deep else (2, 3):
        add("%d files, numbers of the same length" % k, pats=("plain",),
            files=f(*[("plain", (2, 1), "")] * k), offs=("given", "no"))
    others = ("readme.txt", "xmap_1_2.json", "map_1.json", "map__1.json", "map_1_2_json", "map_1_2xjson",
              "MAP_1_2.json", "map_a_b.json", " map_1_2.json")
    add("names that do not match", pats=("plain",), other=others, files=f(("plain", (1, 1), "")))
    add("names that go on after the match", pats=("loose", "plain"),
        files=f(("loose", (1, 1), ".json"), ("plain", (1, 1), ".bak"), ("loose", (2, 1), "x7")))
    add("anchored", pats=("anchored",), files=f(("anchored", (1, 1), ".json"), ("anchored", (2, 2), ""),
                                                 ("anchored", (1, 3), "x")))
    add("nothing matches", pats=("plain",), other=others, n_static=1)
    add("directories with matching names", pats=("plain",), files=f(("plain", (1, 1), "")),
        dirs=[("plain", (1, 1), ("", ""), ""), ("plain", (2, 1), ("", ""), "file")])
    add("files in subdirectories", pats=("plain",), files=f(("plain", (1, 1), "")),
        dirs=[("plain", (1, 1), ("", ""), "pre")])
    add("the world's own name", pats=("loose",), files=f(("loose", (1, 1), "")), wname="a.world",
        other=("a.json",))
    for p2 in ("tmx", "loose", "class", "anchored"):
        add("two patterns plain+%s" % p2, pats=("plain", p2), n_static=1, offs=("maybe", "no"),
            files=f(("plain", (1, 1), ""), (p2, (1, 1), ""), ("plain", (2, 1), ""), (p2, (1, 2), "")))
        add("two patterns %s+plain" % p2, pats=(p2, "plain"), offs=("no", "maybe"),
            files=f(("plain", (1, 1), ""), (p2, (2, 1), "")))
    add("the same pattern twice", pats=("plain", "plain"), offs=("maybe", "maybe"),
        files=f(("plain", (1, 1), ""), ("plain", (1, 2), "")))
    add("three patterns", pats=("loose", "plain", "tmx"), offs=("maybe", "maybe"), n_static=2, kind="real",
        files=f(("plain", (1, 1), ""), ("tmx", (1, 1), ""), ("loose", (1, 1), "")))
    for n in ((4, 5, 6) if deep else (4, 5)):
        add("a name of %d unknown characters" % n, pats=("loose",), free=n,
            files=f(("loose", (1, 1), "")) if n == 4 else (), kind="int", offs=("given", "no"))
    return out
