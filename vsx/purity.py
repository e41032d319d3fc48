"""Side effects and sharing between results, decided on the symbolic values."""
import z3

from . import core, env
from .core import Sym, SymUnion, SDict, SObjDict, conj, neg
from .spec import is_plain


def symbolic(what, outs):
    if what == "quiet":
        return quiet()
    if what == "unshared":
        return unshared(outs)
    raise KeyError(what)


def quiet():
    res = []
    for kind, g in core.E.events:
        res.append(("%s while parsing" % kind, neg(g)))
    for f in core.E.opened:
        c = core.disj([f.closed] + [g for g in f.closed_when])
        if c is not True:
            res.append(("left open: %r" % (f.name,), core.disj([neg(f.opened_when), c])))
    return res


def unshared(outs):
    seen = {}
    done = set()

    def reach(v, path, g, depth=0):
        if g is False or depth > 60 or v is None:
            return
        if type(v) is SymUnion:
            for c, x in v.alts:
                reach(x, path, conj([g, c]), depth + 1)
            return
        if isinstance(v, tuple) and not isinstance(v, Sym):
            for i, x in enumerate(v):
                reach(x, "%s[%d]" % (path, i), g, depth + 1)
            return
        if is_plain(v):
            return
        first = id(v) not in seen
        seen.setdefault(id(v), (v, []))[1].append((g, path))
        if not first and depth > 40:
            return
        if type(v) in (SDict, SObjDict):
            for k, x, p in v.ents:
                reach(x, "%s[..]" % path, conj([g, p]), depth + 1)
        elif isinstance(v, dict):
            for k, x in v.items():
                reach(x, "%s[%r]" % (path, k), g, depth + 1)
        elif isinstance(v, (list, set)):
            for i, x in enumerate(v):
                reach(x, "%s[%d]" % (path, i), g, depth + 1)
        elif hasattr(v, "__dict__"):
            for k, x in vars(v).items():
                reach(x, "%s.%s" % (path, k), g, depth + 1)

    for i, o in enumerate(outs):
        if o.kind == "ok":
            reach(o.value, "result%d" % i, True)
    res = []
    for v, occ in seen.values():
        occ = occ[:12]
        for i in range(len(occ)):
            for j in range(i):
                c = conj([occ[i][0], occ[j][0]])
                if c is False:
                    continue
                res.append(("shared: %s and %s" % (occ[j][1], occ[i][1]), neg(c)))
    return res


def spoil(values):
    """Change every list, mapping and object of the results."""
    found, todo, seen = [], list(values), set()
    while todo:
        v = todo.pop()
        if type(v) is SymUnion:
            todo.extend(x for _, x in v.alts)
            continue
        if isinstance(v, tuple) and not isinstance(v, Sym):
            todo.extend(v)
            continue
        if is_plain(v) or id(v) in seen:
            continue
        seen.add(id(v))
        found.append(v)
        if type(v) in (SDict, SObjDict):
            todo.extend(x for _, x, _ in v.ents)
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, (list, set)):
            todo.extend(v)
        elif hasattr(v, "__dict__"):
            todo.extend(vars(v).values())
    for v in found:
        if type(v) in (SDict, SObjDict):
            del v.ents[:]
            v._reindex()
        elif isinstance(v, (list, dict, set)):
            v.clear()
        else:
            for k in list(getattr(v, "__dict__", {})):
                try:
                    setattr(v, k, "spoiled")
                except Exception:
                    pass
