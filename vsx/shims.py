"""Builtins and run-time helpers seen by the rewritten code."""
import builtins
import sys
import struct as _struct
import z3
from . import core, text
from .core import (
    Sym, SymBool, SymInt, SymReal, SymUnion, SymBytes, SDict, SObjDict, SList, UNDEF,
    Unsupported, Restart, Infeasible, Engine, resolve, truth, mkbool, mknum, merge, eq, conj,
    disj, neg, num_expr, is_num, trunc, toreal,
)
from .text import SymStr, EncText, Packed, mk, parts_of, is_text, to_text, join

ENGINE_EXC = (Restart, Infeasible, Unsupported)


def lift(fn, u):
    """fn over a union, without forking when every alternative evaluates."""
    if type(u) is not SymUnion:
        return fn(u)
    e = core.E
    if not e.merging_enabled:
        return fn(resolve(u))
    alts = []
    for g, x in u.alts:
        if x is UNDEF:
            return fn(resolve(u))
        k = e.lookup(g)
        if k is True:
            return fn(x)
        if k is False:
            continue
        alts.append((g, x))
    out = []
    for g, x in alts:
        if x is None:
            # most conversions of None raise: settle the choice first
            return fn(resolve(u))
        try:
            out.append((g, fn(x)))
        except ENGINE_EXC:
            raise
        except Exception:
            return fn(resolve(u))
    if not out:
        return fn(resolve(u))
    r = out[-1][1]
    for g, v in reversed(out[:-1]):
        r = merge(g, v, r)
    return r


# ------------------------------------------------------------- type shims
def _int(x=0, base=None):
    if type(x) is SymUnion:
        return lift(lambda v: _int(v, base), x)
    t = type(x)
    if t is SymStr:
        return text.py_int(x, 10 if base is None else base)
    if t is EncText:
        return text.py_int(x.s, 10 if base is None else base) if type(x.s) is SymStr else int(x.s, base or 10)
    if base is not None:
        return int(x, base)
    if t is SymInt:
        return x
    if t is SymBool:
        return mknum(num_expr(x))
    if t is SymReal:
        return trunc(x)
    if x is UNDEF:
        UNDEF._die()
    return int(x)


def _float(x=0.0):
    if type(x) is SymUnion:
        return lift(_float, x)
    t = type(x)
    if t is SymStr:
        return text.py_float(x)
    if t is SymReal:
        return x
    if t in (SymInt, SymBool):
        return mknum(toreal(num_expr(x)))
    return float(x)


def _bool(x=False):
    return mkbool(truth(x))


def _str(x="", *a):
    if a and type(x) is EncText:
        return x.decode(*a)
    if type(x) is SymUnion:
        return lift(_str, x)
    if isinstance(x, Sym) or hasattr(type(x), "_to_text"):
        return to_text(x)
    return str(x, *a)


def _list(x=()):
    return SList(resolve(x))


def _tuple(x=()):
    return tuple(resolve(x))


def _dict(*a, **k):
    d = SDict()
    if a:
        src = a[0]
        if type(src) in (SDict, SObjDict):
            return _dcopy(src, k)
        d.update(src)
    for kk, v in k.items():
        d[kk] = v
    return d


def _dcopy(src, k):
    d = SDict([list(e) for e in src.ents])
    d._imp = getattr(core.E, "importing", False)
    for kk, v in k.items():
        d[kk] = v
    return d


class SSet(Sym):
    """Set with symbolic members (insertion ordered): [member, present]."""

    __slots__ = ("ents", "_imp", "_g")
    __hash__ = None

    def __init__(self, xs=()):
        self.ents = []
        self._imp = getattr(core.E, "importing", False)
        self._g = core.E.tokens()
        if type(xs) is SSet:
            self.ents = [list(e) for e in xs.ents]
        else:
            for x, p in _members(xs):
                self._put(x, p)

    @property
    def __class__(self):
        return set

    def _put(self, x, p=True):
        if self._imp:
            core.E.dirty = True
        x = resolve(x)
        if not core._hashable(x):
            raise TypeError("unhashable type: %r" % type(x).__name__)
        g = core.E.relative_guard(self._g) if core.E.guards else None
        p = conj([p, True if g is None else g])
        p = core.simp(core.bexpr(p)) if not isinstance(p, bool) else p
        cs = []
        for i, (y, q) in enumerate(self.ents):
            c = eq(x, y)
            if c is True:
                # the very member: there already, or from now on
                self.ents[i] = [y, disj([q, p]) if q is not True else True]
                return
            if c is not False:
                cs.append(conj([q, c]))
        has = disj(cs)
        if has is True:
            return
        self.ents.append([x, conj([p, core.neg(has)])])

    def add(self, x):
        self._put(x)

    def update(self, *xs):
        for o in xs:
            for x, p in _members(o):
                self._put(x, p)

    def _drop(self, f):
        """Remove the members y for which f(y)."""
        if self._imp:
            core.E.dirty = True
        g = core.E.relative_guard(self._g) if core.E.guards else None
        out = []
        for y, q in self.ents:
            c = f(y)
            if g is not None:
                c = conj([c, g])
            if c is True:
                continue
            out.append([y, conj([q, core.neg(c)])])
        self.ents = out

    def discard(self, x):
        self._drop(lambda y: eq(x, y))

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        self._settle()
        if core.E.guards and core.E.relative_guard(self._g) is not None:
            core.E.abort_merge("set mutated under a guard")
        if not self.ents:
            raise KeyError("pop from an empty set")
        return self.ents.pop(0)[0]

    def clear(self):
        self._drop(lambda y: True)

    def difference_update(self, *os):
        for o in os:
            o = _members(o)
            self._drop(lambda y: _among(y, o))

    def intersection_update(self, *os):
        for o in os:
            o = _members(o)
            self._drop(lambda y: core.neg(_among(y, o)))

    def __contains__(self, x):
        return text.decide(self._has(x))

    def _has(self, x):
        if not core._hashable(resolve(x)):
            raise TypeError("unhashable type")
        return _among(x, self.ents)

    def _settle(self):
        self.ents = [[y, True] for y, q in self.ents if text.decide(q)]

    def __iter__(self):
        for y, q in list(self.ents):
            if text.decide(q):
                yield y

    def __len__(self):
        return sum(1 for _ in self)

    def _len(self):
        n = 0
        for _, q in self.ents:
            n = n + (1 if q is True else mknum(z3.If(q, z3.IntVal(1), z3.IntVal(0))))
        return n

    def _truth(self):
        return disj([q for _, q in self.ents])

    def __bool__(self):
        return text.decide(self._truth())

    def _filter(self, f):
        r = SSet()
        for y, q in self.ents:
            p = conj([q, f(y)])
            if p is not False:
                r.ents.append([y, p])
        return r

    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r

    def difference(self, *os):
        r = self
        for o in os:
            o = _members(o)
            r = r._filter(lambda y: core.neg(_among(y, o)))
        return r if os else SSet(self)

    def intersection(self, *os):
        r = self
        for o in os:
            o = _members(o)
            r = r._filter(lambda y: _among(y, o))
        return r if os else SSet(self)

    def symmetric_difference(self, o):
        a = _members(o)
        r = self._filter(lambda y: core.neg(_among(y, a)))
        for x, p in a:
            r._put(x, conj([p, core.neg(self._has(x))]))
        return r

    def issubset(self, o):
        o = _members(o)
        return mkbool(conj([disj([core.neg(q), _among(y, o)]) for y, q in self.ents]))

    def issuperset(self, o):
        return mkbool(conj([disj([core.neg(q), self._has(y)]) for y, q in _members(o)]))

    def isdisjoint(self, o):
        return mkbool(core.neg(disj([conj([q, self._has(y)]) for y, q in _members(o)])))

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SSet(self)

    def __or__(self, o):
        return self.union(o) if _setlike(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if _setlike(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if _setlike(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if _setlike(o) else NotImplemented

    def __ror__(self, o):
        return SSet(o).union(self)

    def __rand__(self, o):
        return SSet(o).intersection(self)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def __rxor__(self, o):
        return SSet(o).symmetric_difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return mkbool(conj([core.bexpr(self.issubset(o)), core.neg(core.bexpr(self.issuperset(o)))]))

    def __gt__(self, o):
        return mkbool(conj([core.bexpr(self.issuperset(o)), core.neg(core.bexpr(self.issubset(o)))]))

    def __eq__(self, o):
        return mkbool(_eq_set(self, o) if _setlike(o) else False)

    def __ne__(self, o):
        return mkbool(core.neg(core.bexpr(self == o)))


def _setlike(o):
    return isinstance(o, (set, frozenset)) or type(o) is core._View


def _members(xs):
    """[(member, present)] of any iterable."""
    xs = resolve(xs)
    if type(xs) is SSet:
        return [tuple(e) for e in xs.ents]
    if type(xs) in (SDict, SObjDict):
        return [(k, p) for k, _, p in xs.ents]
    if type(xs) is core._View:
        return [(e[0] if xs.what == 0 else e[1] if xs.what == 1 else (e[0], e[1]), e[2])
                for e in xs.d.ents]
    return [(x, True) for x in xs]


def _among(x, ents):
    return disj([conj([q, eq(x, y)]) for y, q in ents])


def _eq_set(a, b):
    if type(a) is not SSet and type(b) is not SSet:
        return NotImplemented
    if not (_setlike(a) and _setlike(b)):
        return False
    x, y = _members(a), _members(b)
    return conj([disj([core.neg(p), _among(v, o)]) for s, o in ((x, y), (y, x)) for v, p in s])


core._EQ_HOOKS.append(_eq_set)


def _set(xs=()):
    return SSet(resolve(xs))


def _bytes(*a):
    if a and type(a[0]) in (SymBytes, Packed, EncText):
        return a[0]
    if a and type(a[0]) is SymStr:
        return EncText(a[0])
    if a and isinstance(a[0], (list, tuple)) and any(isinstance(x, Sym) for x in a[0]):
        return SymBytes(a[0])
    return bytes(*a)


def from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is Packed:
        b = b.raw()
    xs = list(b)
    if not any(isinstance(x, Sym) for x in xs):
        return int.from_bytes(bytes(xs), byteorder, signed=signed)
    if byteorder == "big":
        xs.reverse()
    r = 0
    for i, x in enumerate(xs):
        r = r + (x << (8 * i))
    if signed:
        n = 8 * len(xs)
        r = mknum(z3.If(num_expr(r) >= (1 << (n - 1)), num_expr(r) - (1 << n), num_expr(r)))
    return r


def bytes_fromhex(s, spaces=True):
    """bytes.fromhex(text), binascii.unhexlify(text)"""
    if type(s) is not SymStr:
        return bytes.fromhex(s)
    at = s._chars()
    out, i = [], 0
    bad = "non-hexadecimal number found in fromhex() arg"
    if at:
        vs = [text._digit_value(a, 16) for a in at]
        if text.decide(text.conj([x[0] for x in vs])):
            if len(vs) % 2:
                raise ValueError(bad)
            return SymBytes([mknum(vs[i][1] * 16 + vs[i + 1][1]) for i in range(0, len(vs), 2)])
        blank = [text.ch_in(a, text.WS) for a in at] if spaces else []
        if not spaces or not text.decide(core.disj(blank)):
            raise ValueError(bad)
    while i < len(at):
        if spaces and text.decide(text.ch_in(at[i], text.WS)):
            i += 1
            continue
        v = []
        for a in at[i:i + 2]:
            ok, val = text._digit_value(a, 16)
            if not text.decide(ok):
                raise ValueError(bad)
            v.append(val)
        if len(v) < 2:
            raise ValueError(bad)
        out.append(mknum(v[0] * 16 + v[1]))
        i += 2
    return SymBytes(out)


class TypeShim:
    """Stands for a builtin type in the rewritten code."""

    def __init__(self, real, make, extra=None):
        self._real = real
        self._make = make
        self._extra = extra or {}
        self.__name__ = real.__name__
        self.__qualname__ = real.__name__
        self.__doc__ = real.__doc__
        self.__module__ = "builtins"

    def __call__(self, *a, **k):
        return self._make(*a, **k)

    def __instancecheck__(self, o):
        return sx_isinstance(o, self._real)

    def __subclasscheck__(self, c):
        if isinstance(c, TypeShim):
            c = c._real
        return issubclass(c, self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getitem__(self, k):
        return self._real[k]

    def __or__(self, o):
        import typing

        return typing.Union[self._real, o]

    __ror__ = __or__

    def __eq__(self, o):
        return self._real is (o._real if type(o) is TypeShim else o)

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)

    def __getattr__(self, name):
        if name in ("_extra", "_real"):
            raise AttributeError(name)
        if name in self._extra:
            return self._extra[name]
        r = getattr(self._real, name)
        if name.startswith("__"):
            return r

        def method(obj, *a, **k):
            return sx_m(obj, name)(*a, **k)

        method.__name__ = name
        return method


SHIMS = {}


def _mk_shims():
    for real, make, extra in [
        (int, _int, {"from_bytes": from_bytes}),
        (float, _float, {"fromhex": float.fromhex}),
        (bool, _bool, None),
        (str, _str, {"maketrans": str.maketrans}),
        (list, _list, None),
        (tuple, _tuple, None),
        (dict, _dict, {"fromkeys": lambda ks, v=None: SDict([[k, v, True] for k in ks])}),
        (set, _set, None),
        (frozenset, _set, None),
        (bytes, _bytes, {"fromhex": bytes_fromhex}),
        (bytearray, _bytes, {"fromhex": bytes_fromhex}),
    ]:
        SHIMS[real] = TypeShim(real, make, extra)


_mk_shims()


def unshim(c):
    if type(c) is TypeShim:
        return c._real
    if type(c) is tuple:
        return tuple(unshim(x) for x in c)
    return c


def sx_isinstance(o, cls):
    if type(o) is SymUnion:
        # undecided: settle only as far as the answer differs
        gs = []
        for g, x in o.alts:
            if x is UNDEF:
                return sx_isinstance(resolve(o), cls)
            gs.append((g, sx_isinstance(x, cls)))
        return mkbool(disj([conj([g, core.bexpr(r)]) for g, r in gs]))
    if o is UNDEF:
        UNDEF._die()
    cls = unshim(cls)
    if isinstance(cls, tuple):
        return any(sx_isinstance(o, c) for c in cls)
    if cls is builtins.dict and type(o) in (SDict, SObjDict):
        return True
    if isinstance(o, Sym) and isinstance(cls, type):
        c = o.__class__
        return issubclass(c, cls)
    return isinstance(o, cls)


def sx_issubclass(c, cls):
    return issubclass(unshim(c), unshim(cls))


def sx_type(*a):
    if len(a) != 1:
        return type(*a)
    o = resolve(a[0])
    if o is UNDEF:
        UNDEF._die()
    t = o.__class__ if isinstance(o, Sym) else type(o)
    if t is SList:
        t = list
    return SHIMS.get(t, t)


class _TypeType:
    """`type` in the rewritten code."""

    def __call__(self, *a, **k):
        return sx_type(*a, **k)

    def __instancecheck__(self, o):
        return isinstance(o, (type, TypeShim))

    def __mro_entries__(self, bases):
        return (type,)

    def __getitem__(self, k):
        return type[k]


def sx_len(o):
    if type(o) is SymUnion:
        return lift(sx_len, o)
    f = getattr(type(o), "_len", None)
    if f is not None:
        return f(o)
    return len(o)


def sx_hasattr(o, n):
    o = resolve(o)
    if isinstance(o, Sym):
        return hasattr(o.__class__, n) or n in getattr(type(o), "__dict__", {})
    try:
        v = getattr(o, n)
    except AttributeError:
        return False
    if type(v) is SymUnion and any(x is UNDEF for _, x in v.alts):
        return mkbool(disj([g for g, x in v.alts if x is not UNDEF]))
    return v is not UNDEF


_MISS = object()


def sx_getattr(o, n, default=_MISS):
    o = resolve(o)
    n = resolve(n)
    if type(n) is SymStr:
        raise Unsupported("attribute named by symbolic text")
    if n == "__dict__":
        return sx_objdict(o)
    if default is _MISS:
        v = getattr(o, n)
    else:
        v = getattr(o, n, default)
    if type(v) is SymUnion and any(x is UNDEF for _, x in v.alts):
        if text.decide(disj([g for g, x in v.alts if x is UNDEF])):
            if default is _MISS:
                raise AttributeError(n)
            return default
    return v


def sx_setattr(o, n, v):
    setattr(resolve(o), n, v)


def sx_delattr(o, n):
    delattr(resolve(o), n)


def _extreme(args, key, default, lt, name):
    if len(args) == 1:
        xs = list(resolve(args[0]))
        if not xs:
            if default is _MISS:
                raise ValueError("%s() iterable argument is empty" % name)
            return default
    else:
        xs = list(args)
    ks = [key(x) for x in xs] if key else xs
    best, kb = xs[0], resolve(ks[0])
    for x, k in zip(xs[1:], ks[1:]):
        k = resolve(k)
        c = lt(k, kb)
        if is_num(k) and is_num(kb) and (key is None or is_num(x)):
            c = core.bexpr(c)
            if isinstance(c, bool):
                if c:
                    best, kb = x, k
            else:
                best, kb = merge(c, x, best), merge(c, k, kb)
        elif c:
            best, kb = x, k
    return best


def sx_max(*a, key=None, default=_MISS):
    return _extreme(a, key, default, lambda x, y: x > y, "max")


def sx_min(*a, key=None, default=_MISS):
    return _extreme(a, key, default, lambda x, y: x < y, "min")


def sx_ord(c):
    c = resolve(c)
    if type(c) is SymStr:
        at = c._chars()
        if len(at) != 1:
            raise TypeError("ord() expected a character")
        return ord(at[0]) if isinstance(at[0], str) else SymInt(at[0].code)
    return ord(c)


def sx_chr(n):
    n = resolve(n)
    return mk([text.Ch(n.e)]) if type(n) is SymInt else chr(n)


def sx_print(*a, **k):
    f = k.get("file")
    if f is None or f is sys.stdout or f is sys.stderr:
        core.E.event("printing")
    else:
        f.write(" ")


def sx_vars(o=_MISS):
    if o is _MISS:
        return dict(sys._getframe(1).f_locals)
    return sx_objdict(resolve(o))


def sx_sorted(xs, *, key=None, reverse=False):
    return SList(sorted(resolve(xs), key=key, reverse=reverse))


def sx_format(v, spec=""):
    return fmt1(v, spec)


def sx_callable(o):
    return callable(resolve(o))


def sx_next(o, *default):
    o = resolve(o)
    h = getattr(type(o), "_next", None)
    if h is not None and default:
        return h(o, *default)
    return next(o, *default)


def sx_iter(o, *a):
    return iter(resolve(o), *a)


def sx_round(x, n=None):
    x = resolve(x)
    return round(x) if n is None else round(x, n)


def sx_divmod(a, b):
    a = resolve(a)
    return (a // b, a % b)


def sx_memoryview(b):
    b = resolve(b)
    if type(b) is Packed:
        return b.raw()
    return b if type(b) is SymBytes else memoryview(b)


def sx_repr(o):
    return "'" + to_text(o) + "'" if type(o) is SymStr else repr(o)


def sx_hash(o):
    return hash(resolve(o))


def sx_sum(xs, start=0):
    r = start
    for x in resolve(xs):
        r = r + x
    return r


# --------------------------------------------------------- rewriting helpers
class Star:
    pass


STAR = Star()


def sx_if(v):
    return core.E.begin_if(v)


def sx_cap(names):
    loc = sys._getframe(1).f_locals
    return tuple([loc.get(n, UNDEF) for n in names])


def _join(self, a, b):
    return tuple([merge(self.cond, x, y) for x, y in zip(a, b)])


core.If.join = _join


def sx_is(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymUnion:
        return mkbool(disj([conj([g, core.bexpr(sx_is(x, b))]) for g, x in a.alts]))
    if tb is SymUnion:
        return sx_is(b, a)
    if a is UNDEF or b is UNDEF:
        UNDEF._die()
    if a is None or b is None:
        return False
    if ta is SymBool and b in (True, False) and tb is bool:
        return mkbool(a.e if b else neg(a.e))
    if tb is SymBool and ta is bool:
        return mkbool(b.e if a else neg(b.e))
    if ta in (TypeShim, type) or tb in (TypeShim, type):
        return unshim(a) is unshim(b)
    return False


def sx_isnot(a, b):
    return sx_not(sx_is(a, b))


def sx_not(v):
    return mkbool(neg(truth(v)))


def sx_in(x, c):
    c = resolve(c)
    tc = type(c)
    if tc in (SDict, SObjDict):
        return mkbool(_has_key(c, x))
    if isinstance(c, str) and tc is not SymStr:
        if type(x) is SymUnion:
            return mkbool(disj([conj([g, core.bexpr(sx_in(y, c))]) for g, y in x.alts]))
        if type(x) is SymStr:
            return mkbool(SymStr((c,))._has(x) if c else eq(x, ""))
        return x in c
    h = getattr(tc, "_has", None)
    if h is not None:
        if type(x) is SymUnion:
            return mkbool(disj([conj([g, core.bexpr(sx_in(y, c))]) for g, y in x.alts]))
        return mkbool(h(c, x))
    if isinstance(c, (tuple, list, set, frozenset)):
        return mkbool(disj([eq(x, y) for y in c]))
    if isinstance(c, dict):
        if isinstance(x, Sym):
            return mkbool(disj([eq(x, y) for y in c]))
        return x in c
    if isinstance(c, range) and type(x) is SymInt:
        if c.step == 1:
            return mkbool(z3.And(x.e >= c.start, x.e < c.stop))
        return mkbool(disj([eq(x, y) for y in c]))
    if tc is core._View:
        if c.what == 0:
            return mkbool(_has_key(c.d, x))
        return mkbool(disj([eq(x, y) for y in c]))
    return mkbool(truth(x in c))


def _has_key(d, x):
    if type(x) is SymUnion:
        return disj([conj([g, _has_key(d, y)]) for g, y in x.alts])
    if type(x) in core._PLAIN and d.idx is not None:
        i = d.idx.get((type(x) is str, x))
        return False if i is None else d.ents[i][2]
    if not core._hashable(x):
        raise TypeError("unhashable type")
    return disj([conj([p, eq(k, x)]) for k, _, p in d.ents])


def sx_notin(x, c):
    return sx_not(sx_in(x, c))


def _choose(v, t, f_then, f_else):
    """Value of `f_then() if v else f_else()` with joint evaluation."""
    it = core.E.begin_if(v)
    try:
        a = b = None
        if it.then():
            a = f_then()
        if it.orelse():
            b = f_else()
        if it.merging:
            it.leave()
            return merge(it.cond, a, b)
        return a if it.value else b
    except BaseException as e:
        it.abort(e)
        raise


def sx_and(*fs):
    v = fs[0]()
    if len(fs) == 1:
        return v
    return _choose(v, None, lambda: sx_and(*fs[1:]), lambda: v)


def sx_or(*fs):
    v = fs[0]()
    if len(fs) == 1:
        return v
    return _choose(v, None, lambda: v, lambda: sx_or(*fs[1:]))


def sx_ifexp(t, a, b):
    return _choose(t, None, a, b)


def fmt1(v, spec, conv=-1):
    v = resolve(v)
    spec = resolve(spec)
    if conv == 114:
        return sx_repr(v)
    if not spec or spec in ("s", "d"):
        if isinstance(v, Sym) or hasattr(type(v), "_to_text"):
            return to_text(v)
        return format(v, spec)
    if isinstance(v, Sym):
        if isinstance(spec, str) and type(v) is SymStr and spec[0] in "<>0" and spec[1:].isdigit():
            if spec[0] == "<":
                return v.ljust(int(spec[1:]))
            return v.rjust(int(spec[1:]))
        raise Unsupported("format spec %r" % (spec,))
    return format(v, spec)


def sx_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.extend(parts_of(fmt1(p[0], p[2], p[1])))
    return mk(out)


def sx_mod(a, b):
    if type(a) is str:
        args = b if type(b) is tuple else (b,)
        args = [resolve(x) for x in args]
        if any(isinstance(x, Sym) or hasattr(type(x), "_to_text") for x in args):
            return percent(a, args)
        if type(b) in (SDict,):
            raise Unsupported("% with a mapping")
        return a % (tuple(args) if type(b) is tuple else args[0])
    return a % b


def percent(a, args):
    import re

    out, args = [], list(args)
    for piece in re.split(r"(%%|%[-+0# ]*\d*(?:\.\d+)?[a-zA-Z])", a):
        if piece == "%%":
            out.append("%")
        elif piece.startswith("%") and len(piece) > 1:
            v = args.pop(0)
            if piece in ("%s", "%d", "%i"):
                out.extend(parts_of(to_text(v)))
            elif piece == "%r":
                out.extend(parts_of(sx_repr(v)))
            elif isinstance(v, Sym):
                raise Unsupported("format " + piece)
            else:
                out.append(piece % v)
        else:
            out.append(piece)
    return mk(out)


def sx_list(xs):
    return SList(xs)


def sx_set(xs):
    return SSet(xs)


def sx_dict(items):
    d = SDict()
    for k, v in items:
        if k is STAR:
            v = resolve(v)
            if type(v) in (SDict, SObjDict):
                _absorb(d, v)
            else:
                d.update(v)
        else:
            d[k] = v
    d._imp = getattr(core.E, "importing", False)
    return d


def _absorb(d, src):
    """d.update(src) keeping conditional presence."""
    for k, v, p in list(src.ents):
        d._set(k, v, p)


def sx_haskeys(*lookups):
    """Whether `d[k]` finds its key, for mappings with keys that may be missing;
    True for all else (the `try` around it then decides)."""
    conds = []
    for look in lookups:
        try:
            d, k = look()
        except Exception:
            return True
        if not isinstance(d, core.SDict) or d.default_factory is not None or not isinstance(k, (str, int, Sym)):
            continue
        conds.append(d.has(k))
    if any(c is False for c in conds):
        return False
    return mkbool(conj(conds))


def sx_giter(it):
    """(presence, item) pairs: items that may be missing are not decided here."""
    it = resolve(it)
    t = type(it)
    if t in (SDict, SObjDict):
        return [(mkbool(p), k) for k, _, p in it.ents]
    if t is core._View:
        w = it.what
        return [(mkbool(p), k if w == 0 else v if w == 1 else (k, v)) for k, v, p in it.d.ents]
    h = getattr(t, "_pairs", None)
    if h is not None:
        return h(it)
    return _always(it)


def sx_first(it):
    """(is there an item, the first item): what a loop ended by `break` sees."""
    it = resolve(it)
    h = getattr(type(it), "_next", None)
    if h is not None:
        v = h(it, SKIP)
        if type(v) is not SymUnion:
            return v is not SKIP, v
        return mkbool(neg(disj([g for g, x in v.alts if x is SKIP]))), v
    pairs = iter(sx_giter(it))
    alts, before = [], []
    for p, x in pairs:
        p = core.bexpr(p)
        if p is False:
            continue
        alts.append((conj([p] + before), x))
        if p is True:
            before = None
            break
        before.append(neg(p))
    if not alts:
        return False, None
    if len(alts) == 1 and alts[0][0] is True:
        return True, alts[0][1]
    there = True if before is None else neg(conj(before))
    rest = [] if before is None else [(conj(before), None)]
    return mkbool(there), core.mkunion(alts + rest) if len(alts + rest) > 1 else alts[0][1]


def _always(it):
    for x in it:
        yield True, x


def sx_findall(o, *a, **k):
    """o.findall(path) about to be iterated over."""
    o = resolve(o)
    h = getattr(type(o), "_found", None)
    if h is not None:
        return h(o, *a, **k)
    return o.findall(*a, **k)


def sx_iterfind(o, *a, **k):
    o = resolve(o)
    h = getattr(type(o), "_found", None)
    if h is not None:
        return h(o, *a, **k)
    return o.iterfind(*a, **k)


def sx_dictcomp(it, cond, item):
    """{k: v for .. in it if cond} with conditionally present entries."""
    d = SDict()
    for p, x in sx_giter(it):
        c = sx_and(lambda: p, lambda: cond(x)) if cond is not None else p
        pair = _choose(c, None, lambda: item(x), lambda: SKIP)
        if pair is SKIP:
            continue
        if type(pair) is SymUnion:
            for g, y in pair.alts:
                if y is not SKIP:
                    d._set(y[0], y[1], g)
        else:
            d[pair[0]] = pair[1]
    d._imp = getattr(core.E, "importing", False)
    return d


class GenExp:
    """(item for .. in it if cond) over items that may be missing."""

    def __init__(self, it, cond, item):
        self.it, self.cond, self.item = it, cond, item
        self.src = None

    def __iter__(self):
        return self

    def _source(self):
        if self.src is None:
            self.src = iter(sx_giter(self.it))
        return self.src

    def __next__(self):
        for p, x in self._source():
            if truth_now(p) and (self.cond is None or truth_now(self.cond(x))):
                return self.item(x)
        raise StopIteration

    def _pairs(self):
        for p, x in self._source():
            c = sx_and(lambda: p, lambda: self.cond(x)) if self.cond is not None else p
            v = _choose(c, None, lambda: self.item(x), lambda: SKIP)
            if v is SKIP:
                continue
            if type(v) is SymUnion:
                left = [(g, y) for g, y in v.alts if y is not SKIP]
                there = mkbool(disj([g for g, _ in left]))
                yield there, left[0][1] if len(left) == 1 else core.mkunion(left)
            else:
                yield True, v


def truth_now(v):
    t = truth(v)
    return t if isinstance(t, bool) else core.E.branch(t)


class _Skip:
    pass


SKIP = _Skip()


def sx_objdict(o):
    o = resolve(o)
    if isinstance(o, (type, type(sys))):
        return o.__dict__
    return SObjDict(o)


def sx_bound(o, name):
    o = resolve(o)
    if type(o) is str:
        return getattr(SymStr([o]), name)
    return getattr(o, name)


def sx_call(f, args, kws):
    f = resolve(f)
    kw = SDict()
    for k, v in kws:
        if k is STAR:
            v = resolve(v)
            if type(v) in (SDict, SObjDict):
                for kk, _, p in v.ents:
                    if _has_key(kw, kk) is not False:
                        raise TypeError("got multiple values for keyword argument %r" % (kk,))
                _absorb(kw, v)
            else:
                for kk in v.keys():
                    if _has_key(kw, kk) is not False:
                        raise TypeError("got multiple values for keyword argument %r" % (kk,))
                    kw[kk] = v[kk]
        else:
            if _has_key(kw, k) is not False:
                raise TypeError("got multiple values for keyword argument %r" % (k,))
            kw[k] = v
    cond = [e for e in kw.ents if e[2] is not True]
    params = None
    if cond:
        import inspect

        try:
            params = inspect.signature(f).parameters
        except (TypeError, ValueError):
            params = {}
    real = {}
    for k, v, p in kw.ents:
        if type(k) is SymStr:
            raise Unsupported("keyword named by symbolic text")
        if p is True:
            real[k] = v
            continue
        d = params.get(k)
        if d is not None and d.default is not d.empty and not _is_nothing(d.default):
            real[k] = merge(p, v, d.default)
        elif core.E.branch(p):
            real[k] = v
    return f(*args, **real)


def _is_nothing(d):
    import attr

    return d is attr.NOTHING


class StrMethod:
    def __init__(self, s, name):
        self.s = s
        self.name = name

    def __call__(self, *a, **k):
        a = [resolve(x) for x in a]
        name = self.name
        if name == "join":
            xs = list(a[0])
            return join(self.s, xs)
        if name in ("format", "format_map"):
            return _format(self.s, a, k)
        if any(_symbolic(x) for x in a):
            m = getattr(SymStr((self.s,)) if self.s else SymStr(()), name)
            return m(*a, **k)
        r = getattr(self.s, name)(*a, **k)
        return SList(r) if type(r) is list else r


def _symbolic(x):
    if isinstance(x, tuple):
        return any(_symbolic(y) for y in x)
    return isinstance(x, Sym)


def _format(s, a, k):
    import string

    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field " + field)
        out.extend(parts_of(fmt1(v, spec or "", ord(conv) if conv else -1)))
    return mk(out)


def sx_m(o, name):
    if type(o) is str:
        return StrMethod(o, name)
    if type(o) is SymUnion:
        return sx_m(resolve(o), name)
    return getattr(o, name)


def sx_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, ENGINE_EXC):
        raise e


def sx_enter(name):
    core.E.entered.add(name)


HELPERS = {
    "_sx_if": sx_if, "_sx_cap": sx_cap, "_sx_is": sx_is, "_sx_isnot": sx_isnot,
    "_sx_not": sx_not, "_sx_in": sx_in, "_sx_notin": sx_notin, "_sx_and": sx_and,
    "_sx_or": sx_or, "_sx_ifexp": sx_ifexp, "_sx_fstr": sx_fstr, "_sx_mod": sx_mod,
    "_sx_list": sx_list, "_sx_set": sx_set, "_sx_dict": sx_dict, "_sx_star": STAR,
    "_sx_haskeys": sx_haskeys,
    "_sx_giter": sx_giter, "_sx_first": sx_first, "_sx_findall": sx_findall, "_sx_iterfind": sx_iterfind,
    "_sx_dictcomp": sx_dictcomp, "_sx_genexp": GenExp,
    "_sx_objdict": sx_objdict, "_sx_call": sx_call, "_sx_bound": sx_bound, "_sx_m": sx_m,
    "_sx_reraise": sx_reraise, "_sx_enter": sx_enter, "_sx_BaseException": BaseException,
}


def make_builtins(open_, import_):
    b = dict(vars(builtins))
    b.update(HELPERS)
    for real, sh in SHIMS.items():
        b[real.__name__] = sh
    b.update({
        "len": sx_len, "isinstance": sx_isinstance, "issubclass": sx_issubclass,
        "type": _TypeType(), "hasattr": sx_hasattr, "getattr": sx_getattr,
        "setattr": sx_setattr, "delattr": sx_delattr, "max": sx_max, "min": sx_min,
        "ord": sx_ord, "chr": sx_chr, "print": sx_print, "vars": sx_vars,
        "sorted": sx_sorted, "format": sx_format, "callable": sx_callable,
        "iter": sx_iter, "next": sx_next, "round": sx_round, "divmod": sx_divmod, "sum": sx_sum,
        "memoryview": sx_memoryview, "repr": sx_repr, "hash": sx_hash,
        "open": open_, "__import__": import_,
    })
    for bad in ("eval", "exec", "compile", "input", "breakpoint"):
        def refuse(*a, _n=bad, **k):
            raise Unsupported(_n)
        b[bad] = refuse
    return b


# ------------------------------------------------------------- struct
def unpack_all(fmt, data):
    if type(data) is Packed:
        data = data.raw()
    import re

    fmt = resolve(fmt)
    if not isinstance(fmt, str) or isinstance(fmt, Sym):
        raise Unsupported("symbolic struct format")
    order = "little"
    body = fmt
    if fmt and fmt[0] in "<>=!@":
        order = "big" if fmt[0] in ">!" else "little"
        body = fmt[1:]
    out, i, xs = [], 0, list(data)
    for num, c in re.findall(r"\s*(\d*)([a-zA-Z?])", body):
        n = int(num) if num else 1
        if c == "x":
            i += n
            continue
        if c == "s":
            out.append(SymBytes(xs[i : i + n]))
            i += n
            continue
        w = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}.get(c)
        if w is None:
            raise Unsupported("struct code " + c)
        if c in "lL" and (not fmt or fmt[0] not in "<>=!"):
            w = 8
        for _ in range(n):
            chunk = xs[i : i + w]
            if len(chunk) != w:
                raise _struct.error("unpack requires a buffer of more bytes")
            out.append(from_bytes(chunk, order, signed=c.islower()))
            i += w
    return tuple(out), i
