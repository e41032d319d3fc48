"""Symbolic text: ropes of literal, per-character, numeric and opaque parts."""
import z3
from . import core
from .core import (
    Sym, SymInt, SymReal, SymBool, SymUnion, SymBytes, Unsupported, Infeasible,
    conj, disj, neg, mkbool, mknum, num_expr, simp, eq, SList, resolve, is_num,
)

WS = " \t\n\r\x0b\x0c"
MAX_EXPAND = 12


class Ch:
    """One symbolic character: code is a z3 Int.  dom names a known alphabet."""

    __slots__ = ("code", "dom", "nib")

    def __init__(self, code, dom=None, nib=None):
        self.code = code
        self.dom = dom  # frozenset of possible code points, or None (printable)
        self.nib = nib  # z3 Int: value as a hexadecimal digit, when it is one

    def same(self, o):
        return self.code.eq(o.code)


class Byte(Ch):
    """A byte that is part of no character, as Python escapes it: U+DC80 to U+DCFF."""

    __slots__ = ()


class IntTxt:
    """Canonical decimal text of an integer."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def same(self, o):
        return self.e.eq(o.e)


class RealTxt:
    """Decimal text of k/8: as Tiled writes it, or (py) as Python's str(float)."""

    __slots__ = ("k", "py")

    def __init__(self, k, py=False):
        self.k = k
        self.py = py

    @property
    def e(self):
        return z3.ToReal(self.k) / 8

    def same(self, o):
        return self.k.eq(o.k) and self.py == o.py


class Opq:
    """Text known only as a z3 String.  seg: it is a plain path segment."""

    __slots__ = ("e", "seg")

    def __init__(self, e, seg=False):
        self.e = e
        self.seg = seg

    def same(self, o):
        return self.e.eq(o.e)


class B64:
    """Base64 text of a payload (SymBytes or Packed)."""

    __slots__ = ("payload",)

    def __init__(self, payload):
        self.payload = payload

    def same(self, o):
        return self.payload is o.payload


class DocTxt:
    """The rest of a document's text."""

    __slots__ = ("doc",)

    def __init__(self, doc):
        self.doc = doc

    def same(self, o):
        return self.doc is o.doc


ATOMIC = (IntTxt, RealTxt, Opq, B64, DocTxt)
NUMERIC_CHARS = set("0123456789.-")
BLANK = " \t\n\r"  # the blanks an Opq can hold
NOT_IN_SEG = "/.\t\n\r\x0b\x0c"


def _norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, Opq):
            if z3.is_string_value(p.e):
                v = z3_str(p.e)
                if out and isinstance(out[-1], str):
                    out[-1] += v
                elif v:
                    out.append(v)
                continue
        elif isinstance(p, Ch):
            if z3.is_int_value(p.code):
                v = chr(p.code.as_long())
                if out and isinstance(out[-1], str):
                    out[-1] += v
                else:
                    out.append(v)
                continue
        elif isinstance(p, IntTxt):
            if z3.is_int_value(p.e):
                v = str(p.e.as_long())
                if out and isinstance(out[-1], str):
                    out[-1] += v
                else:
                    out.append(v)
                continue
        out.append(p)
    return out


def mk(parts):
    """Parts -> str or SymStr."""
    ps = _norm(parts)
    if not ps:
        return ""
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return SymStr(ps)


def parts_of(v):
    if type(v) is SymStr:
        return v.parts
    if isinstance(v, str):
        return (v,) if v else ()
    raise TypeError("expected str, got %s" % _tn(v))


def _tn(v):
    return type(v).__name__ if v is not None else "NoneType"


def is_text(v):
    return type(v) is SymStr or (isinstance(v, str) and not isinstance(v, Sym))


def atoms(parts):
    """Characters of literals (str of length 1), Ch, or atomic parts."""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def charlike(a):
    return isinstance(a, (str, Ch))


def code(a):
    return z3.IntVal(ord(a)) if isinstance(a, str) else a.code


def ch_in(a, chars):
    """bool/z3: the character is one of `chars`."""
    if isinstance(a, str):
        return a in chars
    if a.dom is not None:
        inter = [c for c in a.dom if chr(c) in chars]
        if not inter:
            return False
        if len(inter) == len(a.dom):
            return True
    return _ranges(a.code, sorted(set(ord(c) for c in chars)))


def _ranges(e, codes):
    cs, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        cs.append(e == codes[i] if i == j else z3.And(e >= codes[i], e <= codes[j]))
        i = j + 1
    return z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(False))


def decide(c):
    return c if isinstance(c, bool) else core.E.branch(c)


# ------------------------------------------------------------ z3 strings
def int_str(e):
    return z3.If(e < 0, z3.Concat(z3.StringVal("-"), z3.IntToStr(-e)), z3.IntToStr(e))


_FRAC = ["", ".125", ".25", ".375", ".5", ".625", ".75", ".875"]


def real_str(p):
    a = z3.If(p.k < 0, -p.k, p.k)
    m = a % 8
    frac = z3.StringVal(".0" if p.py else "")
    for i in range(1, 8):
        frac = z3.If(m == i, z3.StringVal(_FRAC[i]), frac)
    body = z3.Concat(z3.IntToStr(a / 8), frac)
    return z3.If(p.k < 0, z3.Concat(z3.StringVal("-"), body), body)


def to_z3(parts):
    es = []
    for p in parts:
        if isinstance(p, str):
            es.append(z3.StringVal(p))
        elif isinstance(p, Ch):
            es.append(z3.StrFromCode(p.code))
        elif isinstance(p, IntTxt):
            es.append(int_str(p.e))
        elif isinstance(p, RealTxt):
            es.append(real_str(p))
        elif isinstance(p, Opq):
            es.append(p.e)
        else:
            raise Unsupported("text of %s as a string term" % type(p).__name__)
    if not es:
        return z3.StringVal("")
    return es[0] if len(es) == 1 else z3.Concat(*es)


def expand(p):
    """Opaque part -> characters, forking over its length (<= MAX_EXPAND).

    Longer values are left out on these paths; a cut is recorded unless the path
    condition rules them out."""
    E = core.E
    if isinstance(p, (IntTxt, RealTxt)):
        return _expand_number(p)
    elif isinstance(p, Opq):
        s = p.e
    else:
        raise Unsupported("characters of %s" % type(p).__name__)
    n = z3.Length(s)
    for k in range(MAX_EXPAND + 1):
        if E.branch(n == k):
            if k == 0:
                return []
            out = []
            for i in range(k):
                c = z3.Int("xch!%d" % E.fresh)
                E.fresh += 1
                E.add(c == z3.StrToCode(z3.SubString(s, i, 1)))
                E.add(z3.And(c >= 0, c <= 0x2FFFF))
                out.append(Ch(c))
            E.add(s == to_z3(out))
            return out
    if E.guards:
        E.abort_merge("expansion under a guard")
    E.cuts.append("text longer than %d characters taken apart" % MAX_EXPAND)
    raise Infeasible()


MAX_DIGITS = 20
_DIGIT_DOM = frozenset(range(48, 58))


def _expand_number(p):
    """Decimal text -> characters, forking over sign, length and fraction."""
    E = core.E
    if E.guards:
        E.abort_merge("expansion under a guard")
    e = p.e if isinstance(p, IntTxt) else p.k
    out = []
    if E.branch(e < 0):
        out.append("-")
        e = -e
    tail = ""
    if isinstance(p, RealTxt):
        for i in range(8):
            if i == 7 or E.branch(e % 8 == i):
                tail = _FRAC[i] or (".0" if p.py else "")
                break
        e = e / 8
    for n in range(1, MAX_DIGITS + 1):
        if E.branch(e < 10 ** n):
            ds = []
            for i in range(n):
                d = z3.Int("xdg!%d" % E.fresh)
                E.fresh += 1
                E.add(z3.And(d >= (1 if i == 0 and n > 1 else 0), d <= 9))
                ds.append(d)
            E.add(e == z3.Sum([d * 10 ** (n - 1 - i) for i, d in enumerate(ds)]))
            out.extend(Ch(d + 48, _DIGIT_DOM) for d in ds)
            out.extend(tail)
            return out
    E.cuts.append("number of more than %d digits taken apart" % MAX_DIGITS)
    raise Infeasible()


def _negative(p):
    return p.e < 0 if isinstance(p, IntTxt) else p.k < 0


def _has_point(p):
    if isinstance(p, IntTxt):
        return False
    return True if p.py else p.k % 8 != 0


# --------------------------------------------------------------- numbers
DIGITS = "0123456789"
HEXL = "0123456789abcdefABCDEF"


def _digit_value(a, base):
    """(valid, value) of one character in a base, as bool/z3 and int/z3."""
    if isinstance(a, str):
        try:
            v = int(a, 36) if a.isascii() and a.isalnum() else 99
        except ValueError:
            v = 99
        return (v < base, z3.IntVal(v if v < base else 0))
    if a.nib is not None and base == 16:
        return (True, a.nib)
    c = a.code
    dig = z3.And(c >= 48, c <= 57)
    if a.dom is not None and a.dom <= frozenset(range(48, 58)):
        return (True if base >= 10 else c < 48 + base, c - 48)
    if base <= 10:
        return (z3.And(c >= 48, c < 48 + base), c - 48)
    up = z3.And(c >= 65, c < 65 + base - 10)
    lo = z3.And(c >= 97, c < 97 + base - 10)
    return (z3.Or(dig, up, lo), z3.If(dig, c - 48, z3.If(up, c - 55, c - 87)))


def _strip_atoms(at, chars=WS, left=True, right=True):
    at = list(at)
    if left:
        while at and charlike(at[0]) and decide(ch_in(at[0], chars)):
            at.pop(0)
        if at and not charlike(at[0]):
            at = _strip_atomic(at, 0, chars)
            if at is not None and isinstance(at, tuple):
                return _strip_atoms(at[0], chars, left, right)
    if right:
        while at and charlike(at[-1]) and decide(ch_in(at[-1], chars)):
            at.pop()
        if at and not charlike(at[-1]):
            at = _strip_atomic(at, -1, chars)
            if isinstance(at, tuple):
                return _strip_atoms(at[0], chars, False, right)
    return at


def _strip_atomic(at, i, chars):
    """End part is atomic: unchanged list, or (expanded list,) to go on with."""
    p = at[i]
    if isinstance(p, (IntTxt, RealTxt)):
        cs = set(chars) & NUMERIC_CHARS
        if not cs or (i == 0 and cs <= set("+.")):
            return at
        if i == 0 and cs == {"-"} and not core.E.branch(_negative(p)):
            return at
        if i == 0 and cs == {"0"} and isinstance(p, IntTxt):
            if not core.E.branch(p.e == 0):
                return at
            return (list(at[1:]),)
    elif isinstance(p, (B64,)):
        if not any(c.isalnum() or c in "+/=" for c in chars):
            return at
    elif isinstance(p, DocTxt):
        if not any(not c.isspace() for c in chars):
            return at
    elif isinstance(p, Opq):
        if p.seg and all(c in NOT_IN_SEG for c in chars):
            return at
        cs = []
        for c in chars:
            if c in "\t\n\r" or 32 <= ord(c) < 256:
                f = z3.PrefixOf if i == 0 else z3.SuffixOf
                cs.append(f(z3.StringVal(c), p.e))
        # an empty part would expose its neighbour
        if len(at) > 1:
            cs.append(p.e == z3.StringVal(""))
        if not cs or not core.E.branch(z3.Or(*cs)):
            return at
    ex = expand(p)
    at = list(at)
    if i == 0:
        return (ex + at[1:],)
    return (at[:-1] + ex,)


def py_int(v, base=10):
    """int(text[, base])"""
    E = core.E
    at = _strip_atoms(atoms(parts_of(v)))
    if len(at) == 1 and isinstance(at[0], IntTxt):
        if base != 10:
            at = expand(at[0])
        else:
            return mknum(at[0].e)
    if len(at) == 1 and isinstance(at[0], RealTxt):
        if at[0].py or not E.branch(at[0].k % 8 == 0):
            raise ValueError("invalid literal for int() with base %d" % base)
        if base == 10:
            return mknum(at[0].k / 8)
    if len(at) == 1 and isinstance(at[0], Opq) and base == 10:
        s = at[0].e
        digs = z3.Plus(z3.Range("0", "9"))
        if E.branch(z3.InRe(s, digs)):
            return mknum(z3.StrToInt(s))
        if E.branch(z3.InRe(s, z3.Concat(z3.Re("-"), digs))):
            return mknum(-z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)))
        if E.branch(z3.InRe(s, z3.Concat(z3.Re("+"), digs))):
            return mknum(z3.StrToInt(z3.SubString(s, 1, z3.Length(s) - 1)))
        us = z3.Concat(digs, z3.Star(z3.Concat(z3.Re("_"), digs)))
        if not E.branch(z3.InRe(s, z3.Concat(z3.Option(z3.Union(z3.Re("-"), z3.Re("+"))), us))):
            raise ValueError("invalid literal for int() with base 10")
    if any(not charlike(a) for a in at):
        if any(isinstance(a, (B64, DocTxt)) for a in at):
            raise ValueError("invalid literal for int()")
        ex = []
        for a in at:
            ex.extend([a] if charlike(a) else expand(a))
        at = ex
        at = _strip_atoms(at)
    if not at:
        raise ValueError("invalid literal for int() with base %d: ''" % base)
    if base == 0:
        raise Unsupported("int(text, 0)")
    # fast path: digits only
    vs = [_digit_value(a, base) for a in at]
    if decide(conj([x[0] for x in vs])):
        return _poly([x[1] for x in vs], base)
    sign = 1
    if decide(ch_in(at[0], "-")):
        sign, at = -1, at[1:]
    elif decide(ch_in(at[0], "+")):
        at = at[1:]
    pre = {16: "xX", 8: "oO", 2: "bB"}.get(base)
    if pre and len(at) >= 2 and decide(ch_in(at[0], "0")) and decide(ch_in(at[1], pre)):
        at = at[2:]
        if at and decide(ch_in(at[0], "_")):
            at = at[1:]
    out, last_us = [], True
    for a in at:
        ok, val = _digit_value(a, base)
        if decide(ok):
            out.append(val)
            last_us = False
        elif not last_us and decide(ch_in(a, "_")):
            last_us = True
        else:
            raise ValueError("invalid literal for int() with base %d" % base)
    if not out or last_us:
        raise ValueError("invalid literal for int() with base %d" % base)
    r = _poly(out, base)
    return -r if sign < 0 else r


def _poly(vals, base):
    e = vals[0]
    for v in vals[1:]:
        e = e * base + v
    r = mknum(e)
    return r


def py_float(v):
    E = core.E
    at = _strip_atoms(atoms(parts_of(v)))
    if len(at) == 1 and isinstance(at[0], IntTxt):
        return mknum(z3.ToReal(at[0].e))
    if len(at) == 1 and isinstance(at[0], RealTxt):
        return mknum(at[0].e)
    if any(not charlike(a) for a in at):
        if any(isinstance(a, (B64, DocTxt)) for a in at):
            raise ValueError("could not convert string to float")
        ex = []
        for a in at:
            ex.extend([a] if charlike(a) else expand(a))
        at = _strip_atoms(ex)
    if all(isinstance(a, str) for a in at):
        return float("".join(at))
    if not at:
        raise ValueError("could not convert string to float: ''")
    sign = 1
    if decide(ch_in(at[0], "-")):
        sign, at = -1, at[1:]
    elif decide(ch_in(at[0], "+")):
        at = at[1:]
    vals, frac, seen = [], 0, False
    for a in at:
        ok, val = _digit_value(a, 10)
        if decide(ok):
            vals.append(val)
            frac += seen
        elif not seen and decide(ch_in(a, ".")):
            seen = True
        else:
            if decide(ch_in(a, "eE_naifNAIF")):
                raise Unsupported("float() of unusual text")
            raise ValueError("could not convert string to float")
    if not vals:
        raise ValueError("could not convert string to float")
    r = mknum(z3.ToReal(num_expr(_poly(vals, 10))) / (10 ** frac))
    return -r if sign < 0 else r


# ------------------------------------------------------------------ SymStr
class SymStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    @property
    def __class__(self):
        return str

    def __repr__(self):
        return "SymStr(%s)" % " ".join(
            repr(p) if isinstance(p, str) else "%s:%s" % (
                type(p).__name__, getattr(p, "e", getattr(p, "code", getattr(p, "k", "?"))))
            for p in self.parts)

    # -- basics
    def _truth(self):
        cs = []
        for p in self.parts:
            if isinstance(p, Opq):
                cs.append(p.e != z3.StringVal(""))
            else:
                return True
        return disj(cs)

    def __bool__(self):
        return decide(self._truth())

    def _len(self):
        n, e = 0, None
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            elif isinstance(p, Ch):
                n += 1
            elif isinstance(p, B64):
                n += b64_len(p.payload)
            else:
                t = z3.Length(to_z3([p]))
                e = t if e is None else e + t
        return n if e is None else mknum(e + n)

    def __len__(self):
        n = self._len()
        return n if isinstance(n, int) and not isinstance(n, Sym) else core.E.concretize(n, "len")

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def _cmp(self, o, f):
        if not is_text(o):
            return NotImplemented
        return mkbool(f(to_z3(self.parts), to_z3(parts_of(o))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: b < a)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b <= a)

    def __add__(self, o):
        o = resolve(o)
        if not is_text(o):
            return NotImplemented
        return mk(list(self.parts) + list(parts_of(o)))

    def __radd__(self, o):
        if not is_text(o):
            return NotImplemented
        return mk(list(parts_of(o)) + list(self.parts))

    def __mul__(self, n):
        return mk(list(self.parts) * max(0, int(n)))

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported("% on symbolic text")

    def __contains__(self, x):
        return decide(self._has(x))

    def _has(self, x):
        """bool/z3: x occurs in self."""
        x = resolve(x)
        if not is_text(x):
            raise TypeError("'in <string>' requires string as left operand, not %s" % _tn(x))
        lit = isinstance(x, str) and type(x) is not SymStr
        if lit and x == "":
            return True
        if lit and len(x) == 1:
            cs = []
            for p in self.parts:
                if isinstance(p, str):
                    if x in p:
                        return True
                elif isinstance(p, Ch):
                    cs.append(ch_in(p, x))
                elif isinstance(p, (IntTxt, RealTxt)) and x not in NUMERIC_CHARS:
                    continue
                elif isinstance(p, (IntTxt, RealTxt)) and x == "-":
                    cs.append(_negative(p))
                elif isinstance(p, (IntTxt, RealTxt)) and x == ".":
                    cs.append(_has_point(p))
                elif isinstance(p, B64) and not (x.isalnum() or x in "+/="):
                    continue
                else:
                    cs.append(z3.Contains(to_z3([p]), z3.StringVal(x)))
            return disj(cs)
        at, pat = atoms(self.parts), atoms(parts_of(x))
        if len(pat) == 1 and isinstance(pat[0], Ch) and all(isinstance(p, str) for p in self.parts):
            return ch_in(pat[0], "".join(self.parts))
        if all(map(charlike, at)) and all(map(charlike, pat)):
            return disj([
                conj([_ch_eq(a, b) for a, b in zip(at[i:], pat)])
                for i in range(len(at) - len(pat) + 1)
            ])
        return z3.Contains(to_z3(self.parts), to_z3(parts_of(x)))

    def __iter__(self):
        for a in self._chars():
            yield a if isinstance(a, str) else SymStr([a])

    def _chars(self):
        out = []
        for a in atoms(self.parts):
            out.extend([a] if charlike(a) else expand(a))
        return out

    def __getitem__(self, i):
        at = atoms(self.parts)
        if isinstance(i, slice):
            return self._slice(i, at)
        i = resolve(i)
        if type(i) is SymInt:
            i = core.E.concretize(i, "text index")
        if i >= 0:
            if len(at) > i and all(charlike(a) for a in at[: i + 1]):
                return mk([at[i]])
        elif len(at) >= -i and all(charlike(a) for a in at[i:]):
            return mk([at[i]])
        at = self._chars() if not any(isinstance(a, (B64, DocTxt)) for a in at) else self._head(at, i)
        if not -len(at) <= i < len(at):
            raise IndexError("string index out of range")
        return mk([at[i]])

    def _head(self, at, i):
        raise Unsupported("index into encoded text")

    def _slice(self, s, at):
        st, sp = s.start, s.stop
        if type(st) is SymInt:
            st = core.E.concretize(st, "slice")
        if type(sp) is SymInt:
            sp = core.E.concretize(sp, "slice")
        s = slice(st, sp, s.step)
        if all(charlike(a) for a in at):
            return mk(at[s])
        if s.step in (None, 1):
            a = 0 if s.start is None else s.start
            b = s.stop
            # leading/trailing cuts that only touch characters
            if a >= 0 and b is None and all(charlike(x) for x in at[:a]) and len(at) >= a:
                return mk(at[a:])
            if a == 0 and b is not None and b < 0 and len(at) >= -b and all(charlike(x) for x in at[b:]):
                return mk(at[:b])
            if a >= 0 and b is not None and b >= 0 and len(at) >= b and all(charlike(x) for x in at[:b]):
                return mk(at[a:b])
            e = to_z3(self.parts)
            n = z3.Length(e)

            def norm(x):
                if x >= 0:
                    return z3.IntVal(x)
                return z3.If(n + x < 0, z3.IntVal(0), n + x)

            za = norm(a)
            zb = n if b is None else norm(b)
            return mk([Opq(z3.simplify(z3.If(zb > za, z3.SubString(e, za, zb - za), z3.StringVal(""))))])
        return mk(self._chars()[s])

    # -- predicates
    def startswith(self, x, start=0, end=None):
        if start or end is not None:
            return _m(self[start:end], "startswith")(x)
        if isinstance(x, tuple):
            return mkbool(disj([core.bexpr(self.startswith(y)) for y in x]))
        return mkbool(self._affix(x, True))

    def endswith(self, x, start=0, end=None):
        if start or end is not None:
            return _m(self[start:end], "endswith")(x)
        if isinstance(x, tuple):
            return mkbool(disj([core.bexpr(self.endswith(y)) for y in x]))
        return mkbool(self._affix(x, False))

    def _affix(self, x, front):
        if not is_text(x):
            raise TypeError("startswith first arg must be str")
        at, pat = atoms(self.parts), atoms(parts_of(x))
        if not front:
            at, pat = at[::-1], pat[::-1]
        cs = []
        while pat and at:
            if charlike(at[0]) and charlike(pat[0]):
                cs.append(_ch_eq(at[0], pat[0]))
            elif not charlike(at[0]) and not charlike(pat[0]) and type(at[0]) is type(pat[0]) and at[0].same(pat[0]):
                pass
            else:
                break
            at, pat = at[1:], pat[1:]
        if not pat:
            return conj(cs)
        if not at:
            return False
        if isinstance(at[0], (B64, DocTxt)):
            if isinstance(at[0], B64) and isinstance(pat[0], str) and not (pat[0].isalnum() or pat[0] in "+/="):
                return False
            raise Unsupported("prefix of encoded text")
        if isinstance(at[0], (IntTxt, RealTxt)) and isinstance(pat[0], str):
            if pat[0] not in NUMERIC_CHARS:
                return False
            if front and pat[0] == ".":
                return False
            if front and pat == ["-"]:
                return conj(cs + [_negative(at[0])])
        if not front:
            at, pat = at[::-1], pat[::-1]
        f = z3.PrefixOf if front else z3.SuffixOf
        return conj(cs + [f(to_z3(pat), to_z3(at))])

    def _all_in(self, pred_chars, regex):
        cs = []
        for p in self.parts:
            if isinstance(p, str):
                cs.append(all(c in pred_chars for c in p))
            elif isinstance(p, Ch):
                cs.append(ch_in(p, pred_chars))
            elif isinstance(p, (B64, DocTxt)):
                raise Unsupported("character class of encoded text")
            elif isinstance(p, (IntTxt, RealTxt)):
                if "0" not in pred_chars:
                    return mkbool(False)
                if "-" not in pred_chars:
                    cs.append(neg(_negative(p)))
                if "." not in pred_chars:
                    cs.append(neg(_has_point(p)))
            else:
                cs.append(z3.InRe(to_z3([p]), z3.Star(regex)))
        t = self._truth()
        return mkbool(conj(cs + [t]))

    def isdigit(self):
        return self._all_in(DIGITS, z3.Range("0", "9"))

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all_in(WS, z3.Union(z3.Re(" "), z3.Range("\t", "\r")))

    def isalpha(self):
        return self._all_in(_AL, z3.Union(z3.Range("a", "z"), z3.Range("A", "Z")))

    def isalnum(self):
        return self._all_in(_AL + DIGITS, z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9")))

    def isascii(self):
        from . import env
        return mkbool(neg(disj([not p.isascii() if isinstance(p, str) else env.beyond_ascii(p)
                                for p in self.parts])))

    def islower(self):
        return self == self.lower() and self != self.upper()

    def isupper(self):
        return self == self.upper() and self != self.lower()

    # -- transformations
    def _case(self, up):
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.append(p.upper() if up else p.lower())
            elif isinstance(p, Ch):
                out.append(_ch_case(p, up))
            elif isinstance(p, (IntTxt, RealTxt)):
                out.append(p)
            elif isinstance(p, Opq):
                r = (z3.Union(z3.Range("a", "z"), z3.Range("\u00df", "\u00ff"), z3.Re("\u00b5")) if up else
                     z3.Union(z3.Range("A", "Z"), z3.Range("\u00c0", "\u00de")))
                anyre = z3.Star(z3.AllChar(z3.ReSort(z3.StringSort())))
                if core.E.branch(z3.InRe(p.e, z3.Concat(anyre, r, anyre))):
                    out.extend(_ch_case(c, up) for c in expand(p))
                else:
                    out.append(p)
            else:
                raise Unsupported("case of encoded text")
        return mk(out)

    def lower(self):
        return self._case(False)

    casefold = lower

    def upper(self):
        return self._case(True)

    def title(self):
        return self[:1].upper() + self[1:].lower()

    capitalize = title

    def strip(self, chars=None):
        return mk(_strip_atoms(atoms(self.parts), WS if chars is None else chars))

    def lstrip(self, chars=None):
        return mk(_strip_atoms(atoms(self.parts), WS if chars is None else chars, True, False))

    def rstrip(self, chars=None):
        return mk(_strip_atoms(atoms(self.parts), WS if chars is None else chars, False, True))

    def removeprefix(self, x):
        if self.startswith(x):
            return mk(_drop(self, x, True))
        return self

    def removesuffix(self, x):
        if self.endswith(x):
            return mk(_drop(self, x, False))
        return self

    def split(self, sep=None, maxsplit=-1):
        if type(maxsplit) is SymInt:
            maxsplit = core.E.concretize(maxsplit, "maxsplit")
        if sep is None:
            return self._wsplit(maxsplit)
        sep = resolve(sep)
        if not isinstance(sep, str) or isinstance(sep, Sym):
            raise Unsupported("split on symbolic separator")
        if not sep:
            raise ValueError("empty separator")
        at = self._sep_atoms(sep)
        out, cur, i = [], [], 0
        while i < len(at):
            if maxsplit >= 0 and len(out) >= maxsplit:
                cur.extend(at[i:])
                break
            w = at[i : i + len(sep)]
            if len(w) == len(sep) and all(map(charlike, w)) and decide(
                conj([_ch_eq(a, b) for a, b in zip(w, sep)])
            ):
                out.append(mk(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(at[i])
                i += 1
        out.append(mk(cur))
        return SList(out)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        at = atoms(self.parts)
        if maxsplit == 1 and isinstance(sep, str) and len(sep) == 1:
            at = self._sep_atoms(sep)
            for i in range(len(at) - 1, -1, -1):
                if charlike(at[i]) and decide(ch_in(at[i], sep)):
                    return SList([mk(at[:i]), mk(at[i + 1 :])])
            return SList([self])
        raise Unsupported("rsplit")

    def _sep_atoms(self, sep):
        """Atoms in which every possible occurrence of sep is visible."""
        at = []
        for a in atoms(self.parts):
            if charlike(a):
                at.append(a)
            elif isinstance(a, (IntTxt, RealTxt)) and not (set(sep) & NUMERIC_CHARS):
                at.append(a)
            elif isinstance(a, B64) and not any(c.isalnum() or c in "+/=" for c in sep):
                at.append(a)
            elif isinstance(a, DocTxt):
                at.append(a)
            elif isinstance(a, Opq):
                if a.seg and any(c in NOT_IN_SEG for c in sep):
                    at.append(a)
                    continue
                if len(sep) == 1:
                    hit = z3.Contains(a.e, z3.StringVal(sep))
                else:
                    hit = z3.Or(*[z3.Contains(a.e, z3.StringVal(c)) for c in set(sep)])
                if core.E.branch(hit):
                    at.extend(expand(a))
                else:
                    at.append(a)
            else:
                at.extend(expand(a))
        return at

    def _wsplit(self, maxsplit):
        out, cur = [], []
        at = []
        for a in atoms(self.parts):
            if isinstance(a, Opq):
                if core.E.branch(z3.Or(*[z3.Contains(a.e, z3.StringVal(c)) for c in BLANK])):
                    at.extend(expand(a))
                elif core.E.branch(a.e != z3.StringVal("")):
                    at.append(a)
            else:
                at.append(a)
        for i, a in enumerate(at):
            if charlike(a) and decide(ch_in(a, WS)):
                if cur:
                    out.append(mk(cur))
                    cur = []
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        rest = _strip_atoms(at[i:], WS, True, False)
                        if rest:
                            out.append(mk(rest))
                        return SList(out)
            else:
                cur.append(a)
        if cur:
            out.append(mk(cur))
        return SList(out)

    def expandtabs(self, tabsize=8):
        if not any(charlike(a) and decide(ch_in(a, "\t")) for a in self._sep_atoms("\t")):
            return self
        out, col = [], 0
        for a in self._chars():
            if decide(ch_in(a, "\t")):
                n = tabsize - col % tabsize if tabsize > 0 else 0
                out.append(" " * n)
                col += n
            else:
                out.append(a)
                col = 0 if decide(ch_in(a, "\n\r")) else col + 1
        return mk(out)

    def splitlines(self, keepends=False):
        at = self._sep_atoms("\n\r")
        out, cur = [], []
        i = 0
        while i < len(at):
            a = at[i]
            if charlike(a) and decide(ch_in(a, "\n\r\x0b\x0c")):
                end = [a]
                if (i + 1 < len(at) and charlike(at[i + 1]) and decide(ch_in(a, "\r"))
                        and decide(ch_in(at[i + 1], "\n"))):
                    i += 1
                    end.append(at[i])
                out.append(mk(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(a)
            i += 1
        if cur:
            out.append(mk(cur))
        return SList(out)

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else ("", "", self)

    def replace(self, a, b, count=-1):
        if count != -1:
            raise Unsupported("replace with a count")
        if isinstance(a, str) and len(a) > 0:
            return join(b, self.split(a))
        raise Unsupported("replace")

    def translate(self, table):
        out = []
        for c in self._chars():
            if not isinstance(c, str):
                raise Unsupported("translate")
            out.append(c.translate(table))
        return mk(out)

    def find(self, x, start=0, end=None):
        if start or end is not None:
            raise Unsupported("find with bounds")
        at = atoms(self.parts)
        if isinstance(x, str) and len(x) == 1:
            at = self._sep_atoms(x)
            for i, a in enumerate(at):
                if charlike(a) and decide(ch_in(a, x)):
                    if all(charlike(b) for b in at[:i]):
                        return i
                    return mknum(z3.Length(to_z3(at[:i])))
            return -1
        return mknum(z3.IndexOf(to_z3(self.parts), to_z3(parts_of(x)), 0))

    def index(self, x, *a):
        r = self.find(x, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rfind(self, x):
        at = self._sep_atoms(x)
        for i in range(len(at) - 1, -1, -1):
            if charlike(at[i]) and decide(ch_in(at[i], x)):
                return i if all(charlike(b) for b in at[:i]) else mknum(z3.Length(to_z3(at[:i])))
        return -1

    def count(self, x):
        return len(self.split(x)) - 1

    def join(self, xs):
        return join(self, xs)

    def zfill(self, n):
        at = self._chars()
        if len(at) >= n:
            return mk(at)
        if at and decide(ch_in(at[0], "+-")):
            return mk([at[0]] + ["0"] * (n - len(at)) + at[1:])
        return mk(["0"] * (n - len(at)) + at)

    def rjust(self, n, fill=" "):
        at = self._chars()
        return mk([fill] * (n - len(at)) + at)

    def ljust(self, n, fill=" "):
        at = self._chars()
        return mk(at + [fill] * (n - len(at)))

    def encode(self, encoding="utf-8", errors="strict"):
        return EncText(self)

    def format(self, *a, **k):
        raise Unsupported("format on symbolic text")

    def __format__(self, spec):
        raise Unsupported("format() of symbolic text at a C boundary")

    def __str__(self):
        raise Unsupported("str() of symbolic text at a C boundary")

    def __fspath__(self):
        raise Unsupported("fspath of symbolic text at a C boundary")


_AL = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def _m(v, name):
    if type(v) is SymStr:
        return getattr(v, name)
    return getattr(SymStr((v,)), name)


def _drop(s, x, front):
    at, pat = atoms(s.parts), atoms(parts_of(x))
    n = len(pat)
    if front and len(at) >= n and all(map(charlike, at[:n])) and all(map(charlike, pat)):
        return at[n:]
    if not front and len(at) >= n and all(map(charlike, at[len(at) - n :])) and all(map(charlike, pat)):
        return at[: len(at) - n]
    e, k = to_z3(s.parts), z3.Length(to_z3(parts_of(x)))
    n = z3.Length(e)
    return [Opq(z3.SubString(e, k, n - k) if front else z3.SubString(e, 0, n - k))]


def _ch_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(b, str):
        return ch_in(a, b)
    if isinstance(a, str):
        return ch_in(b, a)
    if a.code.eq(b.code):
        return True
    return a.code == b.code


def _ch_case(c, up):
    """The character in the other case, or a text where that is longer."""
    if isinstance(c, str):
        return c.upper() if up else c.lower()
    if c.dom is not None:
        if not any(chr(x).upper() != chr(x) or chr(x).lower() != chr(x) for x in c.dom):
            return c
        dom = frozenset(ord(y) for x in c.dom for y in (chr(x).upper() if up else chr(x).lower()))
    else:
        dom = None
    x = c.code
    if c.dom is None and core.E.branch(x > 127):
        if core.E.branch(x > 255):
            raise Unsupported("case of a character beyond U+00FF")
        if up:
            for k, y in ((0xdf, "SS"), (0xff, "\u0178"), (0xb5, "\u039c")):
                if core.E.branch(x == k):
                    return y
            return Ch(z3.If(z3.And(x >= 0xe0, x != 0xf7), x - 32, x))
        return Ch(z3.If(z3.And(x >= 0xc0, x <= 0xde, x != 0xd7), x + 32, x))
    if up:
        e = z3.If(z3.And(x >= 97, x <= 122), x - 32, x)
    else:
        e = z3.If(z3.And(x >= 65, x <= 90), x + 32, x)
    return Ch(e, dom, c.nib)


def join(sep, xs):
    out, first = [], True
    sp = list(parts_of(resolve(sep)))
    for x in xs:
        x = resolve(x)
        if not is_text(x):
            raise TypeError("sequence item: expected str instance, %s found" % _tn(x))
        if not first:
            out.extend(sp)
        first = False
        out.extend(parts_of(x))
    return mk(out)


def to_text(v):
    """str(v) for any value."""
    v = resolve(v)
    t = type(v)
    if t is SymStr:
        return v
    if t is SymInt:
        return mk([IntTxt(v.e)])
    if t is SymBool:
        return "True" if core.E.branch(v.e) else "False"
    if t is SymReal:
        k = simp(v.e * 8)
        k = z3.simplify(z3.ToInt(k))
        if core.E.branch(z3.ToReal(k) != v.e * 8):
            raise Unsupported("str of this real")
        return mk([RealTxt(k, True)])
    f = getattr(t, "_to_text", None)
    if f is not None:
        return f(v)
    return str(v)


# ---------------------------------------------------------------- equality
def _eq_text(a, b):
    ta, tb = type(a) is SymStr, type(b) is SymStr
    if not (ta or tb):
        return NotImplemented
    if not (is_text(a) and is_text(b)):
        return False
    return eq_parts(atoms(parts_of(a)), atoms(parts_of(b)))


core._EQ_HOOKS.append(_eq_text)


def _merge_text(g, a, b):
    """Joint form of two opaque or literal texts (no loss of structure)."""
    if not (is_text(a) and is_text(b)):
        return NotImplemented
    pa, pb = parts_of(a), parts_of(b)
    if len(pa) != 1 or len(pb) != 1:
        return NotImplemented
    pa, pb = pa[0], pb[0]
    if type(pa) is type(pb) and pa.same(pb) if not isinstance(pa, str) else pa == pb:
        return a
    if isinstance(pa, Opq) and isinstance(pb, Opq):
        return mk([Opq(z3.If(g, pa.e, pb.e), pa.seg and pb.seg)])
    if isinstance(pa, IntTxt) and isinstance(pb, IntTxt):
        return mk([IntTxt(z3.If(g, pa.e, pb.e))])
    return NotImplemented


core._merge_text = _merge_text


def _atom_same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    return type(a) is type(b) and a.same(b)


def _sure_len(at):
    """Minimal length of a list of atoms, and whether it is exact."""
    n, exact = 0, True
    for a in at:
        if charlike(a):
            n += 1
        elif isinstance(a, (IntTxt, RealTxt)):
            n, exact = n + 1, False
        elif isinstance(a, (B64, DocTxt)):
            n, exact = n + 1, False
        else:
            exact = False
    return n, exact


def eq_parts(x, y):
    cs = []
    # peel off pairwise-comparable ends
    while x and y and (_atom_same(x[0], y[0]) or (charlike(x[0]) and charlike(y[0]))):
        c = True if _atom_same(x[0], y[0]) else _ch_eq(x[0], y[0])
        if c is False:
            return False
        cs.append(c)
        x, y = x[1:], y[1:]
    while x and y and (_atom_same(x[-1], y[-1]) or (charlike(x[-1]) and charlike(y[-1]))):
        c = True if _atom_same(x[-1], y[-1]) else _ch_eq(x[-1], y[-1])
        if c is False:
            return False
        cs.append(c)
        x, y = x[:-1], y[:-1]
    if not x and not y:
        return conj(cs)
    if not x or not y:
        rest = x or y
        for a in rest:
            if not isinstance(a, Opq):
                return False
            cs.append(a.e == z3.StringVal(""))
        return conj(cs)
    nx, ex = _sure_len(x)
    ny, ey = _sure_len(y)
    if (ex and ny > nx) or (ey and nx > ny):
        return False
    if len(x) == 1 and len(y) == 1:
        a, b = x[0], y[0]
        if isinstance(a, IntTxt) and isinstance(b, IntTxt):
            return conj(cs + [simp(a.e == b.e)])
        if isinstance(a, RealTxt) and isinstance(b, RealTxt) and a.py == b.py:
            return conj(cs + [simp(a.k == b.k)])
        if isinstance(a, RealTxt) and isinstance(b, IntTxt):
            a, b = b, a
        if isinstance(a, IntTxt) and isinstance(b, RealTxt):
            return False if b.py else conj(cs + [a.e * 8 == b.k])
        if isinstance(a, B64) and isinstance(b, B64):
            return conj(cs + [eq(a.payload, b.payload)])
    if any(isinstance(a, (B64, DocTxt)) for a in x + y):
        # encoded text against a literal of another alphabet, or unknown
        return False
    for p, q in ((x, y), (y, x)):
        if len(p) == 1 and isinstance(p[0], IntTxt) and all(isinstance(c, str) for c in q):
            s = "".join(q)
            try:
                v = int(s)
            except ValueError:
                return False
            return conj(cs + [p[0].e == v]) if str(v) == s else False
    return conj(cs + [to_z3(x) == to_z3(y)])


# ------------------------------------------------------------- byte text
class EncText(Sym):
    """bytes obtained by encoding a symbolic text."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def _truth(self):
        return core.truth(self.s)

    def __bool__(self):
        return decide(self._truth())

    def decode(self, encoding="utf-8", errors="strict"):
        from . import env
        codec = env.CODECS.get(encoding.lower().replace("_", "-"), "other")
        env.check_decodes(atoms(parts_of(self.s)), codec if errors == "strict" else "lenient")
        return self.s

    def _len(self):
        return self.s._len() if type(self.s) is SymStr else len(self.s)

    def __len__(self):
        return len(self.s)

    def strip(self, chars=None):
        return EncText(_m(self.s, "strip")(None if chars is None else chars.decode()))

    def lstrip(self, chars=None):
        return EncText(_m(self.s, "lstrip")(None if chars is None else chars.decode()))

    def rstrip(self, chars=None):
        return EncText(_m(self.s, "rstrip")(None if chars is None else chars.decode()))

    def startswith(self, x):
        if isinstance(x, tuple):
            return _m(self.s, "startswith")(tuple(y.decode() for y in x))
        return _m(self.s, "startswith")(x.decode())

    def endswith(self, x):
        return _m(self.s, "endswith")(x.decode())

    def split(self, sep=None, maxsplit=-1):
        r = _m(self.s, "split")(None if sep is None else sep.decode(), maxsplit)
        return SList(EncText(x) for x in r)

    def __getitem__(self, i):
        r = self.s[i]
        if isinstance(i, slice):
            return EncText(r)
        a = atoms(parts_of(r))[0]
        return ord(a) if isinstance(a, str) else SymInt(a.code)

    def __iter__(self):
        for a in _m(self.s, "_chars")():
            yield ord(a) if isinstance(a, str) else SymInt(a.code)

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")


def _eq_enc(a, b):
    if type(a) is EncText or type(b) is EncText:
        def tx(v):
            if type(v) is EncText:
                return v.s
            if isinstance(v, (bytes, bytearray)):
                return v.decode("latin-1")
            return None
        x, y = tx(a), tx(b)
        if x is None or y is None:
            return False
        return eq(x, y)
    return NotImplemented


core._EQ_HOOKS.insert(0, _eq_enc)


class Packed(Sym):
    """Compressed form (kind) of a payload; its own bytes are not modelled."""

    __slots__ = ("kind", "payload", "_raw")

    def __init__(self, kind, payload):
        self.kind = kind
        self.payload = payload
        self._raw = None

    @property
    def __class__(self):
        return bytes

    def raw(self):
        """Stand-in bytes for code that looks at the compressed form itself: the
        real magic numbers, then unknown bytes."""
        if self._raw is None:
            magic = {"zlib": [0x78, 0x9C], "gzip": [0x1F, 0x8B, 8, 0]}.get(self.kind, [])
            n = 24 - len(magic)
            out = list(magic)
            for _ in range(n):
                v = z3.Int("packed!%d" % core.E.fresh)
                core.E.fresh += 1
                core.E.add(z3.And(v >= 0, v < 256))
                out.append(SymInt(v, 0, 8))
            self._raw = SymBytes(out)
        return self._raw

    def _truth(self):
        return True

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.raw())

    def __iter__(self):
        return iter(self.raw())

    def __getitem__(self, i):
        r = self.raw()[i]
        if isinstance(i, slice) and i.start in (None, 0) and i.stop is None:
            return self
        return r

    def startswith(self, x):
        xs = x if isinstance(x, tuple) else (x,)
        return any(list(self.raw().b[: len(y)]) == list(y) for y in xs)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def b64_len(payload):
    if type(payload) is Packed:
        raise Unsupported("length of compressed text")
    return (len(payload) + 2) // 3 * 4


# ----------------------------------------------------- values in a model
def text_value(v, m):
    """Concrete text of a rope under a model (no documents)."""
    if isinstance(v, str) and not isinstance(v, Sym):
        return v
    out = []
    for p in v.parts:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Ch):
            out.append(chr(m.eval(p.code, model_completion=True).as_long()))
        elif isinstance(p, IntTxt):
            out.append(str(m.eval(p.e, model_completion=True).as_long()))
        elif isinstance(p, RealTxt):
            k = m.eval(p.k, model_completion=True).as_long()
            s = "-" if k < 0 else ""
            a = abs(k)
            f = _FRAC[a % 8] or (".0" if p.py else "")
            out.append(s + str(a // 8) + f)
        elif isinstance(p, Opq):
            out.append(z3_str(m.eval(p.e, model_completion=True)))
        elif isinstance(p, B64):
            import base64

            out.append(base64.b64encode(bytes_value(p.payload, m)).decode())
        else:
            raise TypeError(p)
    return "".join(out)


def z3_str(e):
    """Python str of a z3 string value."""
    s = e.as_string()
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda k: chr(int(k.group(1), 16)), s)


def bytes_value(p, m):
    if type(p) is Packed:
        raw = bytes_value(p.payload, m)
        if p.kind == "zlib":
            import zlib

            return zlib.compress(raw)
        if p.kind == "gzip":
            import gzip

            return gzip.compress(raw, mtime=0)
        if p.kind == "zstd":
            # one frame of uncompressed blocks, its size in the header
            out, i = [b"\x28\xb5\x2f\xfd\xa0" + len(raw).to_bytes(4, "little")], 0
            while True:
                b = raw[i:i + 65536]
                i += len(b)
                last = i >= len(raw)
                out.append((len(b) << 3 | last).to_bytes(3, "little") + b)
                if last:
                    return b"".join(out)
        raise TypeError(p.kind)
    if type(p) is SymBytes:
        out = []
        for b in p.b:
            out.append(m.eval(b.e, model_completion=True).as_long() if isinstance(b, Sym) else b)
        return bytes(out)
    return bytes(p)
