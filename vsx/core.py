"""Symbolic core: z3-backed values that the *real* parser code computes with.

The code under test runs on CPython (after the AST rewriting of rewrite.py), with
the values below standing for unknown inputs.  A decision on an unknown condition
either forks the exploration (Engine.branch) or, for `if` statements whose two
sides can be joined, is executed as both sides under a guard and merged
(Engine.begin_if / merge).
"""
import time
import z3

MAX_CONCRETIZE = 64


class Restart(BaseException):
    """Abandon this run and schedule the given decision prefix instead."""

    def __init__(self, prefix, why=""):
        self.prefix = prefix
        self.why = why


class Infeasible(BaseException):
    """The current path condition has no model: drop the run."""


class Unsupported(BaseException):
    """The engine cannot represent this operation: the run is inconclusive."""


class _Undef:
    """Value of a local that is unbound on one side of a merged branch."""

    def _die(self, *a, **k):
        raise UnboundLocalError("local variable referenced before assignment")

    __bool__ = __call__ = __iter__ = __len__ = __getitem__ = _die

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._die()

    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Engine:
    def __init__(self, timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.n_queries = 0
        self.solver_time = 0.0
        self.n_unknown = 0
        self.n_paths = 0
        self.n_branches = 0
        self.n_merges = 0
        self.n_restarts = 0
        self.entered = set()
        self.cuts = []  # values concretised beyond the exhaustive bound
        self.merging_enabled = True
        self.reset([])

    # -- one run ----------------------------------------------------------
    def reset(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.known = {}
        self.guards = []  # list of (token, expr)
        self.merge_sites = []  # decision index of enclosing merged ifs
        self.tok = 0
        self.births = {}
        self.keep = []
        self.fresh = 0
        self.events = []
        self.dirty = False
        self.opened = []
        self.vfs = None
        self.cwd = ()
        self.zstd = False
        self.utf8 = True  # the locale's encoding is UTF-8 (otherwise ASCII)

    def event(self, what):
        """A visible side effect of the code."""
        self.events.append((what, conj([g for _, g in self.guards])))

    def add(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self.pc.append(cond)
        self.solver.add(cond)
        for lit in _conjuncts(cond):
            self._learn(lit)

    def _learn(self, lit):
        if z3.is_not(lit):
            self.known[lit.arg(0).get_id()] = (lit, False)
        else:
            self.known[lit.get_id()] = (lit, True)

    def lookup(self, cond):
        """Cheap syntactic knowledge of a condition under pc and guards."""
        neg = False
        while z3.is_not(cond):
            neg = not neg
            cond = cond.arg(0)
        k = self.known.get(cond.get_id())
        if k is not None:
            return k[1] ^ neg
        for _, g in self.guards:
            for lit in _conjuncts(g):
                if lit.eq(cond):
                    return not neg
                if z3.is_not(lit) and lit.arg(0).eq(cond):
                    return neg
        return None

    def check(self, *conds):
        """sat / unsat / unknown of pc and guards and conds."""
        t = time.time()
        self.n_queries += 1
        r = self.solver.check(*([g for _, g in self.guards] + list(conds)))
        self.solver_time += time.time() - t
        if r == z3.unknown:
            self.n_unknown += 1
        return r

    def feasible(self, cond):
        return self.check(cond) != z3.unsat

    def _decide(self, cond, allow_merge):
        """Return 'T','F' (forced), 'M' (merge) or 'B' (both, forked)."""
        k = self.lookup(cond)
        if k is not None:
            return "T" if k else "F"
        t = self.feasible(cond)
        if not t:
            if not self.feasible(z3.Not(cond)):
                raise Infeasible()
            return "F"
        f = self.feasible(z3.Not(cond))
        if not f:
            return "T"
        return "M" if allow_merge and self.merging_enabled else "B"

    def branch(self, cond):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            d = self._decide(cond, False)
            if d == "B":
                d = "b1"
                self.pending.append(self.prefix[: self.pos] + ["b0"])
                self.n_branches += 1
            self.prefix.append(d)
            self.pos += 1
        if d == "T":
            return True
        if d == "F":
            return False
        if d == "b1":
            self.add(cond)
            return True
        assert d == "b0", d
        self.add(z3.Not(cond))
        return False

    # -- merged ifs ---------------------------------------------------------
    def begin_if(self, v):
        t = truth(v)
        if isinstance(t, bool):
            return If(self, t, None)
        t = simp(t)
        if z3.is_true(t) or z3.is_false(t):
            return If(self, z3.is_true(t), None)
        idx = self.pos
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d == "X":
                return If(self, self.branch(t), None)
        else:
            d = self._decide(t, True)
            if d == "B":
                return If(self, self.branch(t), None)
            self.prefix.append(d)
            self.pos += 1
        if d == "M":
            self.n_merges += 1
            return If(self, None, t, idx)
        if d in ("T", "F"):
            return If(self, d == "T", None)
        if d in ("b1", "b0"):
            self.pos -= 1
            return If(self, self.branch(t), None)
        raise AssertionError(d)

    def push_guard(self, g, site):
        self.tok += 1
        self.guards.append((self.tok, g))
        self.merge_sites.append(site)

    def pop_guard(self):
        self.guards.pop()
        self.merge_sites.pop()

    def abort_merge(self, why=""):
        """Something under a guard cannot be joined: fork at that `if` instead."""
        if not self.merge_sites:
            raise Unsupported("abort_merge outside a merged if: " + why)
        idx = self.merge_sites[-1]
        self.n_restarts += 1
        raise Restart(self.prefix[:idx], why)

    def tokens(self):
        return tuple(t for t, _ in self.guards)

    def relative_guard(self, birth):
        """Guard of the current point relative to an object's creation point."""
        n = 0
        while n < len(birth) and n < len(self.guards) and birth[n] == self.guards[n][0]:
            n += 1
        rest = [g for _, g in self.guards[n:]]
        if not rest:
            return None
        return rest[0] if len(rest) == 1 else z3.And(*rest)

    # -- concretisation -----------------------------------------------------
    def concretize(self, sym, why="index"):
        """Fork over every value of an integer term (complete up to a limit)."""
        e = sym.e if isinstance(sym, SymInt) else sym
        e = simp(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(MAX_CONCRETIZE):
            if self.pos < len(self.prefix):
                # replay: the value was recorded with the decision
                d = self.prefix[self.pos]
                if isinstance(d, tuple) and d[0] == "v":
                    self.pos += 1
                    if self.branch(e == d[1]):
                        return d[1]
                    continue
            r = self.check()
            if r != z3.sat:
                if r == z3.unsat:
                    raise Infeasible()
                raise Unsupported("unknown while concretising " + why)
            val = self.solver.model().eval(e, model_completion=True).as_long()
            self.prefix.append(("v", val))
            self.pos += 1
            if self.branch(e == val):
                return val
        if self.guards:
            self.abort_merge("concretisation under a guard")
        self.cuts.append("more than %d values for %s" % (MAX_CONCRETIZE, why))
        raise Infeasible()

    # -- exploration -------------------------------------------------------
    def explore(self, run, on_path, budget=None, deadline=None, on_restart=None):
        """Depth-first over all decision prefixes.

        run() executes one symbolic run and returns an outcome; on_path(outcome)
        is called with the engine still in that run's state.  Returns True when
        every path was explored.
        """
        stack = [[]]
        n = 0
        while stack:
            if deadline is not None and time.time() > deadline:
                self.cuts.append("time limit: %d prefixes left" % len(stack))
                return False
            if budget is not None and n >= budget:
                self.cuts.append("path budget: %d prefixes left" % len(stack))
                return False
            prefix = stack.pop()
            self.reset(prefix)
            self.pending = []
            try:
                out = run()
            except Restart as r:
                # every run below this decision is covered by the forked one
                dead = r.prefix + ["M"]
                n_dead = len(dead)
                stack = [q for q in stack + self.pending if q[:n_dead] != dead]
                stack.append(r.prefix + ["X"])
                if on_restart is not None:
                    on_restart(r)
                continue
            except Infeasible:
                stack.extend(self.pending)
                continue
            stack.extend(self.pending)
            n += 1
            self.n_paths += 1
            if on_path(out) == "stop":
                return False
        return True


class If:
    """Run-time half of a rewritten `if` statement."""

    __slots__ = ("e", "value", "cond", "site", "merging", "depth", "stage")

    def __init__(self, e, value, cond, site=None):
        self.e = e
        self.value = value
        self.cond = cond
        self.site = site
        self.merging = cond is not None
        self.stage = 0

    def then(self):
        if not self.merging:
            return self.value
        self.depth = len(self.e.guards)
        self.e.push_guard(self.cond, self.site)
        return True

    def orelse(self):
        if not self.merging:
            return not self.value
        e = self.e
        assert len(e.guards) == self.depth + 1
        e.pop_guard()
        e.push_guard(z3.Not(self.cond), self.site)
        return True

    def leave(self):
        if self.merging:
            assert len(self.e.guards) == self.depth + 1
            self.e.pop_guard()

    def abort(self, exc):
        if not self.merging or isinstance(exc, (Restart, Unsupported)):
            return
        del self.e.guards[self.depth + 1 :]
        del self.e.merge_sites[self.depth + 1 :]
        self.e.abort_merge("exception %r in merged branch" % (exc,))

    def merge(self, a, b):
        return merge(self.cond, a, b)


E = Engine()


def set_engine(e):
    global E
    E = e


# ---------------------------------------------------------------- z3 helpers
def simp(e):
    return z3.simplify(e)


def _conjuncts(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out.extend(_conjuncts(c))
        return out
    return [e]


def conj(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = list(xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def how_many(conds):
    """The number of conditions that hold."""
    if not E.merging_enabled:
        return sum(c is True or c is not False and E.branch(c) for c in conds)
    sure = sum(c is True for c in conds)
    rest = [z3.If(c, 1, 0) for c in conds if not isinstance(c, bool)]
    return mknum(z3.Sum(*rest) + sure) if rest else sure


def neg(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def mkbool(e):
    """z3 Bool (or Python bool) -> Python bool or SymBool."""
    if isinstance(e, bool):
        return e
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(v):
    """bool/SymBool -> bool or z3 expr."""
    return v.e if isinstance(v, SymBool) else bool(v)


class Sym:
    """Base of all symbolic scalars."""

    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.e)

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(conj([self.e, bexpr(o)]))
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(disj([self.e, bexpr(o)]))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.e, z3.BoolVal(o) if isinstance(o, bool) else o.e))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __repr__(self):
        return "SymBool(%s)" % (self.e,)


def _delegate_bool(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)

    f.__name__ = name
    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ "
    "__lshift__ __rshift__ __neg__ __abs__ __floordiv__ __mod__ __truediv__ __pow__"
).split():
    setattr(SymBool, _n, _delegate_bool(_n))


def num_expr(v):
    """Numeric value -> z3 arithmetic expr, or None."""
    if isinstance(v, (SymInt, SymReal)) or type(v) in (SymInt, SymReal):
        return v.e
    if type(v) is SymBool:
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if type(v) is bool:
        return z3.IntVal(int(v))
    if type(v) is int or (isinstance(v, int) and not isinstance(v, Sym)):
        return z3.IntVal(int(v))
    if isinstance(v, float) and not isinstance(v, Sym):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        n, d = v.as_integer_ratio()
        return z3.RealVal("%d/%d" % (n, d))
    return None


def is_num(v):
    t = type(v)
    return t in (SymInt, SymReal, SymBool, bool, int, float) or (
        isinstance(v, (int, float)) and not isinstance(v, Sym)
    )


def mknum(e):
    e2 = simp(e)
    if z3.is_int_value(e2):
        return e2.as_long()
    if e2.sort() == z3.IntSort():
        return SymInt(e2)
    return SymReal(e2)


class _Num(Sym):
    __slots__ = ()

    def _cmp(self, o, op):
        x = num_expr(o)
        if x is None:
            if type(o) is SymUnion:
                return NotImplemented
            return NotImplemented
        return mkbool(op(self.e, x))

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return E.branch(self.e != 0)

    def _bin(self, o, op):
        x = num_expr(o)
        if x is None:
            return NotImplemented
        return mknum(op(self.e, x))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) and type(self) is SymInt and not isinstance(o, Sym):
            return o * E.concretize(self, "sequence repeat")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    def _div_guard(self, b):
        if E.branch(b == 0):
            raise ZeroDivisionError("division by zero")

    def __truediv__(self, o):
        x = num_expr(o)
        if x is None:
            return NotImplemented
        return _truediv(self.e, x)

    def __rtruediv__(self, o):
        x = num_expr(o)
        if x is None:
            return NotImplemented
        return _truediv(x, self.e)

    def __floordiv__(self, o):
        x = num_expr(o)
        return NotImplemented if x is None else _floordiv(self.e, x)

    def __rfloordiv__(self, o):
        x = num_expr(o)
        return NotImplemented if x is None else _floordiv(x, self.e)

    def __mod__(self, o):
        x = num_expr(o)
        return NotImplemented if x is None else _mod(self.e, x)

    def __rmod__(self, o):
        x = num_expr(o)
        return NotImplemented if x is None else _mod(x, self.e)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __round__(self, n=None):
        e = self.e
        if e.sort() == z3.IntSort():
            return self
        if n is None:
            return mknum(_round_half_even(e))
        s = 10 ** n
        return mknum(z3.ToReal(_round_half_even(e * s)) / s)

    def __hash__(self):
        if type(self) is SymInt:
            return hash(E.concretize(self, "hash"))
        raise Unsupported("hash of symbolic number")


def _round_half_even(e):
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _truediv(a, b):
    b = simp(b)
    if E.branch(b == 0):
        raise ZeroDivisionError("division by zero")
    return mknum(toreal(a) / toreal(b))


def _floor_e(a, b):
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        if z3.is_int_value(b):
            n = b.as_long()
            return a / b if n > 0 else (-a) / z3.IntVal(-n)
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(toreal(a) / toreal(b)))


def _floordiv(a, b):
    b = simp(b)
    if E.branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    return mknum(_floor_e(a, b))


def _mod(a, b):
    b = simp(b)
    if E.branch(b == 0):
        raise ZeroDivisionError("integer modulo by zero")
    if a.sort() == z3.IntSort() and z3.is_int_value(b) and b.as_long() > 0:
        return mknum(a % b)
    return mknum(a - _floor_e(a, b) * b)


class SymInt(_Num):
    """Unbounded Python int.  lo/hi: known zero low bits and bit-length bound."""

    __slots__ = ("e", "tz", "nb")

    def __init__(self, e, tz=0, nb=None):
        self.e = e
        self.tz = tz
        self.nb = nb  # value known to be in [0, 2**nb)

    @property
    def __class__(self):
        return int

    def __index__(self):
        return E.concretize(self, "index")

    def __int__(self):
        return E.concretize(self, "int()")

    def __trunc__(self):
        return self

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        if type(r) is SymInt and type(o) is SymInt and self.nb is not None and o.nb is not None:
            a, b = self, o
            if a.nb <= b.tz or b.nb <= a.tz:
                r.nb = max(a.nb, b.nb)
                r.tz = min(a.tz, b.tz)
        elif type(r) is SymInt and type(o) is int and o == 0:
            r.nb, r.tz = self.nb, self.tz
        return r

    __radd__ = __add__

    def __mul__(self, o):
        r = _Num.__mul__(self, o)
        if type(r) is SymInt and type(o) is int and o > 0 and o & (o - 1) == 0:
            k = o.bit_length() - 1
            r.tz = self.tz + k
            r.nb = None if self.nb is None else self.nb + k
        return r

    __rmul__ = __mul__

    def __lshift__(self, o):
        if type(o) is SymInt:
            o = E.concretize(o, "shift")
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << E.concretize(self, "shift")

    def __rshift__(self, o):
        if type(o) is SymInt:
            o = E.concretize(o, "shift")
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            raise ValueError("negative shift count")
        r = mknum(self.e / z3.IntVal(1 << int(o)))
        if type(r) is SymInt and self.nb is not None:
            r.nb = max(0, self.nb - int(o))
        return r

    def __rrshift__(self, o):
        return o >> E.concretize(self, "shift")

    def __pow__(self, o, mod=None):
        if type(o) is SymInt:
            o = E.concretize(o, "exponent")
        if type(o) is not int or o < 0 or mod is not None:
            return NotImplemented
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** E.concretize(self, "exponent")

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        if type(o) is SymBool:
            o = o.as_int()
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            return _and_const(self, o)
        if type(o) is SymInt:
            return _bitop(self, o, lambda a, b: a & b)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            o = int(o) if type(o) is bool else o.as_int()
        if type(o) is int:
            if o == 0:
                return self
            # x | c == x + (c - (x & c))
            return self + (o - _and_const(self, o)) if o > 0 else _bitop(self, o, lambda a, b: a | b)
        if type(o) is SymInt:
            if self.nb is not None and o.nb is not None and (self.nb <= o.tz or o.nb <= self.tz):
                return self + o
            return _bitop(self, o, lambda a, b: a | b)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            o = int(o) if type(o) is bool else o.as_int()
        if type(o) is int:
            if o == 0:
                return self
            if o > 0:
                return self + (o - 2 * _and_const(self, o))
            return _bitop(self, o, lambda a, b: a ^ b)
        if type(o) is SymInt:
            if self.nb is not None and o.nb is not None and (self.nb <= o.tz or o.nb <= self.tz):
                return self + o
            return _bitop(self, o, lambda a, b: a ^ b)
        return NotImplemented

    __rxor__ = __xor__

    def bit_length(self):
        raise Unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        out = [SymInt((self.e / z3.IntVal(1 << (8 * i))) % 256, 0, 8) for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return SymBytes(out)

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __format__(self, spec):
        return format(E.concretize(self, "format"), spec)

    def __str__(self):
        return str(E.concretize(self, "str()"))

    def __repr__(self):
        return "SymInt(%s)" % (self.e,)


def _and_const(x, c):
    if c == 0:
        return 0
    if c < 0:
        # x & c == x - (x & ~c)
        return x - _and_const(x, ~c)
    if x.nb is not None:
        if (c & ((1 << x.nb) - 1)) == ((1 << x.nb) - 1):
            return x
        c &= (1 << x.nb) - 1
        if c == 0:
            return 0
    # sum over runs of ones
    e = None
    i = 0
    while c >> i:
        if (c >> i) & 1:
            j = i
            while (c >> j) & 1:
                j += 1
            t = ((x.e / z3.IntVal(1 << i)) if i else x.e) % z3.IntVal(1 << (j - i))
            t = t * z3.IntVal(1 << i) if i else t
            e = t if e is None else e + t
            i = j
        else:
            i += 1
    r = mknum(e)
    if type(r) is SymInt:
        r.nb = c.bit_length()
        r.tz = (c & -c).bit_length() - 1
    return r


def _bitop(a, b, op):
    """General bit operation on 64-bit non-negative values (checked)."""
    ae, be = num_expr(a), num_expr(b)
    lim = z3.IntVal(1 << 64)
    ok = z3.And(ae >= 0, ae < lim, be >= 0, be < lim)
    if not E.branch(ok):
        raise Unsupported("bit operation outside [0, 2**64)")
    return mknum(z3.BV2Int(op(z3.Int2BV(ae, 64), z3.Int2BV(be, 64))))


class SymReal(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e if e.sort() == z3.RealSort() else z3.ToReal(e)

    @property
    def __class__(self):
        return float

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __int__(self):
        return E.concretize(trunc(self), "int()")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return mknum(z3.ToInt(self.e))

    def __ceil__(self):
        return mknum(-z3.ToInt(-self.e))

    def __float__(self):
        raise Unsupported("float() of symbolic real at a C boundary")

    def __format__(self, spec):
        raise Unsupported("format of symbolic real")

    def __str__(self):
        raise Unsupported("str of symbolic real")

    def __repr__(self):
        return "SymReal(%s)" % (self.e,)


def trunc(x):
    e = x.e
    if e.sort() == z3.IntSort():
        return x
    return mknum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


# ------------------------------------------------------------------- unions
class SymUnion(Sym):
    """One of several values; guards are exhaustive and mutually exclusive
    under the path condition at the point of creation."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        object.__setattr__(self, "alts", alts)

    @property
    def __class__(self):
        return resolve(self).__class__

    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__dict__", "__fspath__"):
            raise AttributeError(name)
        return getattr(resolve(self), name)

    def __setattr__(self, name, val):
        setattr(resolve(self), name, val)

    def __call__(self, *a, **k):
        return resolve(self)(*a, **k)

    def __bool__(self):
        t = truth(self)
        return t if isinstance(t, bool) else E.branch(t)

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __hash__(self):
        return hash(resolve(self))

    def __iter__(self):
        return iter(resolve(self))

    def __len__(self):
        return len(resolve(self))

    def __getitem__(self, k):
        return resolve(self)[k]

    def __setitem__(self, k, v):
        resolve(self)[k] = v

    def __delitem__(self, k):
        del resolve(self)[k]

    def __contains__(self, k):
        return k in resolve(self)

    def __index__(self):
        return resolve(self).__index__()

    def __fspath__(self):
        return resolve(self).__fspath__()

    def __format__(self, spec):
        return format(resolve(self), spec)

    def __str__(self):
        return str(resolve(self))

    def __repr__(self):
        return "SymUnion(%s)" % (self.alts,)


def _delegate_union(name):
    import operator

    base = {
        "add": operator.add, "sub": operator.sub, "mul": operator.mul,
        "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod,
        "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_,
        "or": operator.or_, "xor": operator.xor, "pow": operator.pow,
    }
    if name in base:
        op = base[name]

        def f(self, o):
            return op(resolve(self), o)

        def r(self, o):
            return op(o, resolve(self))

        setattr(SymUnion, "__%s__" % name, f)
        setattr(SymUnion, "__r%s__" % name, r)
    else:
        op = getattr(operator, name)

        def f(self, o):
            return op(resolve(self), o)

        setattr(SymUnion, "__%s__" % name, f)


for _n in "add sub mul truediv floordiv mod lshift rshift and or xor pow lt le gt ge".split():
    _delegate_union(_n)
SymUnion.__neg__ = lambda self: -resolve(self)
SymUnion.__invert__ = lambda self: ~resolve(self)
SymUnion.__abs__ = lambda self: abs(resolve(self))


def resolve(v):
    """Pick (by forking if needed) the alternative of a union that applies."""
    while type(v) is SymUnion:
        alts = v.alts
        for i, (g, x) in enumerate(alts):
            if i == len(alts) - 1 or E.branch(g):
                if x is UNDEF:
                    UNDEF._die()
                v = x
                break
    return v


def mkunion(alts):
    """alts: [(guard, value)] exhaustive+exclusive; flattens and drops false guards."""
    out = []
    for g, v in alts:
        if type(v) is SymUnion:
            for g2, v2 in v.alts:
                out.append((conj([g, g2]), v2))
        else:
            out.append((g, v))
    res = []
    for g, v in out:
        if g is False:
            continue
        if not isinstance(g, bool):
            g = simp(g)
            if z3.is_false(g):
                continue
            if z3.is_true(g):
                g = True
        if g is True:
            return v
        for i, (g0, v0) in enumerate(res):
            if v0 is v or (type(v0) in (int, str, bool, float) and type(v0) is type(v) and v0 == v):
                res[i] = (z3.Or(g0, g), v0)
                break
        else:
            res.append((g, v))
    if len(res) == 1:
        return res[0][1]
    return SymUnion(res)


_merge_text = None


def merge(g, a, b):
    """Value that is `a` where g holds and `b` elsewhere."""
    if a is b:
        return a
    if isinstance(g, bool):
        return a if g else b
    g = simp(g)
    if z3.is_true(g):
        return a
    if z3.is_false(g):
        return b
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        ea = a.e if ta is SymBool else z3.BoolVal(a)
        eb = b.e if tb is SymBool else z3.BoolVal(b)
        return mkbool(z3.If(g, ea, eb))
    nums = (int, float, SymInt, SymReal)
    if ta in nums and tb in nums:
        ea, eb = num_expr(a), num_expr(b)
        if ea is not None and eb is not None:
            if ea.sort() != eb.sort():
                ea, eb = toreal(ea), toreal(eb)
            r = mknum(z3.If(g, ea, eb))
            if type(r) is SymInt and ta in (SymInt,) and tb is SymInt:
                if a.nb is not None and b.nb is not None:
                    r.nb = max(a.nb, b.nb)
            return r
    if ta is str and tb is str and a == b:
        return a
    if ta is SymUnion or tb is SymUnion:  # looking into a union would fork
        return mkunion([(g, a), (z3.Not(g), b)])
    if _merge_text is not None:
        r = _merge_text(g, a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, tuple) and ta is tb and len(a) == len(b) and not isinstance(a, Sym):
        items = [merge(g, x, y) for x, y in zip(a, b)]
        return ta(*items) if hasattr(ta, "_fields") else tuple(items)
    return mkunion([(g, a), (z3.Not(g), b)])


def truth(v):
    """Truth value without forking: bool or z3 Bool."""
    t = type(v)
    if t is bool:
        return v
    if t is SymBool:
        return v.e
    if v is None:
        return False
    if t in (SymInt, SymReal):
        return v.e != 0
    if t is SymUnion:
        return disj([conj([g, truth(x)]) for g, x in v.alts])
    h = getattr(t, "_truth", None)
    if h is not None:
        return h(v)
    return bool(v)


# --------------------------------------------------------------- bytes
class SymBytes(Sym):
    """bytes of concrete length with symbolic elements (SymInt/int 0..255)."""

    __slots__ = ("b",)

    def __init__(self, b):
        self.b = list(b)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.b)

    def _truth(self):
        return len(self.b) > 0

    def __bool__(self):
        return len(self.b) > 0

    def __iter__(self):
        return iter(self.b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.b[i])
        return self.b[i]

    def __add__(self, o):
        return SymBytes(self.b + list(o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.b)

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __repr__(self):
        return "SymBytes(%d)" % len(self.b)

    def tobytes(self):
        return self

    def cast(self, fmt):
        from . import shims

        return shims.unpack_all(fmt, self)


# ---------------------------------------------------------------- equality
_EQ_HOOKS = []  # functions (a, b) -> bool | z3 | NotImplemented


def eq(a, b):
    """Semantic equality as bool or z3 Bool (never forks)."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymUnion:
        return disj([conj([g, eq(x, b)]) for g, x in a.alts])
    if tb is SymUnion:
        return disj([conj([g, eq(a, x)]) for g, x in b.alts])
    if a is None or b is None:
        return False
    if is_num(a) or is_num(b):
        if not (is_num(a) and is_num(b)):
            return False
        if ta in (bool, SymBool) and tb in (bool, SymBool):
            ea = a.e if ta is SymBool else z3.BoolVal(a)
            eb = b.e if tb is SymBool else z3.BoolVal(b)
            return _b(ea == eb)
        ea, eb = num_expr(a), num_expr(b)
        if ea is None or eb is None:
            return a == b
        if ea.sort() != eb.sort():
            ea, eb = toreal(ea), toreal(eb)
        return _b(ea == eb)
    for h in _EQ_HOOKS:
        r = h(a, b)
        if r is not NotImplemented:
            return r
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b) or isinstance(a, list) != isinstance(b, list):
            return False
        return conj([eq(x, y) for x, y in zip(a, b)])
    if ta is SymBytes or tb is SymBytes:
        if not isinstance(a, (bytes, bytearray, SymBytes)) or not isinstance(
            b, (bytes, bytearray, SymBytes)
        ):
            return False
        la, lb = list(a), list(b)
        if len(la) != len(lb):
            return False
        return conj([eq(x, y) for x, y in zip(la, lb)])
    r = a == b
    return r.e if type(r) is SymBool else bool(r)


def _b(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


# ------------------------------------------------------- guarded containers
class SList(list):
    """List created by code under test: refuses joint execution when mutated
    under a guard that does not cover its creation."""

    def __init__(self, *a):
        list.__init__(self, *a)
        self._g = E.tokens()
        self._imp = E.pos == 0 and getattr(E, "importing", False)

    def _mut(self):
        if self._imp:
            E.dirty = True
        if E.guards and E.relative_guard(self._g) is not None:
            E.abort_merge("list mutated under a guard")

    def __iadd__(self, o):
        self._mut()
        list.extend(self, o)
        return self

    def __add__(self, o):
        return SList(list.__add__(self, list(o)))

    def __mul__(self, n):
        return SList(list.__mul__(self, n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return SList(r) if isinstance(i, slice) else r

    def copy(self):
        return SList(self)

    def __deepcopy__(self, memo):
        import copy

        return SList(copy.deepcopy(x, memo) for x in self)

    def __reduce__(self):
        return (SList, (list(self),))


def _mk_mut(name):
    base = getattr(list, name)

    def f(self, *a, **k):
        self._mut()
        return base(self, *a, **k)

    f.__name__ = name
    setattr(SList, name, f)


for _n in (
    "append extend insert pop remove clear sort reverse __setitem__ __delitem__".split()
):
    _mk_mut(_n)


def _setitem(self, i, v):
    if self._imp:
        E.dirty = True
    g = E.relative_guard(self._g) if E.guards else None
    if g is not None:
        if type(i) is not int or not -len(self) <= i < len(self):
            E.abort_merge("list mutated under a guard")
        v = merge(g, v, list.__getitem__(self, i))
    list.__setitem__(self, i, v)


SList.__setitem__ = _setitem


class SDict(Sym):
    """Insertion-ordered mapping whose entries may be conditionally present and
    whose keys may be symbolic."""

    __slots__ = ("ents", "_g", "_imp", "idx", "kind", "__weakref__", "default_factory")

    def __init__(self, ents=(), kind="dict"):
        # entry: [key, value, present]
        self.ents = [list(e) for e in ents]
        self._g = E.tokens()
        self._imp = getattr(E, "importing", False)
        self.kind = kind
        self.default_factory = None
        self._reindex()

    def _reindex(self):
        self.idx = {}
        for i, e in enumerate(self.ents):
            if type(e[0]) in _PLAIN:
                self.idx[(type(e[0]) is str, e[0])] = i
            else:
                self.idx = None
                return

    @property
    def __class__(self):
        return dict

    @classmethod
    def of(cls, src=(), **kw):
        d = cls()
        d.update(src, **kw)
        return d

    def _mut(self):
        if self._imp:
            E.dirty = True
        if E.guards and E.relative_guard(self._g) is not None:
            E.abort_merge("dict mutated under a guard")

    # -- lookup: list of (guard, entry) exclusive, plus the guard of absence
    def _find(self, k):
        """Entry index for key k, forking on symbolic key equality; or None."""
        k = resolve(k)
        if type(k) in _PLAIN and self.idx is not None:
            return self.idx.get((type(k) is str, k))
        if not _hashable(k):
            raise TypeError("unhashable type: %r" % type(k).__name__)
        for i, e in enumerate(self.ents):
            c = eq(e[0], k)
            if c is False:
                continue
            if c is True or E.branch(c):
                return i
        return None

    def _present(self, i):
        p = self.ents[i][2]
        return True if p is True else E.branch(p)

    def __getitem__(self, k):
        i = self._find(k)
        if i is None or not self._present(i):
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        return self.ents[i][1]

    def get(self, k, default=None):
        i = self._find(k)
        if i is None:
            return default
        p = self.ents[i][2]
        if p is True:
            return self.ents[i][1]
        known = E.lookup(p)
        if known is not None:
            return self.ents[i][1] if known else default
        return merge(p, self.ents[i][1], default)

    def has(self, k):
        i = self._find(k)
        return False if i is None else self.ents[i][2]

    def __contains__(self, k):
        h = self.has(k)
        return h if isinstance(h, bool) else E.branch(h)

    def __setitem__(self, k, v):
        self._set(k, v)

    def _set(self, k, v, when=True):
        """self[k] = v where `when` holds."""
        if self._imp:
            E.dirty = True
        k = resolve(k)
        i = self._find(k)
        g = E.relative_guard(self._g) if E.guards else None
        if when is not True:
            g = when if g is None else z3.And(g, when)
        if i is None:
            self.ents.append([k, v, True if g is None else g])
            if type(k) in _PLAIN and self.idx is not None:
                self.idx[(type(k) is str, k)] = len(self.ents) - 1
            else:
                self.idx = None
        else:
            e = self.ents[i]
            if g is None:
                # (a key that may be new keeps its earlier position)
                e[1], e[2] = v, True
            else:
                if e[2] is True:
                    e[1] = merge(g, v, e[1])
                else:
                    # where absent, a guarded write adds it at the end: the
                    # position only matters for iteration order, settled there
                    e[1] = merge(g, v, e[1])
                    e[2] = simp(z3.Or(e[2], g))

    def _drop(self, i):
        """The entry is gone (where the current guard holds)."""
        if self._imp:
            E.dirty = True
        g = E.relative_guard(self._g) if E.guards else None
        if g is None:
            self.ents.pop(i)
            self._reindex()
        else:
            self.ents[i][2] = simp(conj([self.ents[i][2], z3.Not(g)]))

    def __delitem__(self, k):
        i = self._find(k)
        if i is None or not self._present(i):
            raise KeyError(k)
        self._drop(i)

    _MISSING = object()

    def pop(self, k, default=_MISSING):
        i = self._find(k)
        if i is None or default is SDict._MISSING and not self._present(i):
            if default is SDict._MISSING:
                raise KeyError(k)
            return default
        v = self.ents[i][1] if default is SDict._MISSING else self.get(k, default)
        self._drop(i)
        return v

    def popitem(self):
        self._mut()
        self._settle()
        if not self.ents:
            raise KeyError("popitem(): dictionary is empty")
        e = self.ents.pop()
        self._reindex()
        return (e[0], e[1])

    def setdefault(self, k, default=None):
        i = self._find(k)
        p = False if i is None else self.ents[i][2]
        if not isinstance(p, bool) and E.lookup(p) is not None:
            p = E.lookup(p)
        if p is True:
            return self.ents[i][1]
        v = self.get(k, default)
        self._set(k, default, neg(p))
        return v

    def clear(self):
        self._mut()
        self.ents = []
        self._reindex()

    def update(self, src=(), **kw):
        if type(src) is SymUnion:
            src = resolve(src)
        if isinstance(src, SDict) or type(src) is SDict or isinstance(src, SObjDict):
            for k, v, p in list(src.ents):
                self._set(k, v, p)
        elif hasattr(src, "keys"):
            for k in src.keys():
                self[k] = src[k]
        else:
            for k, v in src:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _live(self):
        """Entries present, deciding each conditional presence (forks)."""
        out = []
        for e in list(self.ents):
            if e[2] is True or E.branch(e[2]):
                out.append(e)
        return out

    def _settle(self):
        live = self._live()
        if len(live) != len(self.ents):
            self.ents = live
        for e in self.ents:
            e[2] = True
        self._reindex()

    def keys(self):
        return _View(self, 0)

    def values(self):
        return _View(self, 1)

    def items(self):
        return _View(self, 2)

    def __iter__(self):
        for e in list(self.ents):
            if e[2] is True or E.branch(e[2]):
                yield e[0]

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._live())])

    def __len__(self):
        return len(self._live())

    def _len(self):
        return how_many([e[2] for e in self.ents])

    def _truth(self):
        return disj([e[2] for e in self.ents])

    def __bool__(self):
        t = self._truth()
        return t if isinstance(t, bool) else E.branch(t)

    def copy(self):
        d = SDict(self.ents)
        d.default_factory = self.default_factory
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        return SDict([[e[0], copy.deepcopy(e[1], memo), e[2]] for e in self.ents])

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = SDict.of(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    __hash__ = None

    def fromkeys(self, keys, v=None):
        return SDict([[k, v, True] for k in keys])

    def __repr__(self):
        return "SDict(%s)" % (
            ", ".join("%r%s: %r" % (k, "" if p is True else "?", v) for k, v, p in self.ents),
        )


class SObjDict(SDict):
    """View of an instance's __dict__ that writes through to the instance."""

    __slots__ = ("obj",)

    def __init__(self, obj):
        SDict.__init__(self, [[k, v, True] for k, v in object.__getattribute__(obj, "__dict__").items()])
        self.obj = obj

    def __setitem__(self, k, v):
        setattr(self.obj, k, v)
        self._sync()

    def __delitem__(self, k):
        delattr(self.obj, k)
        self._sync()

    def pop(self, k, default=SDict._MISSING):
        v = SDict.pop(self, k, default)
        if hasattr(self.obj, k):
            delattr(self.obj, k)
        return v

    def _sync(self):
        self.ents = [[k, v, True] for k, v in object.__getattribute__(self.obj, "__dict__").items()]
        self._reindex()


_PLAIN = (str, int, bool, type(None), tuple, float)


def _hashable(k):
    if isinstance(k, Sym):
        return type(k) is not SDict
    try:
        hash(k)
        return True
    except TypeError:
        return False


class _View:
    def __init__(self, d, what):
        self.d = d
        self.what = what

    def __iter__(self):
        for e in list(self.d.ents):
            if e[2] is True or E.branch(e[2]):
                yield e[0] if self.what == 0 else e[1] if self.what == 1 else (e[0], e[1])

    def __len__(self):
        return len(self.d)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, k):
        if self.what == 0:
            return k in self.d
        return any(x == k for x in self)

    def _truth(self):
        return self.d._truth()

    def __bool__(self):
        return bool(self.d)

    def _set(self):
        from . import shims

        return shims.SSet(self)

    def __sub__(self, o):
        return self._set().difference(o)

    def __and__(self, o):
        return self._set().intersection(o)

    def __or__(self, o):
        return self._set().union(o)

    def __xor__(self, o):
        return self._set().symmetric_difference(o)

    def __rsub__(self, o):
        from . import shims

        return shims.SSet(o).difference(self)

    def __le__(self, o):
        return self._set().issubset(o)

    def __ge__(self, o):
        return self._set().issuperset(o)

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __eq__(self, o):
        if self.what == 1:
            return self is o
        return self._set() == o

    __hash__ = None


def _eq_dict(a, b):
    da, db = isinstance(a, dict) or type(a) in (SDict, SObjDict), isinstance(b, dict) or type(b) in (SDict, SObjDict)
    if not (da or db):
        return NotImplemented
    if not (da and db):
        return False
    ea = a.ents if type(a) in (SDict, SObjDict) else [[k, v, True] for k, v in a.items()]
    eb = b.ents if type(b) in (SDict, SObjDict) else [[k, v, True] for k, v in b.items()]
    # every present entry of each side has an equal present entry on the other
    def sub(xs, ys):
        cs = []
        for k, v, p in xs:
            c = disj([conj([p2, eq(k, k2), eq(v, v2)]) for k2, v2, p2 in ys])
            cs.append(disj([neg(p), c]))
        return conj(cs)

    return conj([sub(ea, eb), sub(eb, ea)])


_EQ_HOOKS.append(_eq_dict)

import collections.abc as _abc

_abc.MutableMapping.register(SDict)
