"""Rewriting of the parser's syntax trees so that unknown values reach the engine.

Nothing here knows the code under test: the rules are about Python constructs.
"""
import ast
import copy

STR_METHODS = {
    "join", "startswith", "endswith", "format", "replace", "split", "rsplit", "find",
    "rfind", "index", "count", "partition", "rpartition", "removeprefix", "removesuffix",
    "strip", "lstrip", "rstrip", "translate", "format_map",
}
NO_REWRITE_CALLS = {"TypedDict", "NamedTuple", "namedtuple", "TypeVar", "NewType"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
SCOPES = FUNCS + (ast.ClassDef,)


def walk_scope(nodes):
    """All nodes in the same function scope (not inside nested functions)."""
    todo = list(nodes)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES):
            continue
        todo.extend(ast.iter_child_nodes(n))


def has(nodes, types):
    return any(isinstance(n, types) for n in walk_scope(nodes))


def has_own_jump(stmts, kinds):
    """break/continue that belong to a loop outside these statements."""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, SCOPES):
            continue
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def terminates(stmts, kinds):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, kinds):
        return True
    if isinstance(s, ast.If):
        return terminates(s.body, kinds) and terminates(s.orelse, kinds)
    if isinstance(s, ast.With):
        return terminates(s.body, kinds)
    if isinstance(s, ast.Try):
        return (terminates(s.body, kinds) or terminates(s.orelse, kinds)) and all(
            terminates(h.body, kinds) for h in s.handlers)
    return False


def size(stmts):
    return sum(1 for s in stmts for n in ast.walk(s) if isinstance(n, ast.stmt))


def to_tail(stmts, jump, ends, on_jump):
    """Fold what follows an `if` that jumps (return / continue) into its branches."""
    out = []
    for i, s in enumerate(stmts):
        rest = stmts[i + 1 :]
        if isinstance(s, jump):
            out.extend(on_jump(s))
            return out
        if isinstance(s, ast.If) and jump_in([s], jump):
            bt, ot = terminates(s.body, ends), terminates(s.orelse, ends)
            body, orelse = list(s.body), list(s.orelse)
            if rest:
                if bt and ot:
                    pass
                elif bt:
                    orelse = orelse + rest
                elif ot:
                    body = body + rest
                elif size(rest) <= 12:
                    body = body + copy.deepcopy(rest)
                    orelse = orelse + rest
                else:
                    out.append(s)
                    continue
            new = ast.copy_location(
                ast.If(s.test, to_tail(body, jump, ends, on_jump) or [ast.Pass()],
                       to_tail(orelse, jump, ends, on_jump)), s)
            out.append(new)
            return out
        if isinstance(s, ast.Try) and not s.finalbody and jump_in([s], jump) and (
                not s.orelse or not jump_in(s.body, jump)):
            done = terminates(s.body, ends)
            open_ = [h.body for h in s.handlers if not terminates(h.body, ends)]
            if not done and not terminates(s.orelse, ends):
                open_.append(s.orelse)
            if (done or not jump_in(s.body, jump)) and (
                    len(open_) <= 1 or not rest or size(rest) <= 12):
                for b in open_:
                    b.extend(copy.deepcopy(rest))
                if done:
                    s.body = to_tail(s.body, jump, ends, on_jump) or [ast.Pass()]
                for h in s.handlers:
                    h.body = to_tail(h.body, jump, ends, on_jump) or [ast.Pass()]
                s.orelse = to_tail(s.orelse, jump, ends, on_jump)
                out.append(s)
                return out
        if isinstance(s, ast.With) and not rest and jump_in([s], jump):
            s.body = to_tail(s.body, jump, ends, on_jump) or [ast.Pass()]
        out.append(s)
    return out


def jump_in(stmts, jump):
    if jump is ast.Continue:
        return has_own_jump(stmts, ast.Continue)
    return has(stmts, jump)


def stored(stmts):
    """Names bound by the statements in their own scope."""
    names = set()
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension; walrus targets are not
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return names


def first_lookups(stmt):
    """The `d[k]` of a statement that are evaluated before anything is called."""
    found = []

    class Stop(Exception):
        pass

    def plain(e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, (ast.Name, ast.Constant))

    def go(e):
        if e is None or isinstance(e, (ast.Name, ast.Constant, ast.Lambda)):
            return
        if isinstance(e, ast.Subscript):
            if plain(e.value) and plain(e.slice):
                found.append((e.value, e.slice))
                return
            go(e.value)
            go(e.slice)
            if isinstance(e.slice, ast.Slice):
                raise Stop
        elif isinstance(e, ast.Call):
            go(e.func)
            for a in e.args:
                go(a)
            for k in e.keywords:
                go(k.value)
            raise Stop
        elif isinstance(e, (ast.Attribute, ast.Starred, ast.FormattedValue)):
            go(e.value)
        elif isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                go(x)
        elif isinstance(e, (ast.IfExp,)):
            go(e.test)
            raise Stop
        elif isinstance(e, ast.Compare):
            go(e.left)
            go(e.comparators[0])
            raise Stop
        elif isinstance(e, ast.BinOp):
            go(e.left)
            go(e.right)
        elif isinstance(e, ast.UnaryOp):
            go(e.operand)
        else:
            raise Stop

    try:
        if isinstance(stmt, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)):
            go(stmt.value)
    except Stop:
        pass
    return found


class KeyTry(ast.NodeTransformer):
    """`try: ... d[k] ... except KeyError: A` also says what happens where k is
    missing: with an unknown presence it becomes an `if` that can be joined."""

    def _catches(self, h):
        names = [n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)] if h.type else []
        return h.type is None or any(
            n in ("KeyError", "LookupError", "Exception", "BaseException") for n in names)

    def visit_With(self, node):
        self.generic_visit(node)
        c = node.items[0].context_expr
        if len(node.items) == 1 and node.items[0].optional_vars is None and isinstance(c, ast.Call) \
                and isinstance(c.func, (ast.Name, ast.Attribute)) and c.args \
                and (c.func.id if isinstance(c.func, ast.Name) else c.func.attr) == "suppress":
            new = ast.Try(node.body, [ast.ExceptHandler(
                ast.Tuple(list(c.args), ast.Load()), None, [ast.Pass()])], [], [])
            return self.visit_Try(ast.copy_location(new, node), False)
        return node

    def visit_Try(self, node, inner=True):
        if inner:
            self.generic_visit(node)
        h = next((h for h in node.handlers if self._catches(h)), None)
        if h is None or h.name or node.finalbody or any(
                isinstance(n, ast.Raise) and n.exc is None for n in walk_scope(h.body)):
            return node
        tests = first_lookups(node.body[0])
        if not tests:
            return node
        test = call("_sx_haskeys", *[
            thunk(ast.Tuple([copy.deepcopy(a), copy.deepcopy(b)], ast.Load())) for a, b in tests])
        return ast.copy_location(ast.If(test, [node], copy.deepcopy(h.body)), node)


def call(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


def thunk(e):
    return ast.Lambda(
        ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e
    )


def names_tuple(names, ctx):
    return ast.Tuple([ast.Name(n, ctx()) for n in names], ctx())


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = ["module"]
        self.qual = []
        self.outer = [set()]
        self.n = 0

    # ---- scopes
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self._args(node.args)
        self.scope.append("function")
        self.qual.append(node.name)
        body = node.body
        glob = set()
        for n in walk_scope(body):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
        self.outer.append(glob)
        if not has(body, (ast.Yield, ast.YieldFrom, ast.Await)):
            if any(isinstance(s, ast.If) and has([s], ast.Return) for s in body) or (
                body and isinstance(body[-1], ast.With) and has(body[-1:], ast.Return)
            ):
                body = self._single_exit(body)
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        enter = ast.Expr(call("_sx_enter", const(self.module + "." + ".".join(self.qual))))
        node.body = doc + [enter] + self._block(body)
        self.outer.pop()
        self.qual.pop()
        self.scope.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _single_exit(self, body):
        def on_return(s):
            v = s.value if s.value is not None else const(None)
            return [ast.copy_location(ast.Assign([ast.Name("_sx_ret", ast.Store())], v), s)]

        new = to_tail(body, ast.Return, (ast.Return, ast.Raise), on_return)
        return (
            [ast.Assign([ast.Name("_sx_ret", ast.Store())], const(None))]
            + new
            + [ast.Return(ast.Name("_sx_ret", ast.Load()))]
        )

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self._args(node.args)
        self.scope.append("function")
        node.body = self.visit(node.body)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append("class")
        self.qual.append(node.name)
        node.body = self._block(node.body)
        self.qual.pop()
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    # ---- statements
    def _loop(self, node):
        if has_own_jump(node.body, ast.Continue):
            node.body = to_tail(
                node.body, ast.Continue, (ast.Continue, ast.Return, ast.Raise, ast.Break),
                lambda s: [],
            ) or [ast.Pass()]
        node.body = self._block(node.body)
        if node.orelse:
            node.orelse = self._block(node.orelse)
        return node

    def _iterated(self, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                and it.func.attr in ("findall", "iterfind"):
            it = ast.copy_location(ast.Call(
                ast.Name("_sx_" + it.func.attr, ast.Load()), [it.func.value] + it.args,
                it.keywords), it)
        return self.visit(it)

    def visit_For(self, node):
        node.iter = self._iterated(node.iter)
        if has_own_jump(node.body, ast.Continue):
            node.body = to_tail(
                node.body, ast.Continue, (ast.Continue, ast.Return, ast.Raise, ast.Break),
                lambda s: [],
            ) or [ast.Pass()]
        joint = ast.If(None, [], [])
        if node.body and isinstance(node.body[-1], ast.Break):
            # at most one turn: an `if` on whether there is an item
            joint.body, joint.orelse = node.body[:-1] or [ast.Pass()], node.orelse
            names = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
            if self._mergeable(joint) and not names & self.outer[-1]:
                self.n += 1
                p, t = "_sx_p%d" % self.n, "_sx_t%d" % self.n
                first = ast.Assign([ast.Tuple([ast.Name(p, ast.Store()), ast.Name(t, ast.Store())],
                                              ast.Store())], call("_sx_first", node.iter))
                inner = ast.If(ast.Name(p, ast.Load()), [
                    ast.Assign([node.target], ast.Name(t, ast.Load()))] + joint.body, joint.orelse)
                for x in (first, inner, inner.body[0]):
                    ast.copy_location(x, node)
                return [first] + self.visit_If(inner)
        joint.orelse = []
        joint.body = node.body
        names = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        if not self._mergeable(joint) or names & self.outer[-1]:
            node.target = self.visit(node.target)
            return self._loop(node)
        # items that may be missing: the body runs under the item's presence
        self.n += 1
        p, t = "_sx_p%d" % self.n, "_sx_t%d" % self.n
        inner = ast.If(ast.Name(p, ast.Load()), [
            ast.Assign([node.target], ast.Name(t, ast.Load()))] + node.body, [])
        for x in (inner, inner.body[0]):
            ast.copy_location(x, node)
        node.body = self.visit_If(inner)
        node.target = ast.Tuple([ast.Name(p, ast.Store()), ast.Name(t, ast.Store())], ast.Store())
        node.iter = ast.copy_location(call("_sx_giter", node.iter), node)
        if node.orelse:
            node.orelse = self._block(node.orelse)
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        return self._loop(node)

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        node.body = self._block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self._block(node.body)
        for h in node.handlers:
            h.body = self._block(h.body)
            broad = h.type is None or any(
                isinstance(n, ast.Name) and n.id == "BaseException" for n in ast.walk(h.type)
            )
            if broad:
                h.body.insert(0, ast.Expr(call("_sx_reraise")))
        node.orelse = self._block(node.orelse) if node.orelse else []
        node.finalbody = self._block(node.finalbody) if node.finalbody else []
        return node

    def _mergeable(self, node):
        if self.scope[-1] != "function":
            return False
        both = node.body + node.orelse
        if has(both, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Global,
                      ast.Nonlocal, ast.ClassDef)):
            return False
        if has_own_jump(both, (ast.Break, ast.Continue)):
            return False
        for n in walk_scope(both):
            if isinstance(n, ast.Delete) and any(isinstance(t, ast.Name) for t in n.targets):
                return False
        if terminates(node.body, ast.Raise) or terminates(node.orelse, ast.Raise):
            return False
        if stored(both) & self.outer[-1]:
            return False
        return True

    def visit_If(self, node):
        ok = self._mergeable(node)
        names = sorted(stored(node.body + node.orelse) | {
            n.target.id for n in ast.walk(node.test) if isinstance(n, ast.NamedExpr)}) if ok else []
        # a walrus in the test binds before the branches: nothing to join
        names = [n for n in names if n in stored(node.body + node.orelse)]
        test = self.visit(node.test)
        body = self._block(node.body)
        orelse = self._block(node.orelse) if node.orelse else []
        if not ok:
            node.test, node.body, node.orelse = test, body, orelse
            return node
        self.n += 1
        i, o, a, e = ("_sx_%s%d" % (c, self.n) for c in "ioae")
        L = lambda x: ast.Name(x, ast.Load())
        S = lambda x: ast.Name(x, ast.Store())
        meth = lambda m, *args: ast.Call(ast.Attribute(L(i), m, ast.Load()), list(args), [])
        cap = lambda: call("_sx_cap", const(tuple(names)))
        merging = lambda: ast.Attribute(L(i), "merging", ast.Load())
        pre = [ast.Assign([S(i)], call("_sx_if", test))]
        tr = []
        if names:
            pre.append(ast.Assign([S(o)], cap()))
            tr.append(ast.If(meth("then"), body, []))
            tr.append(ast.If(merging(), [
                ast.Assign([S(a)], cap()),
                ast.Assign([names_tuple(names, ast.Store)], L(o)),
            ], []))
            if orelse:
                tr.append(ast.If(meth("orelse"), orelse, []))
            else:
                tr.append(ast.Expr(meth("orelse")))
            tr.append(ast.If(merging(), [
                ast.Expr(meth("leave")),
                ast.Assign([names_tuple(names, ast.Store)], meth("join", L(a), cap())),
            ], []))
        else:
            tr.append(ast.If(meth("then"), body, []))
            if orelse:
                tr.append(ast.If(meth("orelse"), orelse, []))
            else:
                tr.append(ast.Expr(meth("orelse")))
            tr.append(ast.Expr(meth("leave")))
        h = ast.ExceptHandler(ast.Name("_sx_BaseException", ast.Load()), e,
                              [ast.Expr(meth("abort", L(e))), ast.Raise()])
        pre.append(ast.Try(tr, [h], [], []))
        for s in pre:
            ast.copy_location(s, node)
        return pre

    # ---- expressions
    def _thunkable(self, *es):
        if self.scope[-1] == "class":
            return False
        for e in es:
            for n in ast.walk(e):
                if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                    return False
                if isinstance(n, ast.Name) and n.id == "super":
                    return False
        return True

    def visit_BoolOp(self, node):
        ok = self._thunkable(*node.values)
        vals = [self.visit(v) for v in node.values]
        if not ok:
            node.values = vals
            return node
        f = "_sx_and" if isinstance(node.op, ast.And) else "_sx_or"
        return ast.copy_location(call(f, *[thunk(v) for v in vals]), node)

    def visit_IfExp(self, node):
        ok = self._thunkable(node.body, node.orelse)
        t, b, o = self.visit(node.test), self.visit(node.body), self.visit(node.orelse)
        if not ok:
            return ast.copy_location(ast.IfExp(t, b, o), node)
        return ast.copy_location(call("_sx_ifexp", t, thunk(b), thunk(o)), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(call("_sx_not", node.operand), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            f = {ast.Is: "_sx_is", ast.IsNot: "_sx_isnot", ast.In: "_sx_in",
                 ast.NotIn: "_sx_notin"}.get(type(op))
            if f:
                return ast.copy_location(call(f, node.left, node.comparators[0]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call("_sx_mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const("")
                parts.append(ast.Tuple(
                    [self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return ast.copy_location(
            call("_sx_fstr", ast.Tuple(parts, ast.Load())), node)

    def visit_Dict(self, node):
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([ast.Name("_sx_star", ast.Load()), self.visit(v)], ast.Load()))
            else:
                items.append(ast.Tuple([self.visit(k), self.visit(v)], ast.Load()))
        return ast.copy_location(call("_sx_dict", ast.List(items, ast.Load())), node)

    def _comp(self, node, item):
        """(iterable, condition, item) of a comprehension as functions of the target."""
        g = node.generators[0]
        names = [g.target] if isinstance(g.target, ast.Name) else getattr(g.target, "elts", [])
        if len(node.generators) != 1 or g.is_async or not names or not all(
                isinstance(n, ast.Name) for n in names) or not self._thunkable(item, *g.ifs):
            return None

        def fn(body):
            body = self.visit(body)
            a = ast.arguments(posonlyargs=[], args=[ast.arg(n.id) for n in names],
                              kwonlyargs=[], kw_defaults=[], defaults=[])
            f = ast.Lambda(a, body)
            if isinstance(g.target, ast.Name):
                return f
            one = ast.arguments(posonlyargs=[], args=[ast.arg("_sx_t")], kwonlyargs=[],
                                kw_defaults=[], defaults=[])
            return ast.Lambda(one, ast.Call(f, [ast.Starred(
                ast.Name("_sx_t", ast.Load()), ast.Load())], []))

        item = fn(item)
        if not g.ifs:
            cond = const(None)
        else:
            cond = fn(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs))
        return [self._iterated(g.iter), cond, item]

    def visit_GeneratorExp(self, node):
        parts = self._comp(node, node.elt)
        if parts is not None:
            return ast.copy_location(call("_sx_genexp", *parts), node)
        return self.generic_visit(node)

    def visit_DictComp(self, node):
        parts = self._comp(node, ast.Tuple([node.key, node.value], ast.Load()))
        if parts is not None:
            return ast.copy_location(call("_sx_dictcomp", *parts), node)
        pair = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        gens = [self.visit(g) for g in node.generators]
        return ast.copy_location(call("_sx_dict", ast.ListComp(pair, gens)), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(call("_sx_list", node), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(call("_sx_list", node), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(call("_sx_set", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            call("_sx_set", ast.ListComp(node.elt, node.generators)), node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "__dict__" and isinstance(node.ctx, ast.Load):
            return ast.copy_location(call("_sx_objdict", node.value), node)
        if isinstance(node.ctx, ast.Load) and (
                node.attr in STR_METHODS or node.attr in ("__eq__", "__ne__", "__contains__")):
            # a bound method that is not called here
            return ast.copy_location(call("_sx_bound", node.value, const(node.attr)), node)
        return node

    def visit_Call(self, node):
        f = node.func
        fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if fname in NO_REWRITE_CALLS:
            return node
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS:
            node.func = ast.copy_location(call("_sx_m", self.visit(f.value), const(f.attr)), f)
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
        else:
            self.generic_visit(node)
        if any(k.arg is None for k in node.keywords):
            kws = [
                ast.Tuple([const(k.arg) if k.arg is not None else ast.Name("_sx_star", ast.Load()),
                           k.value], ast.Load())
                for k in node.keywords
            ]
            return ast.copy_location(
                call("_sx_call", node.func, ast.Tuple(node.args, ast.Load()),
                     ast.List(kws, ast.Load())), node)
        return node


def rewrite(source, filename, module):
    tree = ast.parse(source, filename)
    # literal method receivers such as ",".join are covered by STR_METHODS
    tree = Rewriter(module).visit(KeyTry().visit(tree))
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
