"""Loads the current source of /repo's package through the rewriter."""
import builtins
import os
import sys
import types

from . import core, env, shims
from .core import Unsupported
from .rewrite import rewrite

REPO = os.environ.get("VSX_REPO", "/repo")
ROOT = "pytiled_parser"

_code = {}  # module name -> (code, is_pkg, file)
_mods = {}
_stubs = None
_builtins = None


def source_path(name):
    p = os.path.join(REPO, *name.split("."))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.exists(p + ".py"):
        return p + ".py", False
    return None, False


def get_code(name):
    if name not in _code:
        f, pkg = source_path(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        _code[name] = (rewrite(src, f, name), pkg, f)
    return _code[name]


def load(name):
    if name in _mods:
        return _mods[name]
    if "." in name:
        load(name.rsplit(".", 1)[0])
        if name in _mods:
            return _mods[name]
    code, pkg, f = get_code(name)
    m = types.ModuleType(name)
    m.__file__ = f
    m.__builtins__ = _builtins
    m.__package__ = name if pkg else name.rpartition(".")[0]
    if pkg:
        m.__path__ = [os.path.dirname(f)]
    _mods[name] = m
    sys.modules[name] = m
    try:
        exec(code, m.__dict__)
    except BaseException:
        _mods.pop(name, None)
        sys.modules.pop(name, None)
        raise
    if "." in name:
        parent, leaf = name.rsplit(".", 1)
        setattr(_mods[parent], leaf, m)
    for v in list(m.__dict__.values()):
        if isinstance(v, type) and v.__module__ == name:
            instrument(v)
    return m


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = (globals or {}).get("__package__") or ""
        base = pkg.split(".")
        base = base[: len(base) - (level - 1)]
        name = ".".join(base + ([name] if name else []))
    if name == ROOT or name.startswith(ROOT + "."):
        m = load(name)
        if not fromlist:
            return load(name.split(".")[0])
        for n in fromlist:
            if n != "*" and not hasattr(m, n) and hasattr(m, "__path__"):
                if source_path(name + "." + n)[0]:
                    load(name + "." + n)
        return m
    if name in ("zstd",) and not core.E.zstd:
        raise ModuleNotFoundError("No module named 'zstd'", name="zstd")
    if name in _stubs:
        if fromlist:
            return _stubs[name]
        return _stubs[name.split(".")[0]]
    return builtins.__import__(name, globals, locals, fromlist, 0)


# ------------------------------------------------- guarded object attributes
def instrument(cls):
    if issubclass(cls, (tuple, BaseException)) or not _plain(cls):
        return
    if "__init__" in cls.__dict__:
        orig = cls.__dict__["__init__"]
        if isinstance(orig, types.FunctionType):
            import functools

            @functools.wraps(orig)
            def __init__(self, *a, **k):
                e = core.E
                if id(self) not in e.births:
                    e.births[id(self)] = e.tokens()
                    e.keep.append(self)
                orig(self, *a, **k)

            cls.__init__ = __init__
    if "__setattr__" not in cls.__dict__:
        cls.__setattr__ = _setattr
    if "__delattr__" not in cls.__dict__:
        cls.__delattr__ = _delattr


def _plain(cls):
    import enum

    if issubclass(cls, enum.Enum) or getattr(cls, "_is_protocol", False):
        return False
    return all(b is object or b.__module__.startswith(ROOT) for b in cls.__mro__)


def _setattr(self, name, value):
    e = core.E
    if e.guards:
        g = e.relative_guard(e.births.get(id(self), ()))
        if g is not None:
            try:
                old = object.__getattribute__(self, name)
            except AttributeError:
                e.abort_merge("attribute created under a guard")
            value = core.merge(g, value, old)
    object.__setattr__(self, name, value)


def _delattr(self, name):
    e = core.E
    if e.guards and e.relative_guard(e.births.get(id(self), ())) is not None:
        e.abort_merge("attribute deleted under a guard")
    object.__delattr__(self, name)


def fresh():
    """(Re)load every module: import-time state starts anew."""
    global _stubs, _builtins
    for n in list(sys.modules):
        if n == ROOT or n.startswith(ROOT + "."):
            del sys.modules[n]
    _mods.clear()
    core.E.importing = True
    try:
        if _stubs is None:
            _stubs = env.make_modules()
            _builtins = shims.make_builtins(env.v_open, import_)
        api = load(ROOT)
    finally:
        core.E.importing = False
    return api
