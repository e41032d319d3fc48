"""Runs the real parser on concrete files (under the project's own interpreter)."""
import base64
import builtins
import io
import json
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VSX_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path = [p for p in sys.path if os.path.basename(p) != "vsx"]
if os.environ.get("VSX_ZSTD"):
    sys.path.insert(1, os.path.join(os.path.dirname(os.path.abspath(__file__)), "zstd_stub"))
REAL_STDOUT = sys.stdout
real_open = io.open
from pathlib import Path, PurePath


TIME = 1500000000


def dump(v, root, depth=0):
    if depth > 60:
        return "<deep>"
    if v is None or isinstance(v, (bool, str)) :
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return {"num": repr(v)}
        return v
    if isinstance(v, PurePath):
        return {"path": strip(str(v), root)}
    if isinstance(v, tuple):
        return {"tuple": type(v).__name__, "fields": list(getattr(v, "_fields", [])),
                "items": [dump(x, root, depth + 1) for x in v]}
    if isinstance(v, list):
        return [dump(x, root, depth + 1) for x in v]
    if isinstance(v, dict):
        return {"map": [[dump(k, root, depth + 1), dump(x, root, depth + 1)] for k, x in v.items()]}
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": base64.b64encode(bytes(v)).decode()}
    try:
        d = vars(v)
    except TypeError:
        return {"obj": type(v).__name__, "fields": []}
    return {"obj": type(v).__name__, "fields": [[k, dump(x, root, depth + 1)] for k, x in d.items()]}


def strip(s, root):
    return s[len(root):] if s.startswith(root + "/") else s


def run(job, api):
    root = os.path.realpath(tempfile.mkdtemp(prefix="vsx"))
    try:
        for d in job["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for name, data in job["files"].items():
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with io.open(p, "wb") as f:
                # absolute names inside the files move with the files
                f.write(base64.b64decode(data).replace(b"/vfs/", root.encode() + b"/vfs/"))
            os.utime(p, (TIME, TIME))
        before = listing(root)
        os.chdir(os.path.join(root, job["cwd"]))
        outs, values, watch = [], [], Watch()
        with watch:
            for fn, path in job["ops"]:
                if fn == "!spoil":
                    for o in outs:
                        if o["kind"] == "ok":
                            o["value"] = Done(dump(o["value"], root))
                    spoil(values)
                    values.append(None)
                    outs.append({"kind": "ok", "value": None})
                    continue
                if fn in ("!file", "!cd"):
                    if fn == "!cd":
                        os.chdir(os.path.join(root, path))
                    else:
                        with real_open(os.path.join(root, path[0]), "wb") as f:
                            f.write(base64.b64decode(path[1]).replace(
                                b"/vfs/", root.encode() + b"/vfs/"))
                        os.utime(os.path.join(root, path[0]), (TIME, TIME))
                        before = listing(root)
                    values.append(None)
                    outs.append({"kind": "ok", "value": None})
                    continue
                p = Path(root + path) if path.startswith("/") else Path(path)
                try:
                    v = getattr(api, fn)(p)
                    values.append(v)
                    outs.append({"kind": "ok", "value": v})
                except Exception as ex:
                    values.append(None)
                    outs.append({"kind": "exc", "value": str(ex)[:200],
                                 "names": [c.__name__ for c in type(ex).__mro__]})
        pure = {}
        for what in job["pure"]:
            bad = []
            if what == "quiet":
                if watch.text:
                    bad.append("printed %r" % watch.text[:80])
                if watch.left():
                    bad.append("left open: %s" % [strip(str(x), root) for x in watch.left()])
                if listing(root) != before:
                    bad.append("changed the files")
            elif what == "unshared":
                bad.extend(shared(values))
            elif what == "stable":
                pass
            pure[what] = bad
        for o in outs:
            if o["kind"] == "ok":
                v = o["value"]
                o["value"] = v.value if isinstance(v, Done) else dump(v, root)
        return {"outs": outs, "pure": pure}
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


class Done:
    def __init__(self, value):
        self.value = value


def spoil(values):
    """Change every list, mapping and object of the results."""
    found = {}
    for v in values:
        reach(v, "", found)
    for occ in found.values():
        v = occ[0][0]
        if isinstance(v, (list, dict, set)):
            v.clear()
        else:
            for k in list(getattr(v, "__dict__", {})):
                try:
                    setattr(v, k, "spoiled")
                except Exception:
                    pass


def listing(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with real_open(p, "rb") as fh:
                out.append((p, fh.read()))
        out.append((d, None))
    return sorted(out, key=lambda x: (x[0], x[1] is None))


class Watch:
    """Output printed and files opened during the calls."""

    def __enter__(self):
        self.files = []
        self.out = io.StringIO()
        self.saved = (builtins.open, io.open, sys.stdout, sys.stderr)
        real = io.open

        def opener(*a, **k):
            f = real(*a, **k)
            self.files.append(f)
            return f

        builtins.open = io.open = opener
        sys.stdout = self.out
        self.err = sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        builtins.open, io.open, sys.stdout, sys.stderr = self.saved
        self.text = self.out.getvalue() + self.err.getvalue()

    def left(self):
        return [f.name for f in self.files if not f.closed]


def reach(v, path, out, depth=0):
    """(id, object, path) of every mutable object reachable."""
    if v is None or isinstance(v, (bool, int, float, str, bytes, PurePath)) or depth > 60:
        return
    if isinstance(v, tuple):
        for i, x in enumerate(v):
            reach(x, "%s[%d]" % (path, i), out, depth + 1)
        return
    first = id(v) not in out
    out.setdefault(id(v), []).append((v, path))
    if not first:
        return
    if isinstance(v, list):
        for i, x in enumerate(v):
            reach(x, "%s[%d]" % (path, i), out, depth + 1)
    elif isinstance(v, dict):
        for k, x in v.items():
            reach(x, "%s[%r]" % (path, k), out, depth + 1)
    elif hasattr(v, "__dict__"):
        for k, x in vars(v).items():
            reach(x, "%s.%s" % (path, k), out, depth + 1)


def shared(values):
    out = {}
    for i, v in enumerate(values):
        reach(v, "result%d" % i, out)
    bad = []
    for occ in out.values():
        if len(occ) > 1:
            bad.append("shared: %s and %s" % (occ[0][1], occ[1][1]))
    return bad[:5]


def main():
    import pytiled_parser as api

    if not os.path.realpath(api.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("wrong pytiled_parser: %s" % api.__file__)
    jobs = json.load(sys.stdin)
    res = [run(j, api) for j in jobs]
    json.dump(res, REAL_STDOUT)


main()
