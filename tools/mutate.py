"""Systematic small changes to pytiled_parser, to look for blind spots of the checks.

    python3 tools/mutate.py list OUT.jsonl     every change that still passes the tests
    python3 tools/mutate.py run OUT.jsonl RES.jsonl [start [stop]]
                                               the checks on each of them

Works on copies under /tmp; not used by any check.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
PY = "/opt/venv/bin/python"
PKG = "pytiled_parser"
RELATED = [
    ("wang_set", "C12 C04"), ("properties", "C05 C19"), ("layer.py", "C06 C02 C03 C01 C07 C21 C05"),
    ("tiled_object", "C08 C09 C05 C15 C16 C17 C21"), ("tileset", "C10 C11 C14 C12 C05"),
    ("tiled_map", "C13 C23 C14 C16 C07 C15 C17 C05 C19 C21"), ("util.py", "C04 C23 C17 C16 C15 C21 C20"),
    ("world", "C18 C23"), ("parser.py", "C17 C23 C13 C14 C20"),
]
ALL = "C13 C06 C08 C10 C12 C09 C11 C07 C05 C02 C03 C14 C18 C01 C15 C16 C04 C21 C17 C23".split()
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"],
       ast.GtE: [">"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}


def src(text, n):
    return ast.get_source_segment(text, n)


def mutants(text):
    """(node, replacement, what)"""
    tree = ast.parse(text)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        if isinstance(n, (ast.AnnAssign,)):
            doc.update(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args:
                if a.annotation:
                    doc.update(ast.walk(a.annotation))
            if n.returns:
                doc.update(ast.walk(n.returns))
        if isinstance(n, ast.Call) and src(text, n.func) in ("cast", "TypeVar"):
            doc.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = src(text, n.left), src(text, n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                yield n, "(%s %s %s)" % (l, o, r), "compare"
            if isinstance(n.ops[0], ast.IsNot):
                yield n, "(%s)" % l, "truthy"
            if isinstance(n.ops[0], ast.Is):
                yield n, "(not %s)" % l, "falsy"
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield n, repr(not v), "const"
            elif isinstance(v, int):
                yield n, "(%d)" % (v + 1), "const"
                yield n, "(%d)" % (v - 1), "const"
            elif isinstance(v, float):
                yield n, "(%r)" % (v + 1), "const"
            elif isinstance(v, str):
                yield n, repr(v + "_") if v else "'_'", "const"
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + o.join("(%s)" % src(text, v) for v in n.values) + ")", "boolop"
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o = " and " if isinstance(n.op, ast.And) else " or "
                yield n, "(" + o.join("(%s)" % src(text, v) for v in rest) + ")", "boolop"
        elif isinstance(n, ast.BinOp):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.LShift: ">>", ast.Mod: "//",
                   ast.FloorDiv: "%", ast.BitAnd: "|", ast.BitOr: "&"}
            if type(n.op) in ops:
                yield n, "(%s %s %s)" % (src(text, n.left), ops[type(n.op)], src(text, n.right)), "binop"
                yield n, "(%s)" % src(text, n.left), "binop"
                yield n, "(%s)" % src(text, n.right), "binop"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, "(%s)" % src(text, n.operand), "not"
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.test, "True", "test"
            yield n.test, "False", "test"
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Delete)):
            yield n, "pass", "drop"
            if isinstance(n, ast.AugAssign):
                yield n, "%s = %s" % (src(text, n.target), src(text, n.value)), "assign"
        elif isinstance(n, (ast.Continue, ast.Break)):
            yield n, "break" if isinstance(n, ast.Continue) else "continue", "loop"
            yield n, "pass", "loop"
        elif isinstance(n, ast.Call):
            f = src(text, n.func)
            if len(n.args) == 1 and not n.keywords:
                a = src(text, n.args[0])
                yield n, "(%s)" % a, "uncall"
                if f == "float":
                    yield n, "float(int(float(%s)))" % a, "narrow"
            if isinstance(n.func, ast.Attribute):
                yield n, "(%s)" % src(text, n.func.value), "unmethod"
                if n.func.attr == "append":
                    yield n, "%s.insert(0, %s)" % (src(text, n.func.value), src(text, n.args[0])), "order"
                if n.func.attr == "get" and len(n.args) == 2:
                    yield n, "%s.get(%s)" % (src(text, n.func.value), src(text, n.args[0])), "default"
            for i, k in enumerate(n.keywords):
                if k.arg:
                    yield k.value, "None", "kwarg"
        elif isinstance(n, ast.For):
            yield n.iter, "list(%s)[1:]" % src(text, n.iter), "for"
            yield n.iter, "list(%s)[:-1]" % src(text, n.iter), "for"
            yield n.iter, "list(%s)[::-1]" % src(text, n.iter), "for"
            yield n.iter, "list(%s)[:3]" % src(text, n.iter), "for"
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield n, "(%s)" % src(text, n.value), "slice"


WRAPS = ("abs(%s)", "round(%s)", "(%s).strip()", "(%s).lower()", "(%s).rstrip()", "(%s).split(',')[0]",
         "sorted(%s)", "list(%s)[:6]", "list(dict.fromkeys(%s))", "list(filter(None, %s))", "min(%s, 32767)",
         "max(%s, 0)", "(%s).casefold()", "(%s).expandtabs()", "' '.join((%s).split())", "(%s)[:255]",
         "(%s).resolve()", "(%s).absolute()", "dict(list((%s).items())[:8])", "(%s).replace('\\\\', '/')",
         "(%s).replace('_', ' ')", "int(%s)", "float(int(%s))", "type(%s)(str(%s))", "(%s or None)",
         "(%s).encode('ascii', 'ignore').decode()", "(%s).title()", "(%s).replace('..', '.')")


def wraps(text):
    """Values bent in ways ordinary data does not show."""
    for n in ast.walk(ast.parse(text)):
        vs = []
        if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None:
            vs = [n.value]
        elif isinstance(n, ast.Call):
            vs = [k.value for k in n.keywords if k.arg] + list(n.args)[:2]
        elif isinstance(n, ast.For):
            vs = [n.iter]
        for v in vs:
            if isinstance(v, (ast.Constant, ast.List, ast.Dict, ast.ListComp)):
                continue
            t = src(text, v)
            if t is None or len(t) > 120:
                continue
            for w in WRAPS:
                yield v, w.replace("%s", t), "wrap"


def offsets(text):
    o, out = 0, []
    for line in text.splitlines(True):
        out.append(o)
        o += len(line.encode())
    return out


def apply(text, n, new):
    b = text.encode()
    off = offsets(text)
    i, j = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    if "\n" in new and isinstance(n, ast.expr):
        new = "(%s)" % new
    return (b[:i] + new.encode() + b[j:]).decode()


def copy(i):
    d = "/tmp/mut/%s" % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git", "docs"))
    return d


def tests(d):
    p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d,
                       env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True,
                       timeout=60)
    last = (p.stdout.strip().split("\n") or [""])[-1]
    return p.returncode == 0 or ("122 passed" in last and "failed" not in last and "error" not in last), last


def all_mutants():
    out = []
    for root, _, fs in sorted(os.walk(os.path.join(REPO, PKG))):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                text = open(p, newline="").read()
                rel = os.path.relpath(p, REPO)
                seen = {text}
                for n, new, what in (wraps if os.environ.get("WRAP") else mutants)(text):
                    try:
                        t = apply(text, n, new)
                        compile(t, p, "exec")
                    except (SyntaxError, TypeError, ValueError):
                        continue
                    if t in seen:
                        continue
                    seen.add(t)
                    out.append(dict(file=rel, line=n.lineno, what=what, old=src(text, n), new=new, text=t))
    return out


def cmd_list(out):
    ms = all_mutants()
    if os.environ.get("SAMPLE"):
        import random
        ms = random.Random(int(os.environ.get("VERIF_SEED", 1))).sample(ms, min(len(ms), int(os.environ["SAMPLE"])))
    print(len(ms), "changes")
    import queue
    dirs = queue.Queue()
    for i in range(8):
        dirs.put(copy("t%d" % i))

    def one(m):
        d = dirs.get()
        p = os.path.join(d, m["file"])
        keep = open(os.path.join(REPO, m["file"]), newline="").read()
        try:
            open(p, "w", newline="").write(m["text"])
            try:
                return tests(d)[0]
            except subprocess.TimeoutExpired:
                return False
        finally:
            open(p, "w", newline="").write(keep)
            dirs.put(d)

    with ThreadPoolExecutor(8) as ex, open(out, "w") as f:
        n = 0
        for m, ok in zip(ms, ex.map(one, ms)):
            if ok:
                n += 1
                f.write(json.dumps(m) + "\n")
    print(n, "pass the tests")


def cmd_run(lst, res, start=0, stop=10 ** 9):
    ms = [json.loads(x) for x in open(lst)]
    d = copy("run%s" % os.getpid())
    for k, m in enumerate(ms):
        if not int(start) <= k < int(stop):
            continue
        p = os.path.join(d, m["file"])
        keep = open(os.path.join(REPO, m["file"]), newline="").read()
        open(p, "w", newline="").write(m["text"])
        only = os.environ.get("ONLY")
        props = only.split() if only else next((v.split() for key, v in RELATED if key in m["file"].split("/")[-1]), ALL)
        got, inc = None, []
        try:
            for pr in props:
                if pr in os.environ.get("SKIP", "").split():
                    continue
                r = subprocess.run(["python3-vt", "run.py", "--property", pr, "--tier", "quick"],
                                   cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                   env=dict(os.environ, VSX_REPO=d, VERIF_SEED="1", VSX_FIRST="1"), capture_output=True, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    got = pr
                    break
                if r.returncode:
                    inc.append("%s rc %s" % (pr, r.returncode))
                if "0 inconclusive" not in r.stdout:
                    inc.append(pr)
        finally:
            open(p, "w", newline="").write(keep)
        m = {x: m[x] for x in ("file", "line", "what", "old", "new")}
        m.update(k=k, caught=got, inconclusive=inc)
        with open(res, "a") as f:
            f.write(json.dumps(m) + "\n")
    shutil.rmtree(d)


if __name__ == "__main__":
    {"list": cmd_list, "run": cmd_run}[sys.argv[1]](*sys.argv[2:])
