"""Running one case: explore, discharge obligations, replay on the real code."""
import base64
import io
import collections
import json
import os
import random
import subprocess
import sys
import time
import traceback

import z3

from . import core, env, load, purity, spec
from .core import conj, neg, Infeasible, Restart, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
REAL_PY = os.environ.get("VSX_PYTHON", "/opt/venv/bin/python")
VROOT = "vfs"


class Scenario:
    """Files, calls and what must come out."""

    def __init__(self):
        self.files = []  # (absolute segments, rope)
        self.dirs = []
        self.ops = []  # (function name, VPath)
        self.checks = []  # ("result", i, exp) | ("same", i, j, skip) | ("pure", what)
        self.cwd = (VROOT,)
        self.zstd = False
        self.utf8 = True

    def file(self, segs, content):
        self.files.append(([VROOT] + list(segs), content))
        return env.VPath._make(True, [VROOT] + list(segs))

    def op(self, fn, path):
        self.ops.append((fn, path))
        return len(self.ops) - 1

    def rewrite(self, segs, content):
        """Between calls: the file holds something else."""
        return self.op("!file", ([VROOT] + list(segs), content))

    def expect(self, i, x):
        self.checks.append(("result", i, x))

    def call(self, fn, path, x):
        self.expect(self.op(fn, path), x)


Outcome = collections.namedtuple("Outcome", "kind value names snap", defaults=(None,))


def outcome_cmp(o, e, path, out, g=True):
    if g is False:
        return
    if type(e) is spec.Alt:
        for ge, x in e.alts:
            outcome_cmp(o, x, path, out, spec._and(g, ge))
        return

    def fact(p):
        out.append((p, False if g is True else z3.Not(g)))

    if type(e) is spec.Raises:
        if o.kind != "exc":
            fact("%s: returned a value where it must refuse (%s)" % (path, e))
        elif e.names and not set(e.names) & set(o.names):
            fact("%s: raised %s, must raise %s" % (path, o.names[0], "/".join(e.names)))
        return
    if o.kind == "exc":
        fact("%s: raised %s(%s)" % (path, o.names[0], o.value))
        return
    spec.cmp(o.value, e, path, out, g)


def obligations(checks, outs, pure):
    res = []
    for c in checks:
        if c[0] == "result":
            outcome_cmp(outs[c[1]], c[2], "call%d" % c[1] if len(outs) > 1 else "result", res)
        elif c[0] == "same":
            a, b = outs[c[1]], outs[c[2]]
            if a.kind != b.kind:
                res.append(("one call raised %s, the other did not" %
                            (a.names or b.names)[0], False))
            elif a.kind == "ok":
                spec.cmp(a.value, b.snap or spec.same_x(b.value, c[3]), "result", res)
        elif c[0] == "pure":
            res.extend(pure(c[1], outs))
        else:
            raise KeyError(c[0])
    return res


def conc_checks(checks, m):
    out = []
    for c in checks:
        if c[0] == "result":
            out.append(("result", c[1], spec.conc(c[2], m)))
        else:
            out.append(c)
    return out


# ------------------------------------------------------------- symbolic runs
def install(sc):
    vfs = env.VFS()
    for segs, content in sc.files:
        vfs.add(segs, content)
    for d in sc.dirs:
        vfs.mkdir([VROOT] + list(d))
    e = core.E
    e.vfs, e.cwd, e.zstd, e.utf8 = vfs, sc.cwd, sc.zstd, sc.utf8


def execute(build):
    """One symbolic run: build the scenario, load the code, make the calls."""
    core.E.zstd = False
    sc = Scenario()
    build(spec.Gen(), sc)
    install(sc)
    api = load.fresh()
    core.E.events = []
    saved = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = Printed()
    try:
        return sc, calls(sc, api)
    finally:
        sys.stdout, sys.stderr = saved


class Printed(io.StringIO):
    """Stands in for the standard streams while the code runs."""

    def write(self, s):
        core.E.event("printing")
        return len(s) if isinstance(s, str) else 0


def calls(sc, api):
    outs = []
    for fn, path in sc.ops:
        if fn == "!spoil":
            # keep what the results were, then change everything in them
            outs = [o._replace(snap=spec.same_x(o.value, ())) if o.kind == "ok" else o for o in outs]
            purity.spoil([o.value for o in outs if o.kind == "ok"])
            outs.append(Outcome("ok", None, ()))
            continue
        if fn == "!file":
            core.E.vfs.replace(*path)
            outs.append(Outcome("ok", None, ()))
            continue
        if fn == "!cd":
            core.E.cwd = tuple(path)
            outs.append(Outcome("ok", None, ()))
            continue
        try:
            v = getattr(api, fn)(path)
            outs.append(Outcome("ok", v, ()))
        except (Restart, Infeasible, Unsupported):
            raise
        except RecursionError:
            raise Unsupported("recursion limit")
        except Exception as ex:
            if os.environ.get("VSX_TRACE"):
                traceback.print_exc(file=sys.__stderr__)
            outs.append(Outcome("exc", message(ex), tuple(c.__name__ for c in type(ex).__mro__)))
    return outs


def message(ex):
    try:
        return str(ex)[:200]
    except Unsupported:
        return "?"


def pure_symbolic(what, outs):
    return purity.symbolic(what, outs)


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = self.queries = self.restarts = self.merges = self.branches = 0
        self.obligations = self.discharged = 0
        self.solver_time = self.wall = 0.0
        self.replays = self.samples = 0
        self.compared = self.identical = 0
        self.violations = []  # dicts
        self.notes = []  # reasons this case is inconclusive
        self.entered = set()
        self.sample_inputs = []
        self.complete = False
        self.mode = "merged"


def run_case(case, max_candidates=2, sample_cap=12):
    """case: (name, build, options).  Returns Result."""
    name, build, opt = case
    r = Result(name)
    t0 = time.time()
    limit = opt.get("time", 120)
    _explore(r, build, opt, True, max_candidates, sample_cap, t0 + limit)
    if r.notes and not r.violations:
        first = list(r.notes)
        r.notes = []
        r.mode = "forked"
        _explore(r, build, opt, False, max_candidates, sample_cap, time.time() + limit)
        if r.notes and not r.violations:
            r.mode = "degraded"
            r.notes = ["merged: " + n for n in first] + ["forked: " + n for n in r.notes]
            _degraded(r, build, opt)
    r.wall = time.time() - t0
    return r


def _explore(r, build, opt, merging, max_candidates, sample_cap, deadline):
    e = core.Engine(opt.get("timeout_ms", 20000))
    e.merging_enabled = merging
    core.set_engine(e)
    cands, samples, extra, unsup = [], [], [], []
    rnd = random.Random("%s %s" % (os.environ.get("VERIF_SEED", "1"), r.name))

    def run():
        try:
            return execute(build)
        except Unsupported as ex:
            unsup.append(_why(ex))
            return None

    def on_path(out):
        if out is None:
            return "stop" if len(unsup) > 5 else None
        sc, outs = out
        if e.cuts:
            pass
        spec.COUNT[:] = [0, 0]
        obs = obligations(sc.checks, outs, pure_symbolic)
        r.compared += spec.COUNT[0]
        r.identical += spec.COUNT[1]
        r.obligations += max(1, len(obs))
        c = conj([x for _, x in obs])
        bad = None
        if c is False:
            bad = e.check()
        elif c is not True:
            bad = e.check(neg(c))
        if bad == z3.unknown:
            unsup.append("solver: unknown")
            return None
        if bad == z3.sat:
            m = e.solver.model()
            which = [p for p, x in obs if not spec.holds(m, x)]
            cands.append((job_of(sc, m), conc_checks(sc.checks, m), which))
            if len(cands) >= max_candidates:
                return "stop"
            return None
        r.discharged += max(1, len(obs))
        n = e.n_paths
        if len(samples) < sample_cap or rnd.random() < sample_cap / n:
            if e.check() == z3.sat:
                m = e.solver.model()
                s = (job_of(sc, m), conc_checks(sc.checks, m), [])
                if len(samples) < sample_cap:
                    samples.append(s)
                else:
                    samples[rnd.randrange(sample_cap)] = s
                if n <= 3:
                    for m in diverse(e, sc, rnd, MORE[0]):
                        extra.append((job_of(sc, m), conc_checks(sc.checks, m), []))

    try:
        done = e.explore(run, on_path, budget=opt.get("paths", 20000), deadline=deadline)
    except Exception as ex:  # the engine itself failed
        done = False
        unsup.append("engine: %s" % "".join(traceback.format_exception_only(type(ex), ex)).strip())
        if os.environ.get("VSX_TRACE"):
            traceback.print_exc()
    r.complete = done
    r.paths += e.n_paths
    r.queries += e.n_queries
    r.restarts += e.n_restarts
    r.merges += e.n_merges
    r.branches += e.n_branches
    r.solver_time += e.solver_time
    r.entered |= e.entered
    r.notes.extend(sorted(set(unsup)))
    r.notes.extend(e.cuts)
    if not done and not cands and not r.notes:
        r.notes.append("not all paths explored")
    if done and not samples and not cands and not r.notes:
        r.notes.append("vacuous: no input satisfies the case")
    if cands or samples:
        replay(r, cands, samples + extra[:3 * sample_cap])


def replay(r, cands, samples):
    """Run counterexamples and samples on the real code."""
    try:
        outs = real([j for j, _, _ in cands + samples])
    except Exception as ex:
        r.notes.append("replay failed: %s" % ex)
        return
    for k, ((job, checks, which), got) in enumerate(zip(cands + samples, outs)):
        r.replays += 1
        diffs = real_diffs(checks, got)
        if k < len(cands):
            if diffs:
                r.violations.append(dict(case=r.name, job=job, diffs=diffs, claimed=which,
                                         checks=repr_checks(checks), got=got))
            else:
                r.notes.append("counterexample not reproduced: %s" % "; ".join(which[:3]))
        else:
            r.samples += 1
            if len(r.sample_inputs) < 2:
                r.sample_inputs.append(brief(job))
            if diffs:
                r.violations.append(dict(case=r.name, job=job, diffs=diffs, claimed=["(sample)"],
                                         checks=repr_checks(checks), got=got))


def brief(job):
    return {"files": {k: base64.b64decode(v).decode("utf-8", "replace")[:600]
                      for k, v in job["files"].items()}, "ops": job["ops"]}


ODD = [0, 1, 2, 3, 5, -1, -3, 7, 8, 12, 64, 100, 255, 256, 1000, 65536, 2 ** 24, 2 ** 31, 2 ** 31 + 1,
       2 ** 30 + 5, 3 * 2 ** 30 + 3, 7 * 2 ** 29 + 9, 2 ** 32 - 1, 10 ** 9]
ODD_TEXT = ["", " ", "0", "1", "é", "a b", " x ", "true", "#", "A", "Zz", "-1", "1.0", "\xff", "/", "None", "a\xbfb", "x,y",
            "\n", "a\nb", "%", "{}", "\\", "'", '"', "&<>",
            # what a helper of the standard library might take for something else
            "~", "~/", "$HOME", "%41", "a+b", "&lt;", "&#65;", "\\n", "a\\b", "%s", "{0}", "#x", "x:y", "?a", "*", "[a]",
            "\t", "a\tb", "\r\n", "b\r\n", "a\n", "\ta", " \n a", "a  b", "\xc0\xdf", "\xb5\xbd", "e", "-0", "1e3",
            "1_0", "0x1", "inf", "nan", "True", "false", "null", "[]", "A b", "#12ab34", "#80ff00fe", "12AB34", "&#x41;&amp;", "http://x/y", "a/b/../c", "C:\\a",
            "a.b.c", "[1, 2, 3]", '{"a": 1}', "<b>a</b>", "2020-01-31", "a" * 12, "12:30", "ab-cd_ef gh", "../../a", "123456789012",
            "1234.5000", "\xad", "\u0085"]
# characters that normalising, folding or re-encoding would change
ODD_CHAR = [0x2126, 0xfb01, 0x301, 0x130, 0x131, 0xdf, 0x1e9e, 0xff21, 0x200b, 0x200d, 0xfeff, 0x1f600, 0x3a3,
            0x3c2, 0xac00, 0xe9, 0x20ac, 0x152, 0x2d, 0x2260, 0x958, 0xe000]
MORE = [2]  # further inputs tried on the real code, per path


def diverse(e, sc, rnd, count):
    """Models of the path unlike the solver's first choice."""
    names = {}
    for a in list(e.pc):
        _consts(a, names)
    for d in _scenario_bools(sc):
        names[d.get_id()] = d
    s = e.solver
    deadline = time.time() + (20 if count > 10 else 5)
    for k in range(count):
        s.push()
        try:
            todo = list(names.values())
            rnd.shuffle(todo)
            for v in todo[:80]:
                if time.time() > deadline:
                    return
                if z3.is_bool(v):
                    lit = v if rnd.random() < 0.5 else z3.Not(v)
                elif z3.is_int(v):
                    if rnd.random() < 0.5:
                        continue
                    if v.decl().name().endswith("+") and rnd.random() < 0.8:
                        lit = v == rnd.choice(ODD_CHAR)
                        if s.check(lit) == z3.sat:
                            s.add(lit)
                        continue
                    lit = v == (rnd.choice(ODD) if rnd.random() < 0.7 else rnd.randrange(-40, 200))
                elif z3.is_string(v):
                    lit = v == z3.StringVal(rnd.choice(ODD_TEXT))
                else:
                    continue
                if s.check(lit) == z3.sat:
                    s.add(lit)
            if s.check() == z3.sat:
                yield s.model()
        finally:
            s.pop()


def _degraded(r, build, opt):
    """The code could not be executed symbolically: replay solver-chosen inputs."""
    rnd = random.Random("%s %s" % (os.environ.get("VERIF_SEED", "1"), r.name))
    e = core.Engine()
    core.set_engine(e)
    jobs = []
    try:
        e.reset([])
        e.pending = []
        sc = Scenario()
        build(spec.Gen(), sc)
        for m in diverse(e, sc, rnd, opt.get("degraded", 60)):
            jobs.append((job_of(sc, m), conc_checks(sc.checks, m), []))
    except (Unsupported, Infeasible, Restart) as ex:
        r.notes.append("degraded: %s" % ex)
    if jobs:
        replay(r, [], jobs)


def _consts(e, out):
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        todo.extend(x.children())


def _scenario_bools(sc):
    out = {}
    for _, content in sc.files:
        for p in spec.parts_of(content):
            if isinstance(p, spec.DocTxt) and p.doc.tree is not None:
                _tree_consts(p.doc.tree, out)
    return list(out.values())


def _tree_consts(t, out):
    if type(t) in (spec.SDict,):
        for k, v, p in t.ents:
            if not isinstance(p, bool):
                _consts(p, out)
            _tree_consts(v, out)
    elif type(t) is env.SElement:
        _tree_consts(t.attrib, out)
        for k, p in t.kids:
            if not isinstance(p, bool):
                _consts(p, out)
            _tree_consts(k, out)
    elif isinstance(t, list) and not isinstance(t, core.Sym):
        for x in t:
            _tree_consts(x, out)
    elif type(t) is core.SymBool:
        _consts(t.e, out)


def _why(ex):
    tb = ex.__traceback__
    where = ""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(load.REPO):
            where = " at %s:%d" % (os.path.relpath(fr.filename, load.REPO), fr.lineno)
    return "%s%s" % (ex, where)


# ------------------------------------------------------------------ real code
def job_of(sc, m):
    files = {}
    for segs, content in sc.files:
        p = "/".join(spec.conc(s, m) for s in segs)
        files[p] = base64.b64encode(spec.render(content, m)).decode()
    ops = []
    for fn, path in sc.ops:
        if fn == "!file":
            segs, content = path
            ops.append([fn, ["/".join(spec.conc(s, m) for s in segs),
                             base64.b64encode(spec.render(content, m)).decode()]])
        elif fn == "!cd":
            ops.append([fn, "/".join(path)])
        else:
            ops.append([fn, None if path is None else str(spec.conc(path, m))])
    same_length(files, ops)
    pure = [c[1] for c in sc.checks if c[0] == "pure"]
    return dict(files=files, dirs=["/".join([VROOT] + [spec.conc(s, m) for s in d]) for d in sc.dirs], ops=ops,
                cwd="/".join(sc.cwd), pure=pure, zstd=sc.zstd,
                utf8=spec.holds(m, sc.utf8))


def same_length(files, ops):
    """A file that is replaced keeps its length: blanks at the end fill up."""
    new = {}
    for op in ops:
        if op[0] == "!file":
            new.setdefault(op[1][0], []).append(op[1])
    for p, many in new.items():
        old = [files[p]] if p in files else []
        raw = [base64.b64decode(x) for x in old + [w[1] for w in many]]
        n = max(map(len, raw))
        raw = [base64.b64encode(x.ljust(n)).decode() for x in raw]
        if old:
            files[p] = raw.pop(0)
        for w, x in zip(many, raw):
            w[1] = x


def setting(job):
    return bool(job["zstd"]), job.get("utf8", True)


def real(jobs):
    kinds = {setting(j) for j in jobs}
    if len(kinds) > 1:
        outs = {}
        for z in kinds:
            ix = [i for i, j in enumerate(jobs) if setting(j) == z]
            outs.update(zip(ix, real([jobs[i] for i in ix])))
        return [outs[i] for i in range(len(jobs))]
    envv = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VSX_REPO=load.REPO,
                VSX_ZSTD="1" if jobs and jobs[0]["zstd"] else "", PYTHONUTF8="1")
    if jobs and not jobs[0].get("utf8", True):
        envv.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C")
    p = subprocess.run([REAL_PY, os.path.join(HERE, "real_worker.py")],
                       input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300, env=envv)
    if p.returncode:
        raise RuntimeError(p.stderr.decode()[-500:])
    return json.loads(p.stdout)


_classes = {}


def undump(d):
    if isinstance(d, dict):
        if "path" in d:
            s = d["path"]
            return env.VPath(s)
        if "num" in d:
            return float(d["num"])
        if "tuple" in d:
            items = [undump(x) for x in d["items"]]
            if d.get("fields"):
                key = (d["tuple"], tuple(d["fields"]))
                if key not in _classes:
                    _classes[key] = collections.namedtuple(*key)
                return _classes[key](*items)
            return tuple(items)
        if "map" in d:
            return {undump(k): undump(v) for k, v in d["map"]}
        if "obj" in d:
            if d["obj"] not in _classes:
                _classes[d["obj"]] = type(d["obj"], (), {})
            o = _classes[d["obj"]]()
            for k, v in d["fields"]:
                object.__setattr__(o, k, undump(v))
            return o
        if "bytes" in d:
            return base64.b64decode(d["bytes"])
        raise KeyError(d)
    if isinstance(d, list):
        return [undump(x) for x in d]
    return d


def real_diffs(checks, got):
    outs = []
    for o in got["outs"]:
        if o["kind"] == "ok":
            outs.append(Outcome("ok", undump(o["value"]), ()))
        else:
            outs.append(Outcome("exc", o["value"], tuple(o["names"])))
    obs = obligations(checks, outs, lambda what, _: [(p, False) for p in got["pure"].get(what, [])])
    return [p for p, c in obs if c is not True]


def repr_checks(checks):
    return [show(c) for c in checks]


def show(v):
    t = type(v)
    if t is tuple and v and v[0] in ("result", "same", "pure"):
        return [show(x) for x in v]
    if t is spec.Obj:
        return {"kind": v.cls, **{k: show(x) for k, x in v.f.items()}}
    if t is spec.Tup:
        return [v.cls] + [show(x) for x in v.items]
    if t is spec.ListX:
        return [show(x) for x in v.items]
    if t is spec.MapX:
        return {str(k): show(x) for k, x, _ in v.ents}
    if t is spec.Strict:
        return show(v.v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)
