"""Runs the cases of a property over all cores and writes the evidence."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import cases, load, prove

BUDGET = {"quick": 600, "thorough": 840}
ENOUGH = 40  # violating cases, after which no more are run
_cases = []


def work(i):
    name, build, opt = _cases[i]
    r = prove.Result(name)
    try:
        r = prove.run_case(_cases[i])
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        r.notes.append("engine: %s:%d: %s" % (os.path.basename(tb.filename), tb.lineno, "".join(
            traceback.format_exception_only(type(ex), ex)).strip()))
    return i, vars(r)


def known(here):
    """Findings on record: (property, text) that must appear in a violation's diff."""
    out = []
    p = os.path.join(here, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("finding: "):
                    d = json.loads(line[len("finding: "):])
                    out.append(d)
    return out


def main(a, here):
    t0 = time.time()
    prop = a.property
    if a.replay:
        return replay(a, here)
    _cases[:] = cases.of(prop, a.tier)
    if a.case:
        _cases[:] = [c for c in _cases if a.case in c[0]]
    prove.MORE[0] = 2 if a.tier == "quick" else 6
    names = [c[0] for c in _cases]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    n = a.jobs or min(8, os.cpu_count() or 1)
    deadline = t0 + BUDGET[a.tier]
    results, skipped, bad = [], 0, 0
    ctx = mp.get_context("fork")
    # long cases first would need their cost; the order given is good enough
    with ctx.Pool(n, maxtasksperchild=40) as pool:
        it = pool.imap_unordered(work, range(len(_cases)))
        while True:
            try:
                i, r = it.next(max(1, deadline - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                skipped = len(_cases) - len(results)
                pool.terminate()
                break
            results.append(r)
            bad += bool(r["violations"])
            if bad and (os.environ.get("VSX_FIRST") or bad >= ENOUGH):
                skipped = len(_cases) - len(results)
                pool.terminate()
                break
            if a.v:
                print("%-60s %5.1fs paths=%d q=%d ob=%d %s%s" % (
                    r["name"], r["wall"], r["paths"], r["queries"], r["obligations"], r["mode"],
                    " VIOLATION" if r["violations"] else " " + str(r["notes"]) if r["notes"] else ""))
                sys.stdout.flush()
    results.sort(key=lambda r: names.index(r["name"]))
    return report(a, here, results, skipped, time.time() - t0)


def report(a, here, results, skipped, wall):
    prop = a.property
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    rdir = os.path.join(here, "evidence", "replays")
    viol, findings = [], []
    kf = [k for k in known(here) if k["property"] == prop]
    for r in results:
        for v in r["violations"]:
            k = next((k for k in kf if all(any(k["match"] in d for _ in (0,)) for d in v["diffs"])), None)
            if k:
                findings.append(k)
            else:
                viol.append(v)
    for t in sorted({k["text"] for k in findings}):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    vrec = []
    for i, v in enumerate(viol[:20]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "case": v["case"], "differences": v["diffs"],
                       "job": v["job"], "input": prove.brief(v["job"]),
                       "expected": v["checks"], "got": v["got"]}, f, indent=1, default=str)
        vrec.append({"case": v["case"], "replay": path, "differences": v["diffs"][:5]})
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s: %s" % (v["case"], "; ".join(v["diffs"][:4])))
    notes = [{"case": r["name"], "mode": r["mode"], "notes": [n[:300] for n in r["notes"][:6]]}
             for r in results if r["notes"]]
    if skipped:
        notes.append({"case": "%d cases not reached (time given, or enough violations)" % skipped, "notes": []})
    S = lambda k: sum(r[k] for r in results)
    entered = sorted(set().union(*[r["entered"] for r in results])) if results else []
    cov = {
        "states": S("paths"), "transitions": S("branches") + S("merges"),
        "traces_validated_against_impl": S("replays"),
        "samples": [x for r in results for x in r["sample_inputs"]][:3],
        "cases": len(results), "cases_decided": sum(1 for r in results if not r["notes"]),
        "meaning": "states: symbolic paths; transitions: undecided branches taken on both sides, "
                   "forked or joined; traces: solver models replayed on the real code",
        "obligations": S("obligations"), "discharged": S("discharged"),
        "values_compared": S("compared"), "of_these_identical_terms": S("identical"),
        "solver_queries": S("queries"), "solver_seconds": round(S("solver_time"), 2),
        "functions_encoded": [str(e) for e in entered],
        "source": load.REPO,
        "bounds": bounds(prop, a.tier),
        "case_names": [r["name"] for r in results][:400],
        "inconclusive": notes,
    }
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": ASSUMPTIONS, "violations": vrec}
    if not a.case:
        with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries in %.1f s, "
          "%d real runs, %.1f s, %d functions; %d inconclusive" % (
              prop, a.tier, len(results), S("paths"), S("obligations"), S("discharged"),
              S("queries"), S("solver_time"), S("replays"), wall, len(entered), len(notes)))
    for nt in notes[:10]:
        print("  inconclusive: %s: %s" % (nt["case"], "; ".join(nt["notes"])[:400]))
    return 1 if viol else 0


ASSUMPTIONS = [
    "json.load, xml.etree, zlib/gzip and base64 behave as documented (modelled by their "
    "contracts: what is written is what is read back)",
    "numbers with a fraction are multiples of 1/8 within 2**20 (exact in binary floating point)",
]


def bounds(prop, tier):
    import importlib

    m = importlib.import_module("vsx.cases." + prop.lower())
    return (m.__doc__ or "").strip()


def replay(a, here):
    with open(a.replay) as f:
        d = json.load(f)
    print(json.dumps(d["input"], indent=1))
    print(json.dumps(prove.real([d["job"]]), indent=1, default=str)[:4000])
    print("expected:", json.dumps(d["expected"], default=str)[:4000])
    print("differences when found:", d["differences"])
    return 0
