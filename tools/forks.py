"""Where the runs of a case fork: python3-vt tools/forks.py C06 'case name'."""
import collections
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsx import core, load, prove

seen = collections.Counter()
old = core.Engine._decide


def where():
    fr = [f for f in traceback.extract_stack() if f.filename.startswith(load.REPO) or "/cases/" in f.filename]
    return " < ".join("%s:%d" % (f.filename.split("pytiled_parser/")[-1], f.lineno) for f in fr[-1:-3:-1])


def decide(self, cond, allow):
    d = old(self, cond, allow)
    if d == "B" and self.merging_enabled:
        seen["fork " + where() + " " + str(core.simp(cond)).replace("\n", " ")[:300]] += 1
    return d


core.Engine._decide = decide
oldm = core.Engine.abort_merge


def am(self, why=""):
    seen["abort %s %s" % (why, where())] += 1
    return oldm(self, why)


core.Engine.abort_merge = am
m = importlib.import_module("vsx.cases." + sys.argv[1].lower())
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
case = [c for c in m.cases(tier) if sys.argv[2] in c[0]][0]
r = prove.run_case((case[0], case[1], dict(case[2], time=20)))
print(case[0], r.paths, r.mode, r.notes[:2])
for k, n in seen.most_common(25):
    print(n, k)
