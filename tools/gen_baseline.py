#!/usr/bin/env python3-vt
"""Runs every contract on the unchanged tree and writes baseline.json: how long each obligation took there, and the over-approximation notes each contract has there (normalised).
check.py demotes a failed obligation to 'unknown' when its contract has a note that is not in this list (the code left the exactly handled shapes)."""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.setrecursionlimit(100000)
from cdv import astload, runner, contract
a = sys.argv[1:]
p = os.path.join(ROOT, "baseline.json")
old = json.load(open(p)) if os.path.exists(p) else {}
ents = [e for e in runner.load_contracts() if not a or any(x in e[0] for x in a)]
ents.sort(key=lambda e: -old.get(e[0], {}).get("secs", 30))
new = dict(old) if a else {}
bad_runs = []
def show(r):
    bad = [o for o in r.obls if o[1] != "proved"]
    if bad or r.error or r.vacuous or r.secs > 60:
        print("%-44s %5.1fs %3d/%3d %s %s" % (r.name, r.secs, len(r.obls)-len(bad), len(r.obls), "VACUOUS" if r.vacuous else "", (r.error or "")[:300]), flush=True)
    for o in bad: print("     ", o[1], "%.1fs" % o[2], o[0], o[5])
    ob = {}
    for o in r.obls:
        d = int(o[2] + 1) if o[1] == "proved" else 999
        ob[o[0]] = max(ob.get(o[0], 0), d)
    new[r.name] = dict(obls=ob, inexact=sorted({contract.norm(x) for x in r.inexact}), secs=int(round(r.secs, -1)))
    if r.error or any(o[1] != 'proved' and 'recommend' not in r.name for o in r.obls): bad_runs.append(r.name)
rs = runner.run_all(astload.load_cached(), ents, jobs=8, progress=show, wall=900)
json.dump(new, open(p, "w"), indent=0, sort_keys=True)
print("contracts", len(rs), "obligations", sum(len(r.obls) for r in rs), "proved", sum(1 for r in rs for o in r.obls if o[1] == "proved"), "functions", len({f for r in rs for f in r.functions}), "cpu %.0f" % sum(r.secs for r in rs))
print("NOT PROVED:", bad_runs)
