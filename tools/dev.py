#!/usr/bin/env python3-vt
"""Developer driver: tools/dev.py [-v] [-p PROP] [contract names...]"""
import sys, os, pickle, glob, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
from cdv import astload, runner, contract
def prog():
    return astload.load_cached()
if __name__ == "__main__":
    a = sys.argv[1:]; v = "-v" in a; a = [x for x in a if x != "-v"]
    prop = None
    if "-p" in a: i = a.index("-p"); prop = a[i+1]; del a[i:i+2]
    P = prog()
    ents = [e for e in runner.load_contracts() if (not a or any(x in e[0] for x in a)) and (not prop or prop in e[1])]
    def show(r):
        bad = [o for o in r.obls if o[1] != "proved"]
        print("%-44s %5.1fs %3d/%3d %s %s" % (r.name, r.secs, len(r.obls)-len(bad), len(r.obls), "VACUOUS" if r.vacuous else "", (r.error or "")[:2000 if v else 300]), flush=True)
        for o in bad: print("     ", o[1], "%.1fs" % o[2], o[0], o[5])
        if v:
            for o in r.obls: print("        ", o[1], "%.2f" % o[2], o[0], o[5])
            for x in sorted(set(r.inexact)): print("     INEX", x)
            print("     ", sorted(r.functions))
    runner.run_all(P, ents, jobs=8, progress=show, only=(prop,) if prop else None)
