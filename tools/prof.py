#!/usr/bin/env python3-vt
"""tools/prof.py CONTRACT SECONDS: where a contract spends its time"""
import sys, os, faulthandler
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(100000)
from cdv import astload, runner, contract
P = astload.load_cached()
ent = [e for e in runner.load_contracts() if e[0] == sys.argv[1]][0]
faulthandler.dump_traceback_later(float(sys.argv[2]), repeat=False, exit=False)
faulthandler.dump_traceback_later(float(sys.argv[2]), repeat=True, exit=False)
r = contract.run_contract(P, ent[0], ent[1], ent[2], verbose=True)
print(r.error, r.secs)
