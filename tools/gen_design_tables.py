#!/usr/bin/env python3-vt
"""prints the per-property contract table and the seeded-bug table of DESIGN.md (from the registered contracts, baseline.json and seeded/*/meta.json)"""
import sys, os, json, re, collections
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from cdv import runner
base = json.load(open(H + "/baseline.json"))
d = collections.OrderedDict()
for n, ps, fn, op in runner.load_contracts():
    for p in ps: d.setdefault(p, []).append(n)
def squeeze(ns):
    g = collections.OrderedDict()
    for n in ns:
        m = re.match(r"(Uct|Puct|Ments|DBMents|Dents|Est|Rents|Tents)([DC]Node)?_(.*)", n)
        g.setdefault("*%s_%s" % (m.group(2) or "", m.group(3)) if m else n, []).append(m.group(1) if m else None)
    return ", ".join(k if v == [None] else k.replace("*", v[0] if len(v) == 1 else "{%s}" % ",".join(v)) for k, v in g.items())
print("| id | contracts | obligations | names |\n|---|---|---|---|")
for p in sorted(d):
    k = sum(1 for n in d[p] for _ in base.get(n, {}).get("obls", {}))
    print("| %s | %d | %d | %s |" % (p, len(d[p]), k, squeeze(d[p])))
