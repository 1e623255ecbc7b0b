"""C05, C06: which function contracts also carry the lock obligations (attached to every node in contracts/world.py)."""
import re
from cdv.runner import REG
LOCKED = re.compile(r"(_backup|_visit|_sample|_soft_q|_weights_|_distribution_|_select)|^create_child")
def attach():
    for i, (name, props, fn, opts) in enumerate(REG):
        if "_recommend" in name or "_own" in name and "_backup" in name: continue
        if "_distribution" in name and not name.endswith(("root_prior_root", "inner_prior_own", "root_noprior_off")): continue
        if LOCKED.search(name) and not name.startswith(("sample_", "run_", "Alias_")): REG[i] = (name, props + tuple(p for p in ("C05", "C06") if p not in props), fn, opts)
attach()
