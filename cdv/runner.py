"""Runs the contracts of a property in parallel processes and returns their results."""
import glob, importlib, multiprocessing as mp, os, sys, time, traceback
from . import astload, contract

REG = []        # (name, props, fn, opts)

def register(*props, **opts):
    """@register("C08", ...): fn(c) is a contract whose obligations belong to these properties"""
    def deco(fn):
        REG.append((opts.pop("name", fn.__name__), tuple(props), fn, dict(opts)))
        return fn
    return deco

def load_contracts():
    if REG: return REG
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(glob.glob(d + "/c_*.py")):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    return REG

def _child(conn, prog, ent, only, timeout):
    try:
        sys.setrecursionlimit(100000)
        name, props, fn, opts = ent
        from .prover import STATS
        r = contract.run_contract(prog, name, props, fn, timeout=opts.get("timeout", timeout), only=only, notify=lambda r: conn.send(("part", r)))
        r.stats = dict(STATS)
        conn.send(r)
    except BaseException as x:
        r = contract.Result(ent[0], ent[1]); r.error = "crash: %r" % (x,); r.stats = {}
        try: conn.send(r)
        except Exception: pass
    finally:
        conn.close()
        os._exit(0)

def run_all(prog, ents, only=None, jobs=7, wall=300, timeout=20000, progress=None, deadline=None, stop=None):
    """[(name,props,fn,opts)] -> [Result]; a contract over its wall limit is undecided"""
    ctx = mp.get_context("fork")
    todo = list(ents); live = []; out = []; parts = {}
    while todo or live:
        if stop and stop(out + list(parts.values())): # a violation is established: the rest is left undecided
            for p, a, ent, t0 in live: p.kill()
            for ent in [l[2] for l in live] + todo:
                r = parts.get(ent[0]) or contract.Result(ent[0], ent[1]); r.error = "not finished: a violation was already established"; r.stats = {}; out.append(r)
            break
        while todo and len(live) < jobs:
            ent = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, prog, ent, only, timeout), daemon=True)
            p.start(); b.close()
            live.append((p, a, ent, time.time()))
        still = []
        for p, a, ent, t0 in live:
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                    if isinstance(got, tuple): parts[ent[0]] = got[1]; got = None
                except EOFError:
                    got = contract.Result(ent[0], ent[1]); got.error = "process ended without a result"; got.stats = {}
            elif time.time() - t0 > ent[3].get("wall", wall) or (deadline and time.time() > deadline):
                p.kill(); got = parts.get(ent[0]) or contract.Result(ent[0], ent[1]); got.error = "wall limit"; got.stats = {}; got.secs = time.time() - t0
            if got is None: still.append((p, a, ent, t0)); continue
            p.join(1)
            if p.is_alive(): p.kill()
            out.append(got)
            if progress: progress(got)
        live = still
    order = {e[0]: i for i, e in enumerate(ents)}
    out.sort(key=lambda r: order.get(r.name, 0))
    return out
