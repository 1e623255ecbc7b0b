"""Loops under a contract-supplied invariant template: the cells the loop modifies are forgotten, the largest inductive subset of the
contract's candidate invariants is kept (each proved on entry and preserved by the body), obligations inside the body are collected under it."""
import re, z3
from .types import *
from .values import *
from .engine import NORMAL, BREAK, CONT, RET, THROW, Sig, N_
from . import loops

class Cand:
    """fn(st, xs) -> formula; sorts of the universally quantified xs; trig: [(cell key, fn(index terms) -> xs or None)]"""
    def __init__(self, name, fn, sorts=(), trig=(), req=False):
        self.name, self.fn, self.sorts, self.trig, self.req = name, fn, tuple(sorts), tuple(trig), req

def havoc(eng, st, mods):
    h = st.copy()
    for key in mods:
        root, path = key
        ix, s = eng.leafinfo(root, path)
        nm = re.sub(r"[^\w!]+", "_", "h_%s_%s!%d" % ("_".join(str(x) for x in root[1:]), "_".join(str(p) for p in path), next(eng.cnt)))
        h.mem[key] = BaseA(z3.Function(nm, *(list(ix) + [s]))) if ix else ConstA(z3.Const(nm, s))
        if path and path[-1] in ("len", "n"):
            if ix: h.gens.setdefault(nm, []).append(lambda a, d=h.mem[key].decl: [d(*a) >= 0])
            else: h.facts.append(h.mem[key].v >= 0)
    return h

def changed(eng, base, h, outs, mods):
    new = []
    for s, sig in outs:
        if sig.k not in (NORMAL, CONT): continue
        for key, a in s.mem.items():
            if key in mods or key in new: continue
            root = key[0]
            if root[0] in ("fld", "heap", "ghost"):
                b = h.get(key)
                if b is None: b = base.mem.get(key)
                if b is None: b = eng.init_cell(key)
                if a is not b and not loops.same_arr(a, b): new.append(key)
            elif key in base.mem:
                if a is not base.mem[key] and not (key in h and a is h[key]): new.append(key)
        for mk, mv in s.meta.items():
            if isinstance(mk, tuple) and mk[0] == "iter" and mk in base.meta and not mv.pos.eq(base.meta[mk].pos):
                raise Unsupported("iterator modified in a loop")
    return new

def assume(eng, h, cands):
    snap = h.copy()
    for c in cands:
        if not c.sorts: h.facts.append(c.fn(snap, ())); continue
        for key, xs in c.trig:
            a = snap.mem.get(key)
            if a is None: a = eng.init_cell(key)
            if not isinstance(a, BaseA): continue
            def gen(args, c=c, xs=xs):
                x = xs(tuple(args))
                return [c.fn(snap, x)] if x is not None else []
            h.gens.setdefault(a.decl.name(), []).append(gen)
        for xs in getattr(c, "inst", ()): h.facts.append(c.fn(snap, xs))

def holds(eng, s, c, timeout=6000):
    xs = tuple(eng.fresh(None, "q", so) for so in c.sorts)
    g = c.fn(s, xs)
    if z3.is_true(z3.simplify(g)): return True
    return eng.pv.prove(list(s.facts) + list(s.pc), s.gens, g, timeout)[0] == "proved"

def try_loop(eng, st, name, body_fn, space, exit_fn):
    """None when the loop does not touch ghost state (the ordinary schemata apply)"""
    inv = eng.hooks.get("inv")
    if inv is None or st.js: return None
    if eng.hooks.get("loop_entry"):
        eng.hooks["loop_entry"](eng, st)
        if space is not None and not exit_fn:            # a loop over a container known to be empty
            N = space(eng, st).N
            if eng.pv.prove(list(st.facts) + list(st.pc), st.gens, N <= 0, 4000)[0] == "proved": return [(st, N_)]
    saved, eng.record = eng.record, False
    mods = []
    try:
        for rnd in range(8):
            base = st.copy()
            h = havoc(eng, base, mods)
            j = eng.fresh(None, "it", Int); h.ghost["loopj"] = j
            sp = space(eng, h) if space else None
            if sp is not None: h.facts += [0 <= j, j < sp.N]
            hm = dict(h.mem)
            outs = body_fn(h, j, None)
            new = changed(eng, base, hm, outs, mods)
            if not new: break
            mods += new; mods.sort(key=str)
        else: raise Unsupported("loop modification set does not stabilise")
    finally: eng.record = saved
    force = eng.hooks.get("inv_force")
    if not any(k[0][0] == "ghost" for k in mods) and not (force and force(eng, st, mods)): return None
    if not saved:           # inside somebody else's discovery pass: only the modified cells matter
        cands = []
    else:
        e0 = st.copy(); e0.ghost["loopj"] = z3.IntVal(0)
        cands = [c for c in inv(eng, e0, mods) if holds(eng, e0, c)]
    while True:
        h = havoc(eng, st, mods)
        j = eng.fresh(None, "it", Int); h.ghost["loopj"] = j
        sp = space(eng, h) if space else None
        assume(eng, h, cands)
        he = h.copy()
        if sp is not None: h.facts += [0 <= j, j < sp.N]
        n0 = len(eng.obls)
        outs = body_fn(h, j, None)
        bad = set()
        if saved:
            for s, sig in outs:
                if sig.k not in (NORMAL, CONT): continue
                s.ghost["loopj"] = j + 1
                for c in cands:
                    if id(c) not in bad and not holds(eng, s, c): bad.add(id(c))
        if not bad: break
        del eng.obls[n0:]
        cands = [c for c in cands if id(c) not in bad]
    if saved:
        eng.loopinvs = getattr(eng, "loopinvs", []) + [(name, c.name) for c in cands]
    res = []
    for s, sig in outs:
        if sig.k in (NORMAL, CONT): continue
        s.ghost.pop("loopj", None)
        res.append((s, N_ if sig.k in ("exit", BREAK) else sig))
    if exit_fn is None:
        he.ghost.pop("loopj", None); he.facts += [j == sp.N, sp.N >= 0]
        res.append((he, N_))
    return res
