"""C21: environment defaults and trial contexts."""
from contracts.lib import *
from contracts.world import *

MAPS = {"": "context", "_const": "context_const"}
def ctx_setup(c):
    e = c.e; st = c.state(); x = c.ref(st, "ctxobj")
    k, k2 = sk(c, "key", Str), sk(c, "otherkey", Str)
    lv = {s: e.field_lv("ThtsEnvContext", f, x) for s, f in MAPS.items()}
    for l in lv.values(): e.map_order(st, l)
    return e, st, x, k, k2, lv
def dom(e, s, l, k): return e.leafat(s, l, ("dom",), (k,))
def val(e, s, l, k): return e.leafat(s, l, ("val",), (k,))
def same_at(c, s0, s, l, k, what):
    e = c.e
    c.goal(s, z3.And(dom(e, s, l, k) == dom(e, s0, l, k), z3.Implies(dom(e, s0, l, k), val(e, s, l, k) == val(e, s0, l, k))), what)

def instances(c, q, n):
    fs = [f for f in c.e.prog.byq.get(q, []) if f.body is not None and len(f.params) == n]
    if not fs: raise Unsupported("function %s not found" % q)
    return fs

def put(suf, fname):
    def fn(c):
        ex = []
        for f in instances(c, "ThtsEnvContext::" + fname, 2):
            e, st, x, k, k2, lv = ctx_setup(c)
            v = c.ref(st, "stored"); s0 = st.copy(); l, o_ = lv[suf], lv["_const" if suf == "" else ""]
            for o in c.run(st, f, x, [k, P(v, "void")], cls="ThtsEnvContext"):
                s = o.st
                if o.kind == "throw": c.goal(s, z3.BoolVal(False), "storing a value does not fail"); continue
                c.goal(s, z3.And(dom(e, s, l, k), val(e, s, l, k) == v), "%s: the key now holds the stored value" % fname)
                c.goal(s, z3.Implies(k != k2, z3.And(dom(e, s, l, k2) == dom(e, s0, l, k2), z3.Implies(dom(e, s0, l, k2), val(e, s, l, k2) == val(e, s0, l, k2)))), "%s: other keys are unaffected" % fname)
                for q in (k, k2): same_at(c, s0, s, o_, q, "%s: the other map is unaffected" % fname)
                ex.append(s)
        return ex
    return fn
def get(suf, fname, deref):
    def fn(c):
        ex = []
        for f in instances(c, "ThtsEnvContext::" + fname, 1):
            e, st, x, k, k2, lv = ctx_setup(c)
            l = lv[suf]; s0 = st.copy()
            if deref: e.assume(st, z3.Implies(dom(e, st, l, k), val(e, st, l, k) != Null))
            for o in c.run(st, f, x, [k], cls="ThtsEnvContext"):
                s = o.st
                if o.kind == "throw": c.goal(s, z3.Not(dom(e, s0, l, k)), "%s: an error only for an absent key" % fname)
                else:
                    c.goal(s, dom(e, s0, l, k), "%s: reading an absent key is an error" % fname)
                    v = o.v
                    t = (v.idx[0] if isinstance(v, Lv) and v.idx else v.t) if deref else e.t(v)
                    c.goal(s, t == val(e, s0, l, k), "%s: the value read is the one stored" % fname)
                for m in lv.values(): same_at(c, s0, s, m, k2, "%s: reading changes nothing" % fname)
                ex.append(s)
        return ex
    return fn
def erase(suf, fname):
    def fn(c):
        e, st, x, k, k2, lv = ctx_setup(c); ex = []
        l, o_ = lv[suf], lv["_const" if suf == "" else ""]; s0 = st.copy()
        for o in c.run(st, "ThtsEnvContext::" + fname, x, [k], cls="ThtsEnvContext"):
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "erasing does not fail"); continue
            c.goal(s, z3.Not(dom(e, s, l, k)), "%s: the key is gone" % fname)
            c.goal(s, z3.Implies(k != k2, z3.And(dom(e, s, l, k2) == dom(e, s0, l, k2), z3.Implies(dom(e, s0, l, k2), val(e, s, l, k2) == val(e, s0, l, k2)))), "%s: other keys are unaffected" % fname)
            for q in (k, k2): same_at(c, s0, s, o_, q, "%s: the other map is unaffected" % fname)
            ex.append(s)
        return ex
    return fn
for _s in MAPS:
    for _f in ("put_value_raw", "put_value"): register("C21", name="context_" + _f + _s)(put(_s, _f + _s))
    for _f in ("get_value_raw", "get_value_ptr"): register("C21", name="context_" + _f + _s)(get(_s, _f + _s, False))
    register("C21", name="context_get_value" + _s)(get(_s, "get_value" + _s, True))
    register("C21", name="context_erase" + _s)(erase(_s, "erase" + _s))

@register("C21", name="sample_context")
def ctx_contract(c):
    e = c.e; st = c.state(); env = c.ref(st, "env"); k = sk(c, "key", Str); ex = []
    for o in c.run(st, "ThtsEnv::sample_context_itfc", env, [P(c.ref(st, "s"), "State")], cls="ThtsEnv"):
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "sampling a context does not fail"); continue
        t = e.t(o.v)
        c.goal(o.st, z3.And(t != Null, e.uf("born", Ref, Int)(t) > 0), "every sampled context is a new object")
        for f in MAPS.values():
            lv = e.field_lv("ThtsEnvContext", f, t)
            c.goal(o.st, z3.And(z3.Not(dom(e, o.st, lv, k)), e.leafat(o.st, lv, ("n",)) == 0), "a sampled context is empty (%s)" % f)
        ex.append(o.st)
    return ex

@register("C21", name="env_ctor")
def envctor_contract(c):
    e = c.e; st = c.state(); b = z3.Bool("fully"); env = c.ref(st, "env"); ex = []
    for o in c.run(st, c.fn("ThtsEnv::ThtsEnv", 1, lambda f: f.body is not None), env, [b], cls="ThtsEnv"):
        c.goal(o.st, e.fld(o.st, env, "ThtsEnv", "_is_fully_observable") == b, "the environment records whether it is fully observable")
        for q in c.run(o.st.copy(), "ThtsEnv::is_fully_observable", env, [], cls="ThtsEnv"):
            c.goal(q.st, e.t(q.v) == b, "is_fully_observable reports the configuration"); ex.append(q.st)
    return ex

@register("C21", name="observation_defaults")
def obs_contract(c):
    e = c.e; use_rand(c); ex = []
    e.family["ThtsEnv"] = "ThtsEnv"
    full = lambda s, env: e.fld(s, env, "ThtsEnv", "_is_fully_observable")
    st = c.state(); env = c.ref(st, "env"); a, ns = c.ref(st, "a"), c.ref(st, "ns"); k = sk(c, "k")
    f0 = full(st, env)
    for o in c.run(st, "ThtsEnv::get_observation_distribution_itfc", env, [P(a, "Action"), P(ns, "State")], cls="ThtsEnv"):
        if o.kind == "throw": c.goal(o.st, z3.Not(f0), "the default distribution is refused only when partially observable"); ex.append(o.st); continue
        c.goal(o.st, f0, "the default distribution is refused when partially observable")
        t = e.t(o.v); lv = e.heap_lv(Shape("map", (PTR("Observation"), REAL)), t)
        c.goal(o.st, z3.And(t != Null, dom(e, o.st, lv, ns), val(e, o.st, lv, ns) == 1), "probability one on the next state")
        c.goal(o.st, z3.And(z3.Implies(k != ns, z3.Not(dom(e, o.st, lv, k))), e.leafat(o.st, lv, ("n",)) == 1), "and on nothing else"); ex.append(o.st)
    st = c.state(); env = c.ref(st, "env"); a, ns = c.ref(st, "a"), c.ref(st, "ns"); f0 = full(st, env)
    e.assume(st, f0)
    for o in c.run(st, "ThtsEnv::sample_observation_distribution_itfc", env, [P(a, "Action"), P(ns, "State"), ObjL(c.ref(st, "rm"), "RandManager")], cls="ThtsEnv"):
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "sampling the default observation does not fail"); continue
        c.goal(o.st, e.t(o.v) == ns, "the sampled default observation is the next state")
        c.goal(o.st, z3.BoolVal(not draws(o.st) and not draws(o.st, "i")), "no randomness is consumed"); ex.append(o.st)
    st = c.state(); env = c.ref(st, "env"); a, ns = c.ref(st, "a"), c.ref(st, "ns"); e.assume(st, z3.Not(full(st, env)))
    for o in c.run(st, "ThtsEnv::sample_observation_distribution_itfc", env, [P(a, "Action"), P(ns, "State"), ObjL(c.ref(st, "rm"), "RandManager")], cls="ThtsEnv"):
        if o.kind != "throw": c.goal(o.st, z3.BoolVal(False), "sampling with the refused default fails")
        else: ex.append(o.st)
    return ex
