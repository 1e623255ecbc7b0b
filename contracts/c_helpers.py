"""C15, C17: sampling and arg-max helpers, distributions."""
from contracts.lib import *
from contracts.world import *

def instances(c, q):
    fs = [f for f in c.e.prog.byq.get(q, []) if f.body is not None]
    if not fs: raise Unsupported("function %s not found" % q)
    return fs

def maxkey_contract(c):
    e = c.e; use_rand(c); exits = []
    for f in instances(c, "get_max_key_break_ties_randomly"):
        st = c.state()
        msh = e.ty.shape(f.params[0]["type"])
        ks = leaf_sort(msh.args[0])
        e.skolems = []
        k = sk(c, "k_" + str(ks), ks)
        lv = e.var_lv(st, "map", msh)
        e.map_order(st, lv)
        n0 = e.leafat(st, lv, ("n",))
        dom0 = e.cell(st, lv.root, ("dom",)); val0 = e.cell(st, lv.root, ("val",))
        low = LOWEST if msh.args[1].k == "real" else z3.IntVal(INT_LOWEST)
        st.gens.setdefault(val0.decl.name(), []).append(lambda a, dom0=dom0, val0=val0, low=low: [z3.Implies(dom0.sel(tuple(a)), val0.sel(tuple(a)) >= low)])
        e.assume(st, n0 > 0)
        rm = ObjL(c.ref(st, "rm"), "RandManager")
        outs = c.run(st, f, None, [lv, rm])
        tag = " [%s->%s]" % (msh.args[0].cls if msh.args[0].k == "ptr" else msh.args[0].k, msh.args[1].k)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "does not throw" + tag); continue
            v = e.t(o.v)
            c.goal(o.st, dom0.sel((v,)), "the returned key is in the map" + tag)
            c.goal(o.st, z3.Implies(dom0.sel((k,)), val0.sel((k,)) <= val0.sel((v,))), "no key has a larger value" + tag)
            c.goal(o.st, z3.And(e.leafat(o.st, lv, ("dom",), (k,)) == dom0.sel((k,)), e.leafat(o.st, lv, ("val",), (k,)) == val0.sel((k,))), "the map is unchanged" + tag)
        exits += [o.st for o in outs if o.kind == "ret"]
    return exits
register("C17", name="get_max_key")(maxkey_contract)

EPSV = z3.RealVal("1/2000000000000")     # rounding of the total, below the documented tolerance of 1e-12
INST = ("State", "Action", "Observation", "int", "Distribution<int>")
def keyname(e, f):
    k = e.ty.shape(f.params[0]["type"]).args[0]
    return k.cls if k.k == "ptr" else k.k
def sample_contract(c, normd, which):
    e = c.e; use_rand(c); exits = []; quiet_print(c)
    fs = [f for f in instances(c, "sample_from_distribution") if keyname(e, f) == which or (which == "other" and keyname(e, f) not in INST)]
    if not fs and which != "other": raise Unsupported("no instance of sample_from_distribution for " + which)
    if not fs: return None
    for f in fs:
        st = c.state()
        msh = e.ty.shape(f.params[0]["type"])
        lv = e.var_lv(st, "map", msh)
        ordA, idxA, domv, n0 = e.map_order(st, lv)
        dom0 = e.cell(st, lv.root, ("dom",)); val0 = e.cell(st, lv.root, ("val",))
        st.gens.setdefault(val0.decl.name(), []).append(lambda a, dom0=dom0, val0=val0: [z3.Implies(dom0.sel(tuple(a)), val0.sel(tuple(a)) >= 0)])
        b = z3.Int("b_" + str(next(e.cnt)))
        S = e.pv.idx_sum([], b, val0.sel((ordA.sel((b,)),)), N=n0, name="mass")
        total = S.decl(n0)
        e.assume(st, n0 > 0)
        if normd: e.assume(st, z3.And(total > 1 - EPSV, total <= 1 + EPSV))
        else: e.assume(st, total > 0)
        rm = ObjL(c.ref(st, "rm"), "RandManager")
        outs = c.run(st, f, None, [lv, rm, z3.BoolVal(normd)])
        tag = " [%s%s]" % (msh.args[0].cls if msh.args[0].k == "ptr" else msh.args[0].k, ", normalised" if normd else ", unnormalised")
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "sampling a proper distribution does not fail" + tag); continue
            v = e.t(o.v)
            us = draws(s)
            if len(us) != 1: c.goal(s, z3.BoolVal(False), "exactly one uniform draw per sample" + tag); continue
            u, = us; j = idxA.sel((v,))
            c.goal(s, dom0.sel((v,)), "the sample is a key of the map" + tag)
            e.map_dom_fact(s, lv, v)
            c.goal(s, val0.sel((v,)) > 0, "the sample has positive weight" + tag)
            if normd:
                c.goal(s, z3.Implies(total == 1, S.decl(j) <= u), "the mass before the sample is at most the draw" + tag)
                c.goal(s, z3.Implies(total == 1, u < S.decl(j) + val0.sel((v,))), "the mass up to the sample exceeds the draw" + tag)
            else:
                c.goal(s, S.decl(j) / total <= u, "the mass before the sample is at most the draw" + tag)
                c.goal(s, u < S.decl(j) / total + val0.sel((v,)) / total, "the mass up to the sample exceeds the draw" + tag)
        exits += [o.st for o in outs if o.kind == "ret"]
    return exits
for _w in INST + ("other",):
    register("C15", name="sample_normalised_" + _w, cost=2)(lambda c, w=_w: sample_contract(c, True, w))
    register("C15", name="sample_unnormalised_" + _w, cost=3)(lambda c, w=_w: sample_contract(c, False, w))

def rand_pre(c, st):
    """class invariant of RandManager (established by its constructor: contract RandManager_ctor)"""
    e = c.e; r = c.ref(st, "rm")
    lo, hi = e.fld(st, r, "RandManager", "int_distr"); e.assume(st, z3.And(lo == 0, hi == 2147483647))
    lo, hi = e.fld(st, r, "RandManager", "real_distr"); e.assume(st, z3.And(lo == 0, hi == 1))
    e.assume(st, z3.Not(e.leafat(st, e.field_lv("RandManager", "rng_lock", r), ("held",))))
    return r

@register("C15", "C05", name="RandManager_rand")
def rand_contract(c):
    e = c.e; out = []
    c.props = ("C15",)
    st = c.state(); r = rand_pre(c, st); lo, hi = z3.Ints("lo hi"); e.assume(st, lo < hi)
    lk = lambda s: e.leafat(s, e.field_lv("RandManager", "rng_lock", r), ("held",))
    for o in c.run(st, "RandManager::get_rand_int", r, [lo, hi]):
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "get_rand_int does not throw"); continue
        c.goal(o.st, z3.And(lo <= e.t(o.v), e.t(o.v) < hi), "a random integer lies in the requested range")
        c.goal(o.st, z3.Not(lk(o.st)), "the generator lock is released", props=("C05",)); out.append(o.st)
    st = c.state(); r = rand_pre(c, st)
    for o in c.run(st, "RandManager::get_rand_uniform", r, []):
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "get_rand_uniform does not throw"); continue
        c.goal(o.st, z3.And(0 <= e.t(o.v), e.t(o.v) < 1), "a uniform draw lies in [0,1)")
        c.goal(o.st, z3.Not(lk(o.st)), "the generator lock is released", props=("C05",)); out.append(o.st)
    return out

@register("C15", name="RandManager_ctor")
def randctor_contract(c):
    e = c.e; out = []
    st = c.state(); seed = z3.Int("seed")
    e.summaries["RandManager::init_random_seed"] = lambda e, st, this, args, node: [(st, VOIDV)]
    for o in c.ctor(st, "RandManager", [seed]):
        if o.kind == "throw": continue
        lo, hi = e.fld(o.st, o.v.t, "RandManager", "int_distr"); c.goal(o.st, z3.And(lo == 0, hi == 2147483647), "integers are drawn from [0, RAND_MAX]")
        lo, hi = e.fld(o.st, o.v.t, "RandManager", "real_distr"); c.goal(o.st, z3.And(lo == 0, hi == 1), "uniform draws from [0, 1)")
        out.append(o.st)
    return out

@register("C15", name="DiscreteUniform_sample")
def uniform_contract(c):
    e = c.e; st = c.state(); use_rand(c); cls = "DiscreteUniformDistribution<int>"
    d = c.ref(st, "d"); p = e.fld(st, d, cls, "keys"); e.assume(st, p.t != Null)
    lv = e.heap_lv(Shape("vec", (INT,)), p.t); n = e.leafat(st, lv, ("len",)); e.assume(st, n > 0)
    el0 = e.cell(st, lv.root, ("el",))
    outs = c.run(st, cls + "::sample", d, [ObjL(c.ref(st, "rm"), "RandManager")], cls=cls)
    for o in outs:
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "sampling a non-empty list does not fail"); continue
        ds = draws(o.st, "i")
        c.goal(o.st, z3.BoolVal(len(ds) == 1 and not draws(o.st)), "exactly one integer draw per sample")
        if len(ds) == 1:
            i, a, b = ds[0]
            c.goal(o.st, b - a == n, "the draw has one outcome per position")
            c.goal(o.st, e.t(o.v) == el0.sel((p.t, i - a)), "the sample is the element at the drawn position")
    return [o.st for o in outs if o.kind == "ret"]

@register("C15", name="Mixed_sample")
def mixed_contract(c):
    e = c.e; st = c.state(); use_rand(c); cls = "MixedDistribution<int>"
    d = c.ref(st, "d"); p = e.fld(st, d, cls, "distr"); e.assume(st, p.t != Null)
    msh = p.cls if isinstance(p.cls, Shape) else Shape("map", (PTR("Distribution<int>"), REAL))
    lv = e.heap_lv(msh, p.t)
    log = []
    def smp(e, st, this, args, node):
        m = args[0]
        k = e.fresh(st, "component", Ref)
        e.assume(st, z3.And(e.leafat(st, m, ("dom",), (k,)), k != Null))
        norm = e.t(e.rv(st, args[2])) if len(args) > 2 else z3.BoolVal(True)
        st.ghost["mix"] = st.ghost.get("mix", ()) + ((k, m, norm),)
        return [(st, P(k, "Distribution<int>"))]
    def comp(e, st, this, args, node):
        v = e.fresh(st, "compsample", Int)
        st.ghost["comp"] = st.ghost.get("comp", ()) + ((this.t, v),)
        return [(st, v)]
    e.summaries["sample_from_distribution"] = smp; e.summaries["Distribution<int>::sample"] = comp
    e.family["Distribution<int>"] = "Distribution<int>"
    outs = c.run(st, cls + "::sample", d, [ObjL(c.ref(st, "rm"), "RandManager")], cls=cls)
    for o in outs:
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "sampling a mixture does not fail"); continue
        mx, cp = o.st.ghost.get("mix", ()), o.st.ghost.get("comp", ())
        c.goal(o.st, z3.BoolVal(len(mx) == 1 and len(cp) == 1), "one component is drawn and sampled once")
        if len(mx) == 1 and len(cp) == 1:
            k, m, norm = mx[0]
            c.goal(o.st, z3.And(m.idx[0] == p.t if m.root[0] == "heap" else z3.BoolVal(False)), "the component is drawn from the mixture's weights")
            c.goal(o.st, z3.And(cp[0][0] == k, e.t(o.v) == cp[0][1]), "the result is the drawn component's sample")
    return [o.st for o in outs if o.kind == "ret"]
