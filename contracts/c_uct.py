"""C08, C09: UCT and PUCT."""
from contracts.lib import *
from contracts.world import *

def backup_contract(cls):
    def fn(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        nb0, av0, nv0 = n.f(st, "num_backups"), n.f(st, "avg_return"), n.f(st, "num_visits")
        e.assume(st, nb0 >= 0)
        vs, r, r2 = rewards_args(c, st)
        s0 = st.copy()
        x = sk(c, "x")
        outs = c.run(st, "%s::backup_itfc" % own(c, cls, "backup_itfc"), n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "backup does not throw"); continue
            nb, av = n.f(o.st, "num_backups"), n.f(o.st, "avg_return")
            c.goal(o.st, nb == nb0 + 1, "a backup raises the backup count by one")
            c.goal(o.st, av * z3.ToReal(nb) == av0 * z3.ToReal(nb0) + r, "value times count grows by the return from this node")
            c.goal(o.st, z3.Implies(nb0 == 0, av == r), "the first return replaces the initial value")
            c.goal(o.st, n.f(o.st, "num_visits") == nv0, "a backup is not a visit")
            frame_other(c, s0, o.st, cls, x, n.t, ("num_backups", "avg_return", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn

def own(c, cls, fn):
    """class in whose scope the final overrider is defined"""
    for k in c.e.ty.mro(cls):
        if any(f.body is not None for f in c.e.prog.byq.get(k + "::" + fn, [])): return k
    raise Unsupported("no definition of %s in %s" % (fn, cls))

def frame_other(c, s0, s1, cls, x, me, fields):
    for f in fields:
        a, b = c.e.fld(s0, x, cls, f), c.e.fld(s1, x, cls, f)
        a, b = (v.t if isinstance(v, P) else v for v in (a, b))
        c.goal(s1, z3.Implies(x != me, a == b), "no other node's %s changes" % f)

def locks_back(c, n, s0, s, x):
    """every lock this thread holds afterwards it held before, and vice versa"""
    e = c.e
    for b in (n.cbase, n.base):
        l = e.field_lv(b, "node_lock", x)
        c.goal(s, z3.Implies(e.uf("born", Ref, Int)(x) <= 0, e.leafat(s, l, ("held",)) == e.leafat(s0, l, ("held",))), "locks held after equal locks held before", props=("C05",))

def visit_contract(cls):
    def fn(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        nb0, av0, nv0 = n.f(st, "num_backups"), n.f(st, "avg_return"), n.f(st, "num_visits")
        s0 = st.copy(); x = sk(c, "x")
        outs = c.run(st, "%s::visit_itfc" % own(c, cls, "visit_itfc"), n.t, [ctx_arg(c, st)], cls=cls)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "visit does not throw"); continue
            c.goal(o.st, n.f(o.st, "num_visits") == nv0 + 1, "a visit raises the visit count by one")
            c.goal(o.st, n.f(o.st, "num_backups") == nb0, "a visit is not a backup")
            c.goal(o.st, n.f(o.st, "avg_return") == av0, "a visit leaves the value")
            frame_other(c, s0, o.st, cls, x, n.t, ("num_backups", "avg_return", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn

def ctor_contract(cls):
    def fn(c):
        e = c.e; st = c.state(); env_fns(c)
        dec = cls.endswith("DNode")
        mgrcls = "PuctManager" if cls.startswith("Puct") else "UctManager"
        e.family.update({"ThtsManager": mgrcls, "ThtsEnv": "ThtsEnv"})
        m = c.ref(st, "mgr"); s = c.ref(st, "state"); a = c.ref(st, "action"); par = z3.Const("par", Ref)
        env = e.fld(st, m, "ThtsManager", "thts_env").t; e.assume(st, env != Null)
        hf = e.fld(st, m, "ThtsManager", "heuristic_fn"); pt = e.fld(st, m, "UctManager", "heuristic_psuedo_trials")
        dd, dt = z3.Ints("depth timestep")
        args = [P(m, mgrcls), P(s, "State")] + ([] if dec else [P(a, "Action")]) + [dd, dt, P(par, cls.replace("DNode", "CNode") if dec else cls.replace("CNode", "DNode"))]
        s0 = st.copy()
        outs = c.ctor(st, cls, args)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "construction does not throw"); continue
            f = lambda nm: (lambda v: v.t if isinstance(v, P) else v)(e.fld(o.st, o.v.t, cls, nm))
            if dec:
                sinkv = e.uf("env_sink", Ref, Ref, Bool)(env, s)
                h = e.uf("apply_real", Int, Ref, Ref, Real)(hf, s, env)
                # the heuristic value of the node: see C03; here only that the value starts there
                c.goal(o.st, z3.Implies(hf != 0, z3.And(f("num_visits") == pt, f("num_backups") == pt)), "pseudo-trials counted")
                c.goal(o.st, z3.Implies(hf != 0, f("avg_return") == f("heuristic_value")), "value starts at the heuristic")
                c.goal(o.st, z3.Implies(hf == 0, z3.And(f("num_visits") == 0, f("num_backups") == 0)), "no heuristic: counts start at zero")
            else:
                c.goal(o.st, z3.And(f("num_visits") == 0, f("num_backups") == 0), "counts start at zero")
        return [o.st for o in outs if o.kind == "ret"]
    return fn

for _cls in ("UctDNode", "UctCNode", "PuctDNode", "PuctCNode"):
    register("C08", name="%s_backup" % _cls)(backup_contract(_cls))
    register("C08", name="%s_visit" % _cls)(visit_contract(_cls))
    register("C08", name="%s_ctor" % _cls)(ctor_contract(_cls))

def prior_setup(c, st, n):
    e = c.e
    msh = Shape("map", (PTR("Action"), REAL))
    pp = n.f(st, "policy_prior"); plv = e.heap_lv(msh, pp)
    prior = n.m(st, "prior_fn") != 0
    e.assume(st, z3.Implies(prior, pp != Null))
    pdom = e.cell(st, plv.root, ("dom",)); amem = e.cell(st, n.alv.root, ("mem",)); ap = n.f(st, "actions")
    st.gens.setdefault(amem.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == ap, amem.sel(tuple(a)), prior), pdom.sel((pp, a[1])))])
    n.prior, n.priorp = prior, lambda k: e.leafat(st, plv, ("val",), (k,))
    return prior

def ucb_spec(c, n, s0, k, bias):
    """documented UCB value of legal action k"""
    nv = n.f(s0, "num_visits"); cv = z3.If(n.has(k), n.cf(s0, "num_visits", k), 0)
    N = z3.ToReal(z3.If(nv > 0, nv, 1)); M = z3.ToReal(z3.If(cv > 0, cv, 1))
    opp = z3.And(n.m(s0, "is_two_player_game"), n.f(s0, "decision_timestep") % 2 == 1)
    term = pow_(N, n.m(s0, "puct_power")) / M if n.cls.startswith("Puct") else sqrt_(log_(N) / M)
    t = term * bias
    t = z3.If(n.prior, t * n.priorp(k), t)
    return t + z3.If(n.has(k), z3.If(opp, -1.0, 1.0) * n.cf(s0, "avg_return", k), 0)

def auto_bias(c, st, n):
    """the automatic bias: max(0.001, max |child value|)"""
    e = c.e
    mb = n.m(st, "bias"); b = z3.Real("bias_spec"); w = z3.Const("bias_witness", Ref)
    mn = z3.RealVal("0.001")
    av = e.cell(st, ("fld", "UctCNode", "avg_return"), ()) if ("fld", "UctCNode", "avg_return") in e.rootinfo else None
    n.cf(st, "avg_return", w)
    av = e.cell(st, ("fld", "UctCNode", "avg_return"), ())
    st.gens.setdefault(av.decl.name(), []).append(lambda a: [z3.Implies(z3.And(mb == -1, n.isc(a[0])), b >= abs_(av.sel((a[0],))))])
    e.assume(st, z3.Implies(mb != -1, b == mb))
    e.assume(st, z3.Implies(mb == -1, z3.And(b >= mn, z3.Or(b == mn, z3.And(n.has(w), n.isaction(w), b == abs_(n.cf(st, "avg_return", w)))))))
    return b

def select_contract(cls):
    def fn(c):
        e = c.e; st = c.state(); use_rand(c); use_argmax(c); env_fns(c)
        n = uct_node(c, st, "n", cls)
        use_child_locks(c, n)
        n.actions(st)
        prior = prior_setup(c, st, n)
        k = sk(c, "k"); x = sk(c, "x")
        bias = auto_bias(c, st, n)
        eps = n.m(st, "epsilon_exploration")
        s0 = st.copy()
        outs = c.run(st, "%s::select_action_itfc" % own(c, cls, "select_action_itfc"), n.t, [ctx_arg(c, st)], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "selection does not throw"); continue
            v = o.v.t
            c.goal(s, n.isaction(v), "the selected action is legal")
            c.goal(s, e.leafat(s, n.children, ("dom",), (v,)), "the selected action has a child afterwards")
            e.assume(s, n.isaction(k))
            explored = z3.Or(*[z3.And(eps > 0, u < eps) for u in draws(s)]) if draws(s) else z3.BoolVal(False)
            c.goal(s, z3.Implies(z3.And(z3.Not(explored), z3.Not(prior), z3.Not(n.has(k))), z3.Not(n.has(v))), "an untried action is selected while there is one")
            hints = []
            if s.ghost.get("maxkey"):
                mk, dom, val = s.ghost["maxkey"][-1]
                hints = c.lemma(s, z3.Implies(mk == v, val.sel((mk,)) == ucb_spec(c, n, s0, v, bias)), "UCB value of the selected action") + \
                        c.lemma(s, val.sel((k,)) == ucb_spec(c, n, s0, k, bias), "UCB value of any action") + \
                        c.lemma(s, z3.And(dom.sel((k,)), val.sel((k,)) <= val.sel((mk,)), mk == v), "the arg-max dominates")
            c.goal(s, z3.Implies(z3.And(z3.Not(explored), z3.Or(prior, n.has(v))), ucb_spec(c, n, s0, v, bias) >= ucb_spec(c, n, s0, k, bias)), "the selected action maximises the UCB value", hints=hints)
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _cls in ("UctDNode", "PuctDNode"):
    register("C09", name="%s_select" % _cls)(select_contract(_cls))
