"""C07: children and the transposition table."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own

D_CLASSES = ("UctDNode", "PuctDNode", "MentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode", "RentsDNode", "TentsDNode")
C_CLASSES = tuple(x.replace("DNode", "CNode") for x in D_CLASSES)

def kids(e, s, n, x, k): 
    lv = e.field_lv(n.base, "children", x)
    return e.leafat(s, lv, ("dom",), (k,)), e.leafat(s, lv, ("val",), (k,)), e.leafat(s, lv, ("n",))

def made(c, n):
    """create_child_node_helper_itfc: a new node of the algorithm (contracts <class>_make_child)"""
    e = c.e
    def sm(e, s, this, args, node):
        e.oblige(s, this.t == n.t, "the node makes its own child", kind="pre")
        s.ghost["made"] = s.ghost.get("made", ()) + ((e.new_ref(s, n.child), e.t(e.rv(s, args[0]))),)
        return [(s, P(s.ghost["made"][-1][0], n.cbase))]
    for k in e.ty.mro(n.cls): e.summaries[k + "::create_child_node_helper_itfc"] = sm

def create_contract(cls, wrapper, nargs, table=False):
    def f(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        a = c.ref(st, "key"); k = sk(c, "k"); x = sk(c, "x"); nxt = z3.Const("next_state", Ref)
        made(c, n)
        dec = n.base == "ThtsDNode"
        had, old, n0 = kids(e, st, n, n.t, a)
        e.map_dom_fact(st, n.children, a)
        tb = None
        if not dec:
            use = n.m(st, "use_transposition_table"); e.assume(st, use == z3.BoolVal(table))
            tb = e.field_lv("ThtsManager", "dmap", n.mgr)
            ts = n.f(st, "decision_timestep", cls="ThtsCNode")
            key = e.keyterm(tb.sh.args[0], (ts, P(a, "Observation")))
            entry = lambda s, q: (e.leafat(s, tb, ("dom",), (q,)), e.leafat(s, tb, ("val",), (q,)))
            q = z3.Const("q", key.sort()); e.skolems = e.skolems + [q]
            td, tv = entry(st, key)
            live = z3.And(td, tv != Null, z3.Not(e.uf("expired", Ref, Bool)(tv)))
            mx = e.field_lv("ThtsManager", "dmap_mutexes", n.mgr)
            e.assume(st, e.leafat(st, mx, ("len",)) >= 1)
            i = z3.Int("i"); h = lambda s, j: e.leafat(s, mx, ("el", "held"), (j,))
            e.assume(st, z3.Not(h(st, z3.IntVal(0))))
            def access(e, s, lv, write):
                if lv.root == tb.root: e.oblige(s, h(s, z3.IntVal(0)), "the transposition table is used under its mutex", kind="lock", props=("C05", "C07"))
            e.access_check = access
        s0 = st.copy()
        fn = "create_child_node" if wrapper else "create_child_node_itfc"
        args = [P(a, "Action" if dec else "Observation")] + ([P(nxt, "State")] if nargs == 2 else [])
        outs = c.run(st, "%s::%s" % (own(c, cls, fn), fn), n.t, args, cls=cls)
        e.access_check = None
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "creating a child does not fail"); continue
            v = o.v.t; mk = s.ghost.get("made", ())
            d1, c1, n1 = kids(e, s, n, n.t, a)
            c.goal(s, z3.And(d1, c1 == v, v != Null), "afterwards the returned child is present under its key")
            c.goal(s, n1 == n0 + z3.If(had, 0, 1), "the number of children grows by one exactly when the key was absent")
            dk0, ck0, _ = kids(e, s0, n, n.t, k); dk1, ck1, _ = kids(e, s, n, n.t, k)
            c.goal(s, z3.Implies(k != a, z3.And(dk1 == dk0, z3.Implies(dk0, ck1 == ck0))), "all other children are unchanged")
            dx0, cx0, nx0 = kids(e, s0, n, x, k); dx1, cx1, nx1 = kids(e, s, n, x, k)
            c.goal(s, z3.Implies(x != n.t, z3.And(dx1 == dx0, cx1 == cx0, nx1 == nx0)), "no other node's children change")
            c.goal(s, z3.Implies(had, v == old), "an existing child is returned")
            c.goal(s, z3.BoolVal(len(mk) <= 1), "at most one node is made")
            if mk: c.goal(s, z3.And(z3.Not(had), mk[0][1] == a, v == mk[0][0]), "a node is made only for an absent key, and is the child")
            isnew = z3.BoolVal(bool(mk))
            if dec: c.goal(s, z3.Implies(z3.Not(had), isnew), "an absent child is made")
            else:
                d1q, v1q = entry(s, q); d0q, v0q = entry(s0, q); d1k, v1k = entry(s, key)
                if table:
                    c.goal(s, z3.Implies(z3.And(z3.Not(had), live), z3.And(z3.Not(isnew), v == tv)), "a live node of the same timestep and observation is shared")
                    c.goal(s, z3.Implies(z3.And(z3.Not(had), z3.Not(live)), isnew), "without a live node a new one is made")
                    c.goal(s, z3.Implies(z3.And(z3.Not(had)), z3.And(d1k, v1k == v)), "the child can be found in the table by its timestep and observation")
                    c.goal(s, z3.Implies(z3.Or(had, q != key), z3.And(d1q == d0q, z3.Implies(d0q, v1q == v0q))), "no other table entry changes")
                else:
                    c.goal(s, z3.Implies(z3.Not(had), isnew), "without a table nodes are never shared")
                c.goal(s, h(s, i) == h(s0, i), "the table's locks are released", props=("C05",))
        return [o.st for o in outs if o.kind == "ret"]
    return f

def lookup_contract(cls):
    def f(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        a = c.ref(st, "key"); dec = n.base == "ThtsDNode"; kc = "Action" if dec else "Observation"
        had, old, n0 = kids(e, st, n, n.t, a)
        e.map_dom_fact(st, n.children, a)
        exits = []
        for sfx in ("_itfc", ""):
            o1 = c.run(st.copy(), "%s::has_child_node%s" % (own(c, cls, "has_child_node" + sfx), sfx), n.t, [P(a, kc)], cls=cls)
            for o in o1:
                if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "looking for a child does not fail"); continue
                c.goal(o.st, o.v == had, "a child is reported present exactly when it is"); exits.append(o.st)
            s2 = st.copy(); e.assume(s2, had)
            for o in c.run(s2, "%s::get_child_node%s" % (own(c, cls, "get_child_node" + sfx), sfx), n.t, [P(a, kc)], cls=cls):
                if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "a present child can be looked up"); continue
                c.goal(o.st, o.v.t == old, "a lookup returns the child stored under the key"); exits.append(o.st)
        for o in c.run(st.copy(), "%s::get_num_children" % own(c, cls, "get_num_children"), n.t, [], cls=cls):
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "counting does not fail"); continue
            c.goal(o.st, o.v == n0, "the number of children is the number of keys"); exits.append(o.st)
        return exits
    return f

def make_contract(cls):
    """create_child_node_helper_itfc of an algorithm: the new node's place in the tree"""
    def f(c):
        e = c.e; st = c.state(); c.props = e.props = ("C07", "C03"); env_fns(c, True); use_rand(c); quiet_print(c)
        n = uct_node(c, st, "n", cls)
        dec = n.base == "ThtsDNode"
        a = c.ref(st, "key"); nxt = z3.Const("next_state", Ref)
        b = lambda s, o, f, k: (lambda v: v.t if isinstance(v, P) else v)(e.fld(s, o, k, f))
        for fld in ("action",) if not dec else (): e.assume(st, b(st, n.t, fld, n.base) != Null)
        e.assume(st, b(st, n.t, "state", n.base) != Null)
        make_pre(c, st, n)
        if cls == "TentsCNode": c.kk = sk(c, "kk")
        s0 = st.copy()
        args = [P(a, "Action" if dec else "Observation")] + ([] if dec else [P(nxt, "State")])
        outs = c.run(st, "%s::create_child_node_helper_itfc" % own(c, cls, "create_child_node_helper_itfc"), n.t, args, cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "making a child does not fail"); continue
            v = o.v.t; g = lambda f: b(s, v, f, n.cbase); m = lambda f: b(s0, n.t, f, n.base)
            c.goal(s, z3.And(v != Null, e.uf("born", Ref, Int)(v) > 0), "the child is a new node")
            c.goal(s, e.uf("dyncls", Ref, Int)(v) == e.clsid(n.child), "the child is a node of the parent's algorithm")
            c.goal(s, g("thts_manager") == m("thts_manager"), "the child belongs to the same search")
            c.goal(s, g("parent") == n.t, "the child points to its parent")
            if dec:
                c.goal(s, z3.And(g("state") == m("state"), g("action") == a), "a chance node carries the state of its parent and the action")
                dist = b(s, v, "next_state_distr", n.child)
                c.goal(s, dist == e.uf("env_trans", Ref, Ref, Ref, Ref)(n.env, m("state"), a), "a chance node samples from the environment's transition distribution of its state and action", props=("C03", "C07"))
                if not cls.startswith(("Uct", "Puct")):
                    lr = b(s, v, "local_reward", n.child)
                    c.goal(s, lr == e.uf("env_reward", Ref, Ref, Ref, Ref, Real)(n.env, m("state"), a, Null), "a chance node's local reward is the environment's reward of its state and action", props=("C10", "C12"))
                c.goal(s, z3.And(g("decision_depth") == m("decision_depth"), g("decision_timestep") == m("decision_timestep")), "a chance node has the depth and timestep of its parent")
            else:
                c.goal(s, g("state") == a, "a decision node carries the observed state")
                c.goal(s, z3.And(g("decision_depth") == m("decision_depth") + 1, g("decision_timestep") == m("decision_timestep") + 1), "a decision node is one deeper and one later than its parent")
                hf, env = e.fld(s0, n.mgr, "ThtsManager", "heuristic_fn"), n.env
                sink = e.uf("env_sink", Ref, Ref, Bool)(env, a)
                hv = e.uf("apply_real", Int, Ref, Ref, Real)(hf, a, env)
                c.goal(s, g("heuristic_value") == z3.If(z3.And(hf != 0, z3.Not(sink)), hv, 0), "the heuristic value is the heuristic function's, zero at sinks or without one", props=("C03", "C07"))
            if not cls.startswith(("Uct", "Puct")): initial_goals(c, e, s0, s, n, v, b, dec, a)
            c.goal(s, e.leafat(s, e.field_lv(n.cbase, "children", v), ("n",)) == 0, "the child has no children yet")
        return [o.st for o in outs if o.kind == "ret"]
    return f
def initial_goals(c, e, s0, s, n, v, b, dec, key):
    """values and counts a new node of the MENTS family starts with"""
    g = lambda k, f: b(s, v, f, k); is_ = lambda k: e.ty.is_sub(n.child, k)
    if dec:
        c.goal(s, z3.And(g("MentsCNode", "num_backups") == 0, g("MentsCNode", "soft_value") == b(s0, n.mgr, "default_q_value", "MentsManager"), g("ThtsCNode", "num_visits") == 0), "a chance node starts at the default value with no backups", props=("C10",))
        if is_("DPCNode"): c.goal(s, g("DPCNode", "num_backups") == 0, "a chance node starts with no dp backups", props=("C12",))
        if is_("EntCNode"): c.goal(s, z3.And(g("EntCNode", "num_backups") == 0, g("EmpNode", "num_backups") == 0, g("EntCNode", "subtree_entropy") == 0), "a chance node starts with no entropy or empirical backups", props=("C13",))
        return
    hv = b(s, v, "heuristic_value", "ThtsDNode")
    c.goal(s, z3.And(g("MentsDNode", "num_backups") == 0, g("MentsDNode", "soft_value") == hv, g("ThtsDNode", "num_visits") == 0), "a decision node starts at its heuristic value with no backups", props=("C10",))
    if is_("DPDNode"): c.goal(s, z3.And(g("DPDNode", "num_backups") == 1, g("DPDNode", "dp_value") == hv), "a decision node's dp value starts at its heuristic value, counted once", props=("C12",))
    if is_("EmpNode"): c.goal(s, z3.And(g("EmpNode", "num_backups") == 1, g("EmpNode", "avg_return") == hv, g("EntDNode", "num_backups") == 1), "a decision node's empirical value starts at its heuristic value, counted once", props=("C13",))
    if n.child == "TentsDNode":         # class invariant of the two action maps
        k = c.kk; mm, aq = (e.field_lv("TentsDNode", f, v) for f in ("qval_to_act", "act_to_qval"))
        vl = e.heap_lv(Shape("vec", (PTR("Action"),)), b(s, v, "actions", "MentsDNode")); legal = e.leafat(s, vl, ("mem",), (k,))
        at = lambda lv, p: e.leafat(s, lv, (p,), (k,))
        c.goal(s, z3.And(at(mm, "dom") == legal, at(aq, "dom") == legal, z3.Implies(legal, at(mm, "val") == at(aq, "val"))), "both action maps start with exactly the legal actions and equal values", props=("C10", "C11"))
        ln = e.leafat(s, vl, ("len",))
        c.goal(s, z3.And(e.leafat(s, mm, ("n",)) == ln, e.leafat(s, aq, ("n",)) == ln), "both action maps start with one entry per legal action", props=("C10", "C11"))
    # prior pseudo-values: shifted so that their mean is the configured offset
    from contracts.c_ments import log_clip, MSH
    pf, sh = e.fld(s0, n.mgr, "ThtsManager", "prior_fn"), e.fld(s0, n.mgr, "MentsManager", "shift_pseudo_q_values")
    off = g("MentsDNode", "psuedo_q_value_offset")
    c.goal(s, z3.Implies(z3.Or(pf == 0, z3.Not(sh)), off == 0), "pseudo-values are not shifted unless configured", props=("C10",))
    pp = g("MentsDNode", "policy_prior")
    c.goal(s, z3.Implies(pf != 0, pp == e.uf("apply_%s" % PTR(MSH).key(), Int, Ref, Ref, Ref)(pf, key, n.env)), "the prior is the prior function's policy of the node's state", props=("C10", "C11"))
    lv = e.heap_lv(MSH, pp); ka = z3.Const("act", Ref); N = e.leafat(s0, lv, ("n",))
    S = e.pv.set_term(e.pv.set_sum([], ka, log_clip(e.leafat(s0, lv, ("val",), (ka,))), e.leafat(s0, lv, ("dom",), (ka,)), N=N, name="logprior"))
    c.goal(s, z3.Implies(z3.And(pf != 0, sh, N > 0), (b(s0, n.mgr, "psuedo_q_value_offset", "MentsManager") - off) * z3.ToReal(N) == S), "shifted pseudo-values have the configured offset as their mean", props=("C10",))
def make_pre(c, st, n):
    """the constructor's own computations of values and policies are the subject of C10, C11, C13"""
    e = c.e
    def policy(e, s, this, args, node):
        lv = args[0]
        for p in ("dom", "val"):
            key = (lv.root, lv.path + (p,)); a = e.cell(s, *key); ix, so = e.leafinfo(*key)
            s.mem[key] = a.slice(lv.idx, e.fresh_arr(s, "policy", list(ix)[len(lv.idx):], so))
        k = e.fresh(s, "policy_size", Int); e.assume(s, k >= 0); e.setleaf(s, lv, ("n",), (), k)
        return [(s, VOIDV)]
    e.summaries["MentsDNode::compute_action_distribution"] = policy
    if n.base == "ThtsCNode":       # a prior policy covers the legal actions
        msh = Shape("map", (PTR("Action"), REAL)); lv = e.heap_lv(msh, Null); vl = e.heap_lv(Shape("vec", (PTR("Action"),)), Null)
        dom, mem = e.cell(st, lv.root, ("dom",)), e.cell(st, vl.root, ("mem",))
        prior = lambda s: e.uf("apply_%s" % PTR(msh).key(), Int, Ref, Ref, Ref)(e.fld(st, n.mgr, "ThtsManager", "prior_fn"), s, n.env)
        acts = e.uf("env_actions", Ref, Ref, Ref); key = z3.Const("key", Ref)
        st.gens.setdefault(mem.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == acts(n.env, key), mem.sel(tuple(a))), dom.sel((prior(key), a[1])))])

for _c in D_CLASSES + C_CLASSES:
    register("C07", "C03", "C10", "C11", "C12", "C13", name="%s_make_child" % _c)(make_contract(_c))
    register("C07", name="%s_lookup" % _c)(lookup_contract(_c))
register("C07", name="create_child_D")(create_contract("UctDNode", False, 1))
register("C07", "C05", name="create_child_C")(create_contract("UctCNode", False, 2))
register("C07", "C05", name="create_child_C_table")(create_contract("UctCNode", False, 2, True))
for _c in D_CLASSES: register("C07", name="%s_create_child" % _c)(create_contract(_c, True, 1))
for _c in C_CLASSES:
    for _t in (False, True): register("C07", name="%s_create_child%s" % (_c, "_table" if _t else ""))(create_contract(_c, True, 1 if _c in ("UctCNode", "PuctCNode") else 2, _t))

def sample_contract(cls, table):
    """sample_observation_itfc: one draw from the transition distribution; the observation has a child afterwards"""
    def f(c):
        e = c.e; st = c.state(); env_fns(c); quiet_print(c)
        n = uct_node(c, st, "n", cls)
        made(c, n); k = sk(c, "k"); x = sk(c, "x")
        e.assume(st, n.m(st, "use_transposition_table") == z3.BoolVal(table))
        mx = e.field_lv("ThtsManager", "dmap_mutexes", n.mgr)
        e.assume(st, e.leafat(st, mx, ("len",)) >= 1); e.assume(st, z3.Not(e.leafat(st, mx, ("el", "held"), (z3.IntVal(0),))))
        dp = n.f(st, "next_state_distr"); e.assume(st, dp != Null)
        ob = z3.Const("drawn", Ref); e.assume(st, ob != Null)
        def smp(e, s, this, args, node):
            lv = args[0]
            e.oblige(s, z3.And(lv.idx[0] == dp, z3.BoolVal(not s.ghost.get("drawn")), z3.BoolVal(len(args) < 3 or args[2] == "default" or z3.is_true(z3.simplify(e.t(e.rv(s, args[2])))))),
                     "the observation is one draw from the transition distribution", kind="pre", props=("C03", "C07"))
            e.assume(s, z3.And(e.leafat(s, lv, ("dom",), (ob,)), e.leafat(s, lv, ("val",), (ob,)) > 0))
            s.ghost["drawn"] = True
            return [(s, P(ob, "State"))]
        e.summaries["sample_from_distribution"] = smp
        e.map_dom_fact(st, n.children, ob)
        had, old, n0 = kids(e, st, n, n.t, ob); s0 = st.copy()
        nv0 = n.f(st, "num_visits")
        outs = c.run(st, "%s::sample_observation_itfc" % own(c, cls, "sample_observation_itfc"), n.t, [ctx_arg(c, st)], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "sampling does not fail"); continue
            d1, c1, n1 = kids(e, s, n, n.t, ob)
            c.goal(s, z3.And(z3.BoolVal(bool(s.ghost.get("drawn"))), o.v.t == ob), "the observation returned is the one drawn")
            c.goal(s, z3.And(d1, c1 != Null), "the observation has a child afterwards")
            c.goal(s, z3.And(n1 == n0 + z3.If(had, 0, 1), z3.Implies(had, c1 == old)), "a child is created exactly when the observation had none")
            dk0, ck0, _ = kids(e, s0, n, n.t, k); dk1, ck1, _ = kids(e, s, n, n.t, k)
            c.goal(s, z3.Implies(k != ob, z3.And(dk1 == dk0, z3.Implies(dk0, ck1 == ck0))), "all other children are unchanged")
            c.goal(s, n.f(s, "num_visits") == nv0, "sampling is not a visit")
        return [o.st for o in outs if o.kind == "ret"]
    return f
for _c in C_CLASSES:
    for _t in (False, True): register("C03", "C07", name="%s_sample%s" % (_c, "_table" if _t else ""))(sample_contract(_c, _t))
