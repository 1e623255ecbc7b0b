"""C10, C11: soft-max backups and search policies of the MENTS family."""
from contracts.lib import *
from contracts.world import *
from cdv.prover import LOWEST
from contracts.c_uct import own, frame_other, prior_setup, locks_back

def sif(c, a, b):
    c = z3.simplify(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else z3.If(c, a, b)

def log_clip(w):
    """log of a prior weight clipped to [-32, 32]"""
    big = "1" + "0" * 32
    return z3.If(w >= z3.RealVal(big), z3.RealVal(32), z3.If(w > z3.RealVal("1/" + big), log_(w), z3.RealVal(-32)))

def opp_of(n, s): return sif(z3.And(n.m(s, "is_two_player_game"), n.f(s, "decision_timestep") % 2 == 1), z3.RealVal(-1), z3.RealVal(1))

def temp_formula(n, s, pre="temp", init=None, mn=None):
    fn = n.m(s, pre + "_decay_fn")
    root = n.m(s, pre + "_decay_root_node_visits_scale")
    par = n.f(s, "parent")
    sc = z3.If(z3.And(par == Null, root > 0), root, n.m(s, pre + "_decay_visits_scale"))
    return fn, sc

def use_temp(c, st, n):
    """the node's temperature: a positive real fixed by its visits and the configuration (contract get_temp, C22)"""
    e = c.e
    T = z3.Real("temp_of_node")
    e.assume(st, T > 0)
    n.temp_used = False
    def sm(e, s, this, args, node):
        if not this.t.eq(n.t): return None
        n.temp_used = True
        return [(s, T)]
    for k in ("MentsDNode", "DentsDNode"):
        e.summaries[k + "::get_temp"] = sm
    return T

def soft_q(c, n, s, k, opp, prior):
    """soft value of legal action k as documented for MENTS, RENTS, TENTS"""
    return z3.If(n.has(k), n.cf(s, "soft_value", k) * opp,
                 sif(prior, log_clip(n.priorp(k)) + n.f(s, "psuedo_q_value_offset"), n.m(s, "default_q_value") * opp))

CASES = [(p, t) for p in ("noprior", "prior") for t in ("single", "own", "opponent")]
def case_setup(c, st, n, case):
    """one case of the contract: whether a prior is configured, whose turn it is (a player's turn is its timestep's parity)"""
    e = c.e
    if case is None: return
    pr, turn = case
    if pr != "any": e.write(st, e.field_lv("ThtsManager", "prior_fn", n.mgr), z3.IntVal(0 if pr == "noprior" else 1))
    e.write(st, e.field_lv("ThtsManager", "is_two_player_game", n.mgr), z3.BoolVal(turn != "single"))
    if turn != "single":
        e.write(st, e.field_lv(n.base, "decision_timestep", n.t), 2 * z3.Int("turn") + (1 if turn == "opponent" else 0))

QFN = ("MentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode", "RentsDNode", "TentsDNode")
def opaque_q(c, st, n, spec):
    """action values through the contract of get_soft_q_value (contract *_soft_q): qv(k, sign); falls back to the definition when the
    function is not called any more"""
    e = c.e
    qv = e.uf("softq", Ref, Real, Real)
    n.q_used = False
    def sm(e, s, this, args, node):
        if this is None or not this.t.eq(n.t): return None
        n.q_used = True
        a = e.t(e.rv(s, args[0])); op = e.coerce(e.t(e.rv(s, args[1])), Real)
        e.oblige(s, n.isaction(a), "action values are asked for legal actions", kind="pre")
        n.need_own(s, "action values")
        e.oblige(s, z3.Implies(n.has(a), n.held_of(s, n.cbase, n.ch(a))), "a child is locked while its value is read", kind="lock", props=("C05",))
        return [(s, qv(a, z3.simplify(op)))]
    for k in QFN: e.summaries[k + "::get_soft_q_value"] = sm
    def define(states):
        if n.q_used: return
        for s in states: s.gens.setdefault("softq", []).append(lambda a: [qv(*a) == spec(a[0], a[1])])
    n.q_define = define
    return lambda k, op: qv(k, op)

def ments_pre(c, cls, case=None):
    e = c.e; st = c.state(); env_fns(c); use_rand(c)
    n = uct_node(c, st, "n", cls)
    case_setup(c, st, n, case)
    n.actions(st)
    n.prior = prior_setup(c, st, n)
    e.assume(st, n.f(st, "num_visits") >= 0)
    n.T = use_temp(c, st, n)
    use_child_locks(c, n)
    return st, n

def action_sum(c, n, h, name):
    """SUM over the legal actions of h(k)"""
    xb = z3.Const("act_" + name, Ref)
    s = c.e.pv.set_sum([], xb, h(xb), n.isaction(xb), N=n.alen, name=name)
    return c.e.pv.set_term(s)

def dbackup(cls, case):
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, case)
        k = sk(c, "k"); x = sk(c, "x")
        nb0 = n.f(st, "num_backups"); e.assume(st, nb0 >= 0)
        vs, r, r2 = rewards_args(c, st)
        s0 = st.copy()
        opp = opp_of(n, s0)
        qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, s0, a, op, n.prior))
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        S = action_sum(c, n, lambda a: exp_(qv(a, opp) / n.T), "lse")
        n.q_define([o.st for o in outs])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            c.goal(s, n.f(s, "num_backups") == nb0 + 1, "a backup raises the backup count by one")
            c.goal(s, n.f(s, "soft_value") == opp * n.T * log_(S), "soft value is the temperature-scaled log-sum-exp")
            frame_other(c, s0, s, cls, x, n.t, ("num_backups", "soft_value", "num_visits"))
            frame_other(c, s0, s, n.child, x, Null, ("num_backups", "soft_value", "num_visits"))
            c.goal(s, n.f(s, "num_visits") == n.f(s0, "num_visits"), "a backup is not a visit")
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn

def softq_contract(cls, case, spec):
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, case)
        k = sk(c, "k"); op = z3.Real("sign")
        e.assume(st, n.isaction(k)); e.assume(st, z3.Or(op == 1, op == -1)); n.children_locked(st)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "get_soft_q_value") + "::get_soft_q_value", n.t, [P(k, "Action"), op], cls=cls)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "the value of a legal action is defined"); continue
            c.goal(o.st, e.t(o.v) == spec(c, n, s0, k, op, n.prior), "soft action value: child's value for the player, prior pseudo-value or default value")
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c in ("MentsDNode", "RentsDNode", "TentsDNode"):
    register("C10", name="%s_soft_q" % _c)(softq_contract(_c, None, soft_q))

def cbackup(cls):
    def fn(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        use_child_locks(c, n)
        x = sk(c, "x")
        nb0 = n.f(st, "num_backups")
        cnb = e.field_lv(e.find_field(n.child, "num_backups")[0] if isinstance(e.find_field(n.child, "num_backups"), tuple) else "MentsDNode", "num_backups", Null)
        cell = e.cell(st, cnb.root, ())
        st.gens.setdefault(cell.decl.name(), []).append(lambda a: [cell.sel(tuple(a)) >= 0])
        vs, r, r2 = rewards_args(c, st)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        kb = z3.Const("obs", Ref)
        nb = lambda k: z3.ToReal(n.cf(s0, "num_backups", k))
        W = e.pv.set_term(e.pv.set_sum([], kb, nb(kb), n.has(kb), N=n.n0, name="W"))
        V = e.pv.set_term(e.pv.set_sum([], kb, nb(kb) * n.cf(s0, "soft_value", kb), n.has(kb), N=n.n0, name="V"))
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            c.goal(s, n.f(s, "num_backups") == nb0 + 1, "a backup raises the backup count by one")
            c.goal(s, z3.Implies(W > 0, (n.f(s, "soft_value") - n.f(s0, "local_reward")) * W == V), "soft value is local reward plus backup-weighted mean of backed-up children")
            frame_other(c, s0, s, cls, x, n.t, ("num_backups", "soft_value", "num_visits"))
            frame_other(c, s0, s, n.child, x, Null, ("num_backups", "soft_value", "num_visits"))
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn

TURNS = [("any", t) for t in ("single", "own", "opponent")]
for _k in TURNS:
    register("C10", "C05", name="MentsDNode_backup_%s_%s" % _k)(dbackup("MentsDNode", _k))
register("C10", "C05", name="MentsCNode_backup")(cbackup("MentsCNode"))

# ------------------------------------------------------------------ RENTS
def parent_policy(c, st, n):
    """the parent's search policy as stored in the trial context: 1 at depth 0, otherwise the stored probability or 0"""
    e = c.e
    msh = Shape("map", (PTR("Action"), REAL))
    ctx = ctx_arg(c, st)
    depth = n.f(st, "decision_depth")
    e.assume(st, depth >= 0)
    ck = e.field_lv("ThtsEnvContext", "context", ctx.t)
    key = e.t(e.fld(st, n.t, "RentsDNode", "_parent_distr_key"))
    pd = e.leafat(st, ck, ("val",), (key,))
    e.assume(st, z3.Implies(depth >= 1, z3.And(e.leafat(st, ck, ("dom",), (key,)), pd != Null)))
    lv = e.heap_lv(msh, pd)
    dom, val = e.cell(st, lv.root, ("dom",)), e.cell(st, lv.root, ("val",))
    st.gens.setdefault(val.decl.name(), []).append(lambda a: [z3.Implies(z3.And(depth >= 1, a[0] == pd), val.sel(tuple(a)) >= 0)])
    return ctx, lambda k: z3.If(depth < 1, z3.RealVal(1), z3.If(dom.sel((pd, k)), val.sel((pd, k)), z3.RealVal(0)))

def max_q(c, st, n, q):
    """M = max over the legal actions of q(k)/T"""
    e = c.e; M = z3.Real("max_q_over_temp"); w = z3.Const("maxq_witness", Ref)
    mem = e.cell(st, n.alv.root, ("mem",)); ap = n.f(st, "actions")
    st.gens.setdefault(mem.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == ap, mem.sel(tuple(a))), q(a[1]) / n.T <= M)])
    e.assume(st, z3.And(n.isaction(w), M == q(w) / n.T, M >= LOWEST))
    return M

EPS = z3.RealVal("1/1" + "0" * 16)
def rents_backup(case):
    cls = "RentsDNode"
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, case)
        k = sk(c, "k"); x = sk(c, "x")
        nb0 = n.f(st, "num_backups"); e.assume(st, nb0 >= 0)
        ctx, pp = parent_policy(c, st, n)
        vs, r, r2 = rewards_args(c, st)
        opp = opp_of(n, st); sq = st.copy()
        qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, sq, a, op, n.prior))
        q = lambda a: qv(a, opp)
        M = max_q(c, st, n, q)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx], cls=cls)
        S = action_sum(c, n, lambda a: exp_(q(a) / n.T) * pp(a), "lse")
        n.q_define([o.st for o in outs])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            c.goal(s, n.f(s, "num_backups") == nb0 + 1, "a backup raises the backup count by one")
            vanish = S * exp_(-M) < EPS
            c.goal(s, z3.Implies(z3.Not(vanish), n.f(s, "soft_value") == opp * n.T * log_(S)), "soft value is the log-sum-exp weighted by the parent's policy")
            c.goal(s, z3.Implies(vanish, n.f(s, "soft_value") == opp * n.T * M), "with vanishing weights the soft value is the largest action value")
            frame_other(c, s0, s, cls, x, n.t, ("num_backups", "soft_value", "num_visits"))
            frame_other(c, s0, s, n.child, x, Null, ("num_backups", "soft_value", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _k in TURNS:
    register("C10", name="RentsDNode_backup_%s_%s" % _k)(rents_backup(_k))

# ------------------------------------------------------------------ search policies (C11)
MSH = Shape("map", (PTR("Action"), REAL))
def weights_contract(cls, case):
    """compute_action_weights: one non-negative weight per legal action, their exact positive sum, proportional to the documented weights"""
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, case)
        k = sk(c, "k")
        opp = opp_of(n, st); sq = st.copy()
        qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, sq, a, op, n.prior))
        q = lambda a: qv(a, opp)
        if cls == "RentsDNode": ctx, pp = parent_policy(c, st, n)
        else: ctx, pp = ctx_arg(c, st), (lambda a: z3.RealVal(1))
        M = max_q(c, st, n, q)
        w = e.var_lv(st, "weights", MSH); e.write(st, w, empty_cont(MSH))
        sw, nt = e.var_lv(st, "sumw", REAL), e.var_lv(st, "normt", REAL)
        n.children_locked(st)
        x = sk(c, "x"); s0 = st.copy()
        outs = c.run(st, own(c, cls, "compute_action_weights") + "::compute_action_weights", n.t, [w, sw, nt, ctx], cls=cls)
        S = action_sum(c, n, lambda a: exp_(q(a) / n.T) * pp(a) if cls == "RentsDNode" else exp_(q(a) / n.T), "lse")
        n.q_define([o.st for o in outs])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "action weights are defined"); continue
            W = e.t(e.read(s, sw)); dom, val = e.cell(s, w.root, ("dom",)), e.cell(s, w.root, ("val",))
            c.goal(s, dom.sel((k,)) == n.isaction(k), "exactly the legal actions have a weight")
            c.goal(s, z3.Implies(n.isaction(k), val.sel((k,)) >= 0), "weights are not negative")
            gs = W == action_sum(c, n, lambda a: val.sel((a,)), "sumw")
            if cls == "RentsDNode": gs = z3.And(gs, action_sum(c, n, lambda a: 1 / z3.ToReal(n.alen), "uniform") == 1)     # names the uniform sum of the fallback
            c.goal(s, gs, "the reported sum is the sum of the weights")
            c.goal(s, W > 0, "the weights do not all vanish")
            vanish = S * exp_(-M) < EPS if cls == "RentsDNode" else z3.BoolVal(False)
            wt = exp_(q(k) / n.T) * pp(k) if cls == "RentsDNode" else exp_(q(k) / n.T)
            c.goal(s, z3.Implies(z3.And(n.isaction(k), z3.Not(vanish)), val.sel((k,)) * S == W * wt), "weights are proportional to the documented policy")
            if cls == "RentsDNode":
                y = sk(c, "y")
                c.goal(s, z3.Implies(z3.And(n.isaction(k), n.isaction(y), vanish), val.sel((k,)) == val.sel((y,))), "uniform when all weights vanish")
            frame_other(c, s0, s, cls, x, Null, ("num_backups", "soft_value", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c in ("MentsDNode", "RentsDNode"):
    for _k in TURNS: register("C11", name="%s_weights_%s_%s" % ((_c,) + _k))(weights_contract(_c, _k))

def weights_summary(c, st, n):
    """contract of compute_action_weights: weights w(k) >= 0 on the legal actions, W = their sum > 0"""
    e = c.e
    wf = e.uf("weight", Ref, Real); W = z3.Real("weight_sum")
    n.S_w = action_sum(c, n, lambda a: wf(a), "w")
    e.assume(st, z3.And(W > 0, W == n.S_w))
    st.gens.setdefault("weight", []).append(lambda a: [z3.Implies(n.isaction(a[0]), wf(a[0]) >= 0)])
    def sm(e, s, this, args, node):
        if this is None or not this.t.eq(n.t): return None
        e.oblige(s, e.leafat(s, args[0], ("n",)) == 0, "weights are computed into an empty map", kind="pre")
        n.need_own(s, "its action weights"); n.need_children_locked(s, "the node's action weights")
        fresh = e.fresh(s, "normt", Real)
        lv = args[0]
        e.write(s, lv, empty_cont(lv.sh))
        old = {p: e.cell(s, lv.root, lv.path + p) for p in (("dom",), ("val",), ("n",))}
        assert not lv.idx or len(lv.idx) == 1
        pre = lv.idx
        s.mem[(lv.root, lv.path + ("dom",))] = LamA(lambda *ix, o=old[("dom",)]: n.isaction(ix[-1]) if not pre else z3.If(ix[0] == pre[0], n.isaction(ix[-1]), o.sel(ix)))
        s.mem[(lv.root, lv.path + ("val",))] = LamA(lambda *ix, o=old[("val",)]: wf(ix[-1]) if not pre else z3.If(ix[0] == pre[0], wf(ix[-1]), o.sel(ix)))
        e.setleaf(s, lv, ("n",), (), n.alen)
        e.assign(s, args[1], W); e.assign(s, args[2], fresh)
        return [(s, VOIDV)]
    for k in ("MentsDNode", "RentsDNode", "TentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode"):
        e.summaries[k + "::compute_action_weights"] = sm
    return wf, W

def distr_contract(cls, root, mix, exp, cap=False):
    """compute_action_distribution: the documented mixture on every legal action, near-zero entries dropped"""
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, None)
        k = sk(c, "k"); x = sk(c, "x")
        node_depth(c, st, n, root)
        pw = n.m(st, "prior_policy_search_weight")
        if not mix: e.write(st, e.field_lv("MentsManager", "prior_policy_search_weight", n.mgr), z3.RealVal(0)); pw = z3.RealVal(0)
        wf, W = weights_summary(c, st, n)
        nv = z3.ToReal(n.f(st, "num_visits"))
        eps, reps, mx = n.m(st, "epsilon"), n.m(st, "root_node_epsilon"), n.m(st, "max_explore_prob")
        # configuration: 0 <= max exploration <= 1; the distribution is only sampled from after the node was visited
        e.assume(st, z3.And(0 <= mx, mx <= 1, n.f(st, "num_visits") >= 1))
        l = z3.RealVal(0)
        if exp == "off": e.assume(st, z3.And(eps <= 0, *([reps <= 0] if root else [])))
        else:
            ex = eps
            if exp == "root": e.assume(st, reps > 0); ex = reps
            else: e.assume(st, z3.And(eps > 0, *([reps <= 0] if root else [])))
            l0 = ex / log_(nv + 1); e.assume(st, (l0 > mx) if cap else (l0 <= mx))
            l = mx if cap else l0
        m = z3.RealVal(0)
        if mix:
            e.assume(st, z3.And(n.prior, pw > 0, pw <= log_(z3.RealVal(3))))
            m = pw / log_(nv + 3)
            e.assume(st, action_sum(c, n, n.priorp, "prior") == 1)
            plv = e.heap_lv(MSH, n.f(st, "policy_prior")); pv_ = e.cell(st, plv.root, ("val",)); pp = n.f(st, "policy_prior")
            st.gens.setdefault(pv_.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == pp, n.isaction(a[1])), pv_.sel(tuple(a)) >= 0)])
        d = e.var_lv(st, "distr", MSH); e.write(st, d, empty_cont(MSH))
        s0 = st.copy()
        na = z3.ToReal(n.alen)
        def p(a, l=l, m=m):
            base = wf(a) / W
            if mix: base = (1 - m) * base + m * n.priorp(a)
            return (1 - l) * base + l / na if exp != "off" else base
        outs = c.run(st, own(c, cls, "compute_action_distribution") + "::compute_action_distribution", n.t, [d, ctx_arg(c, st)], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "the policy is defined"); continue
            dom, val = e.cell(s, d.root, ("dom",)), e.cell(s, d.root, ("val",))
            rng = z3.And(0 <= l, l <= 1, *([0 <= m, m <= 1] if mix else []))
            if exp != "off" or mix: c.goal(s, rng, "mixture weights lie in [0,1]")
            L, M = z3.Reals("lam mu")
            c.goal(s, z3.Implies(z3.And(0 <= L, L <= 1, 0 <= M, M <= 1, wf(k) >= 0, W > 0, na > 0, *([n.priorp(k) >= 0] if mix else [])), z3.Implies(n.isaction(k), p(k, L, M) >= 0)), "no probability is negative",
                   hints=[z3.BoolVal(True)])
            c.goal(s, z3.Implies(dom.sel((k,)), n.isaction(k)), "only legal actions have probability")
            hs = []
            if mix and exp != "off":
                hs = c.lemma(s, z3.Implies(n.isaction(k), val.sel((k,)) == p(k)), "the mixture before dropping entries")
                if hs: hs = hs + c.lemma(s, z3.Implies(n.isaction(k), dom.sel((k,)) == (val.sel((k,)) >= EPS)), "entries below the threshold are dropped")
            c.goal(s, z3.Implies(z3.And(n.isaction(k), dom.sel((k,))), val.sel((k,)) == p(k)), "each probability is the documented mixture", hints=hs)
            c.goal(s, z3.Implies(n.isaction(k), dom.sel((k,)) == (p(k) >= EPS)), "exactly the numerically zero entries are dropped", hints=hs)
            frame_other(c, s0, s, cls, x, Null, ("num_backups", "soft_value", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn
def node_depth(c, st, n, root):
    e = c.e
    if root: e.write(st, e.field_lv(n.base, "decision_depth", n.t), z3.IntVal(0))
    else: e.assume(st, n.f(st, "decision_depth") > 0)
for _m in (True, False):
    for _r, _e in ((True, "off"), (True, "root"), (True, "own"), (False, "off"), (False, "own")):
        for _cap in ((False, True) if _e != "off" else (False,)):
            register("C11", name="MentsDNode_distribution_%s_%s_%s%s" % ("root" if _r else "inner", "prior" if _m else "noprior", _e, "_cap" if _cap else ""))(distr_contract("MentsDNode", _r, _m, _e, _cap))
