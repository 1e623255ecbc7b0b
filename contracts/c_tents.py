"""C10, C11: the sorted action maps of TENTS, its sparse action set, sparse-max backup and policy weights."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own, frame_other, locks_back
from contracts.c_ments import *

CLS = "TentsDNode"
VSH = Shape("vec", (PTR("Action"),))
class Maps:
    """the two maps between legal actions and action values (over temperature); their agreement is the class invariant"""
    def __init__(self, c, st, n, invariant=True):
        e = c.e; self.e, self.n = e, n
        self.mm, self.aq = (e.field_lv(CLS, f, n.t) for f in ("qval_to_act", "act_to_qval"))
        if invariant:
            cells = [(lv, p) for lv in (self.mm, self.aq) for p in ("dom", "val")]
            s0 = st.copy()
            for lv, p in cells:
                d = e.cell(st, lv.root, lv.path + (p,)).decl.name()
                st.gens.setdefault(d, []).append(lambda a: [self.inv(s0, a[1])] if a[0].eq(n.t) else [])
            e.assume(st, z3.And(e.leafat(st, self.mm, ("n",)) == n.alen, e.leafat(st, self.aq, ("n",)) == n.alen))
        self.d0 = e.cell(st, self.mm.root, self.mm.path + ("dom",))
        e.map_order(st, self.mm)
    def dom(self, s, lv, k): return self.e.leafat(s, lv, ("dom",), (k,))
    def val(self, s, lv, k): return self.e.leafat(s, lv, ("val",), (k,))
    def inv(self, s, k):
        m, a, n = self.mm, self.aq, self.n
        return z3.And(self.dom(s, m, k) == n.isaction(k), self.dom(s, a, k) == n.isaction(k), z3.Implies(n.isaction(k), self.val(s, m, k) == self.val(s, a, k)))
    def goals(self, c, s, k):
        e = self.e
        c.goal(s, z3.And(self.dom(s, self.mm, k) == self.n.isaction(k), self.dom(s, self.aq, k) == self.n.isaction(k)), "both maps hold exactly the legal actions")
        c.goal(s, z3.Implies(self.n.isaction(k), self.val(s, self.mm, k) == self.val(s, self.aq, k)), "both maps agree on every action's value")
        c.goal(s, z3.And(e.leafat(s, self.mm, ("n",)) == self.n.alen, e.leafat(s, self.aq, ("n",)) == self.n.alen), "both maps have one entry per legal action")

def tents_pre(c, case=None):
    st, n = ments_pre(c, CLS, case)
    return st, n, Maps(c, st, n)

def update_maps(c):
    e = c.e; st, n, mp = tents_pre(c); c.props = e.props = ("C10", "C11")
    k = sk(c, "k"); a = z3.Const("updated", Ref); q = z3.Real("new_q"); x = sk(c, "x")
    e.skolems = e.skolems + [a]
    e.assume(st, z3.And(a != Null, n.isaction(a)))
    e.map_dom_fact(st, mp.mm, a)
    o = e.map_order(st, mp.mm); e.mm_anchor(st, mp.mm, o[1].sel((a,)))
    s0 = st.copy()
    outs = c.run(st, CLS + "::update_maps", n.t, [P(a, "Action"), q], cls=CLS)
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "updating an action's value does not fail"); continue
        mp.goals(c, s, k)
        c.goal(s, mp.val(s, mp.aq, a) == q, "the action has its new value")
        c.goal(s, z3.Implies(z3.And(k != a, n.isaction(k)), mp.val(s, mp.aq, k) == mp.val(s0, mp.aq, k)), "the values of all other actions are unchanged")
        frame_other(c, s0, s, CLS, x, Null, ("num_backups", "soft_value", "num_visits"))
    return [o.st for o in outs if o.kind == "ret"]
register("C10", "C11", "C05", name="TentsDNode_update_maps")(update_maps)

def selected(c, st, n):
    """the action the trial selected at this node, stored in the trial's context"""
    e = c.e; ctx = ctx_arg(c, st)
    ck = e.field_lv("ThtsEnvContext", "context_const", ctx.t)
    key = e.t(e.fld(st, n.t, CLS, "_selected_action_key"))
    a = e.leafat(st, ck, ("val",), (key,))
    e.assume(st, z3.And(e.leafat(st, ck, ("dom",), (key,)), a != Null, n.isaction(a)))
    return ctx, a

def tents_backup(case):
    def fn(c):
        e = c.e; st, n, mp = tents_pre(c, case); c.props = e.props = ("C10",)
        k = sk(c, "k"); x = sk(c, "x")
        nb0 = n.f(st, "num_backups"); e.assume(st, nb0 >= 0)
        ctx, a = selected(c, st, n)
        vs, r, r2 = rewards_args(c, st)
        s0 = st.copy()
        opp = opp_of(n, s0)
        qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, s0, a, op, n.prior))
        newq = lambda y: z3.If(y == a, qv(a, opp) / n.T, mp.val(s0, mp.aq, y))
        SP = z3.Real("spmax_of_updated_values")
        def sm_update(e, s, this, args, node):
            if this is None or not this.t.eq(n.t): return None
            n.need_own(s, "updating its action values")
            b, q = e.t(e.rv(s, args[0])), e.coerce(e.t(e.rv(s, args[1])), Real)
            e.oblige(s, n.isaction(b), "only values of legal actions are updated", kind="pre")
            for lv in (mp.mm, mp.aq):
                key = (lv.root, lv.path + ("val",)); old = e.cell(s, *key)
                s.mem[key] = old.store((n.t, b), q)
            return [(s, VOIDV)]
        def sm_spmax(e, s, this, args, node):
            if this is None or not this.t.eq(n.t): return None
            n.need_own(s, "its backed-up value")
            e.oblige(s, z3.Implies(n.isaction(k), mp.val(s, mp.aq, k) == newq(k)), "the selected action's stored value is brought up to date before the backup, all others are kept", kind="pre", props=("C10",))
            return [(s, SP)]
        e.summaries[CLS + "::update_maps"] = sm_update
        e.summaries[CLS + "::spmax"] = sm_spmax
        outs = c.run(st, own(c, CLS, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx], cls=CLS)
        n.q_define([o.st for o in outs])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            c.goal(s, n.f(s, "num_backups") == nb0 + 1, "a backup raises the backup count by one")
            c.goal(s, n.f(s, "soft_value") == opp * n.T * SP, "soft value is the temperature-scaled sparse maximum")
            c.goal(s, z3.Implies(n.isaction(k), mp.val(s, mp.aq, k) == newq(k)), "the selected action's stored value is up to date, all others are kept")
            frame_other(c, s0, s, CLS, x, n.t, ("num_backups", "soft_value", "num_visits"))
            frame_other(c, s0, s, n.child, x, Null, ("num_backups", "soft_value", "num_visits"))
            c.goal(s, n.f(s, "num_visits") == n.f(s0, "num_visits"), "a backup is not a visit")
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _k in TURNS:
    register("C10", "C05", name="TentsDNode_backup_%s_%s" % _k)(tents_backup(_k))

def rank_order(c, st, mp):
    """the actions in descending order of their stored values: action at rank i, rank of an action"""
    e = c.e
    ordA, idxA, domv, n = e.map_order(st, mp.mm)
    return (lambda i: ordA.sel((n - 1 - i,))), (lambda a: n - 1 - idxA.sel((a,))), n

def sparse_set(c):
    e = c.e; st, n, mp = tents_pre(c); c.props = e.props = ("C10", "C11")
    k = sk(c, "k"); x = sk(c, "x")
    e.assume(st, n.isaction(k)); e.map_dom_fact(st, mp.mm, k)
    at, rank, N = rank_order(c, st, mp)
    top = at(z3.IntVal(0)); e.skolems = e.skolems + [top]
    s0 = st.copy()
    outs = c.run(st, CLS + "::get_sparse_action_set", n.t, [], cls=CLS)
    b = z3.Int("rk")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "the sparse action set is defined"); continue
        lv = e.heap_lv(VSH, o.v.t)
        mem = lambda y: e.leafat(s, lv, ("mem",), (y,))
        q = lambda y: mp.val(s0, mp.aq, y)
        prefix = e.pv.idx_sum([], b, q(at(b)), name="prefix").decl
        c.goal(s, mem(k) == (1 + z3.ToReal(rank(k) + 1) * q(k) > prefix(rank(k) + 1)), "the sparse set: actions a of rank r with 1 + r q(a) > sum of the r largest values")
        c.goal(s, z3.Implies(mem(x), n.isaction(x)), "only legal actions are in the sparse set")
        c.goal(s, e.leafat(s, lv, ("nd",)), "no action is in the sparse set twice")
        hs = c.lemma(s, mem(top), "an action of largest value is in the sparse set")
        c.goal(s, e.leafat(s, lv, ("len",)) > 0, "the sparse set is not empty")
    return [o.st for o in outs if o.kind == "ret"]
register("C10", "C11", name="TentsDNode_sparse_set")(sparse_set)

def sparse_summary(c, st, n):
    """contract of get_sparse_action_set: a non-empty, duplicate-free list of legal actions (membership: contract TentsDNode_sparse_set)"""
    e = c.e
    inS = e.uf("in_sparse_set", Ref, Bool); at = e.uf("sparse_at", Int, Ref); pos = e.uf("sparse_pos", Ref, Int); nS = z3.Int("sparse_size")
    e.assume(st, nS >= 1)
    st.gens.setdefault("in_sparse_set", []).append(lambda a: [z3.Implies(inS(a[0]), n.isaction(a[0]))])
    st.gens.setdefault("in_sparse_set", []).append(lambda a: [] if a[0].decl().name() == "sparse_at" else [z3.Implies(inS(a[0]), z3.And(0 <= pos(a[0]), pos(a[0]) < nS, at(pos(a[0])) == a[0]))])
    st.gens.setdefault("sparse_at", []).append(lambda a: [] if a[0].decl().name() == "sparse_pos" else [z3.Implies(z3.And(0 <= a[0], a[0] < nS), z3.And(inS(at(a[0])), pos(at(a[0])) == a[0], at(a[0]) != Null))])
    def sm(e, s, this, args, node):
        if this is None or not this.t.eq(n.t): return None
        n.need_own(s, "its sparse action set")
        r = e.new_ref(s, VSH)
        lv = e.heap_lv(VSH, r)
        for p, f in ((("mem",), lambda ix: inS(ix[-1])), (("el",), lambda ix: at(ix[-1])), (("pos",), lambda ix: pos(ix[-1]))):
            key = (lv.root, lv.path + p); old = e.cell(s, *key)
            s.mem[key] = LamA(lambda *ix, o=old, f=f: z3.If(ix[0] == r, f(ix), o.sel(ix)))
        e.setleaf(s, lv, ("len",), (), nS); e.setleaf(s, lv, ("nd",), (), z3.BoolVal(True))
        return [(s, P(r, VSH))]
    e.summaries[CLS + "::get_sparse_action_set"] = sm
    return inS, nS

def sparse_sum(c, inS, nS, h, name):
    xb = z3.Const("sp_" + name, Ref)
    return c.e.pv.set_term(c.e.pv.set_sum([], xb, h(xb), inS(xb), N=nS, name=name))

def spmax(c):
    e = c.e; st, n, mp = tents_pre(c); c.props = e.props = ("C10",)
    k = sk(c, "k"); x = sk(c, "x")
    inS, nS = sparse_summary(c, st, n)
    s0 = st.copy()
    outs = c.run(st, CLS + "::spmax", n.t, [], cls=CLS)
    q = lambda y: mp.val(s0, mp.aq, y)
    A = sparse_sum(c, inS, nS, q, "q"); m = z3.ToReal(nS)
    ct = z3.RealVal("1/2") * ((A - 1) * (A - 1)) / (m * m)
    C = sparse_sum(c, inS, nS, lambda y: q(y) * q(y) / 2 - ct, "spmax")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "the sparse maximum is defined"); continue
        c.goal(s, e.t(o.v) == z3.RealVal("1/2") + C, "the sparse maximum: 1/2 + sum over the sparse set of q^2/2 - ((sum q - 1)/|S|)^2/2")
        frame_other(c, s0, s, CLS, x, Null, ("num_backups", "soft_value", "num_visits"))
    return [o.st for o in outs if o.kind == "ret"]
register("C10", name="TentsDNode_spmax")(spmax)

def tents_weights(case):
    def fn(c):
        e = c.e; st, n, mp = tents_pre(c, case); c.props = e.props = ("C11",)
        k = sk(c, "k"); x = sk(c, "x"); y = sk(c, "y")
        opp = opp_of(n, st); sq = st.copy()
        qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, sq, a, op, n.prior))
        q = lambda a: qv(a, opp) / n.T
        inS, nS = sparse_summary(c, st, n)
        w = e.var_lv(st, "weights", MSH); e.write(st, w, empty_cont(MSH))
        sw, nt = e.var_lv(st, "sumw", REAL), e.var_lv(st, "normt", REAL)
        n.children_locked(st)
        s0 = st.copy()
        outs = c.run(st, own(c, CLS, "compute_action_weights") + "::compute_action_weights", n.t, [w, sw, nt, ctx_arg(c, st)], cls=CLS)
        A = sparse_sum(c, inS, nS, q, "q")
        common = (A - 1) / z3.ToReal(nS)
        doc = lambda a: z3.If(q(a) - common < 0, z3.RealVal(0), q(a) - common)
        S = action_sum(c, n, doc, "docw")
        n.q_define([o.st for o in outs])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "action weights are defined"); continue
            W = e.t(e.read(s, sw)); dom, val = e.cell(s, w.root, ("dom",)), e.cell(s, w.root, ("val",))
            c.goal(s, dom.sel((k,)) == n.isaction(k), "exactly the legal actions have a weight")
            c.goal(s, z3.Implies(n.isaction(k), val.sel((k,)) >= 0), "weights are not negative")
            c.goal(s, z3.And(W == action_sum(c, n, lambda a: val.sel((a,)), "sumw"), action_sum(c, n, lambda a: 1 / z3.ToReal(n.alen), "uniform") == 1), "the reported sum is the sum of the weights")
            c.goal(s, W > 0, "the weights do not all vanish")
            c.goal(s, z3.Implies(z3.And(n.isaction(k), S >= EPS), val.sel((k,)) == doc(k)), "weights are the documented sparse-max policy")
            c.goal(s, z3.Implies(z3.And(n.isaction(k), n.isaction(y), S < EPS), val.sel((k,)) == val.sel((y,))), "uniform when all weights vanish")
            frame_other(c, s0, s, CLS, x, Null, ("num_backups", "soft_value", "num_visits"))
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _k in TURNS: register("C11", name="TentsDNode_weights_%s_%s" % _k)(tents_weights(_k))
