"""C12, C13: dynamic-programming, entropy and empirical values (DBMENTS, DENTS, EST)."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own, frame_other
from contracts.c_ments import *

def fv(c, s, t, cls, name):
    v = c.e.fld(s, t, cls, name)
    return v.t if isinstance(v, P) else v

def finite(c, st, cls, field):
    """the stored values of other nodes are finite"""
    e = c.e; e.fld(st, Null, cls, field)
    cell = e.cell(st, ("fld", cls, field), ())
    st.gens.setdefault(cell.decl.name(), []).append(lambda a: [z3.And(cell.sel(tuple(a)) > -INF, cell.sel(tuple(a)) < INF)])
def nonneg(c, st, cls, field):
    e = c.e; e.fld(st, Null, cls, field)
    cell = e.cell(st, ("fld", cls, field), ())
    st.gens.setdefault(cell.decl.name(), []).append(lambda a: [cell.sel(tuple(a)) >= 0])

def dp_best(c, st, n, opp):
    """w: a backed-up child whose dp value is best for the player to move, when there is one"""
    e = c.e; w = sk(c, "best_child")
    v = lambda k: fv(c, st, n.ch(k), "DPCNode", "dp_value"); nb = lambda k: fv(c, st, n.ch(k), "DPCNode", "num_backups")
    some = z3.And(n.has(w), nb(w) != 0)
    dom0 = n.dom0
    st.gens.setdefault(dom0.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == n.t, dom0.sel(tuple(a)), nb(a[1]) != 0), z3.And(some, opp * v(a[1]) <= opp * v(w)))])
    return w, v, nb, some

FIELDS_D = (("MentsDNode", "num_backups"), ("MentsDNode", "soft_value"), ("ThtsDNode", "num_visits"), ("DPDNode", "num_backups"), ("DPDNode", "dp_value"),
            ("EntDNode", "subtree_entropy"), ("EntDNode", "local_entropy"), ("EntDNode", "num_backups"))
FIELDS_C = (("MentsCNode", "num_backups"), ("MentsCNode", "soft_value"), ("ThtsCNode", "num_visits"), ("DPCNode", "num_backups"), ("DPCNode", "dp_value"),
            ("EntCNode", "subtree_entropy"), ("EntCNode", "num_backups"))
FIELDS_E = (("EmpNode", "num_backups"), ("EmpNode", "avg_return"))
def frames(c, s0, s, x, me, fields, props):
    for k, f in fields:
        a, b = fv(c, s0, x, k, f), fv(c, s, x, k, f)
        c.goal(s, z3.Implies(x != me, a == b), "no other node's %s::%s changes" % (k, f), props=props)

def same(c, s0, s, n, fields, props):
    for k, f in fields: c.goal(s, fv(c, s, n.t, k, f) == fv(c, s0, n.t, k, f), "%s::%s unchanged" % (k, f), props=props)

def ddp(cls, turn, usedp):
    """backup of a decision node of EST / DBMENTS / DENTS: the value part"""
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, ("any", turn))
        k = sk(c, "k"); x = sk(c, "x")
        opp = opp_of(n, st)
        if usedp is not None: e.write(st, e.field_lv("DentsManager", "use_dp_value", n.mgr), z3.BoolVal(usedp))
        finite(c, st, "DPCNode", "dp_value")
        w, v, nb, some = dp_best(c, st, n, opp)
        if usedp is not False: e.assume(st, some)
        vs, r, r2 = rewards_args(c, st)
        mb, db = n.f(st, "num_backups", cls="MentsDNode"), fv(c, st, n.t, "DPDNode", "num_backups")
        eb, av = fv(c, st, n.t, "EmpNode", "num_backups"), fv(c, st, n.t, "EmpNode", "avg_return")
        e.assume(st, z3.And(eb >= 0, db >= 0, mb >= 0))
        s0 = st.copy()
        if cls == "DBMentsDNode": soft_summary(c, n)
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            if usedp is not False:
                c.goal(s, fv(c, s, n.t, "DPDNode", "dp_value") == v(w), "dp value is the best backed-up child's value", props=("C12",))
                c.goal(s, fv(c, s, n.t, "DPDNode", "num_backups") == db + 1, "a dp backup is counted once", props=("C12",))
                if usedp is not None: same(c, s0, s, n, FIELDS_E, ("C13",))
            else:
                c.goal(s, fv(c, s, n.t, "EmpNode", "num_backups") == eb + 1, "an empirical backup is counted once", props=("C13",))
                c.goal(s, fv(c, s, n.t, "EmpNode", "avg_return") * z3.ToReal(eb + 1) == av * z3.ToReal(eb) + r, "empirical value is the average return", props=("C13",))
                same(c, s0, s, n, (("DPDNode", "dp_value"), ("DPDNode", "num_backups")), ("C12",))
            c.goal(s, fv(c, s, n.t, "MentsDNode", "num_backups") == mb + 1, "a backup raises the backup count by one", props=("C13",))
            c.goal(s, n.f(s, "num_visits", cls="ThtsDNode") == n.f(s0, "num_visits", cls="ThtsDNode"), "a backup is not a visit", props=("C12",))
            frames(c, s0, s, x, n.t, FIELDS_D + FIELDS_E, ("C12",))
            frames(c, s0, s, x, Null, FIELDS_C, ("C12",))
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn

def soft_summary(c, n):
    """contract of MentsDNode::backup_soft / MentsCNode::backup_soft (C10): sets soft_value, counts the backup"""
    def sm(e, s, this, args, node):
        if this is None or not this.t.eq(n.t): return None
        k = "MentsDNode" if n.base == "ThtsDNode" else "MentsCNode"
        n.need_own(s, "its backup"); n.need_children_free(s, "the soft backup")
        e.write(s, e.field_lv(k, "soft_value", n.t), e.fresh(s, "soft", Real))
        lv = e.field_lv(k, "num_backups", n.t)
        e.write(s, lv, e.t(e.read(s, lv)) + 1)
        return [(s, VOIDV)]
    for k in ("MentsDNode", "MentsCNode"): c.e.summaries[k + "::backup_soft"] = sm

for _t in ("single", "own", "opponent"):
    for _u in (True, False):
        register("C12", "C13", "C05", name="EstDNode_backup_%s_%s" % ("dp" if _u else "emp", _t))(ddp("EstDNode", _t, _u))
    register("C12", "C05", name="DBMentsDNode_backup_%s" % _t)(ddp("DBMentsDNode", _t, None))

# ------------------------------------------------------------------ chance nodes
def mean_goal(c, s0, s, n, fld_nb, fld_v, nbcls, vcls, value, what, props):
    """value * W == sum of nb * v over the children (W the total number of backups)"""
    e = c.e; kb = z3.Const("obs", Ref)
    nb = lambda k: z3.ToReal(fv(c, s0, n.ch(k), nbcls, fld_nb)); v = lambda k: fv(c, s0, n.ch(k), vcls, fld_v)
    W = e.pv.set_term(e.pv.set_sum([], kb, nb(kb), n.has(kb), N=n.n0, name="W"))
    V = e.pv.set_term(e.pv.set_sum([], kb, nb(kb) * v(kb), n.has(kb), N=n.n0, name="V"))
    c.goal(s, z3.Implies(W > 0, value * W == V), what, props=props)

def cdp(cls, usedp, part=None):
    """part: "dp" / "ent": the other half through its contract"""
    def fn(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        use_child_locks(c, n)
        def half(k, f):
            def sm(e, s, this, args, node):
                if this is None or not this.t.eq(n.t): return None
                n.need_own(s, "its backup"); n.need_children_free(s, "the backup")
                e.write(s, e.field_lv(k, f, n.t), e.fresh(s, f, Real))
                lv = e.field_lv(k, "num_backups", n.t); e.write(s, lv, e.t(e.read(s, lv)) + 1)
                return [(s, VOIDV)]
            return sm
        if part == "dp": e.summaries["EntCNode::backup_ent"] = half("EntCNode", "subtree_entropy")
        if part == "ent": e.summaries["DPCNode::backup_dp"] = half("DPCNode", "dp_value")
        x = sk(c, "x")
        if usedp is not None: e.write(st, e.field_lv("DentsManager", "use_dp_value", n.mgr), z3.BoolVal(usedp))
        for k in ("DPDNode", "EntDNode"): nonneg(c, st, k, "num_backups")
        VT = z3.Real("value_temp"); e.summaries["DentsCNode::get_value_temp"] = lambda e, s, this, a, nd: [(s, VT)] if this.t.eq(n.t) else None
        vs, r, r2 = rewards_args(c, st)
        mb, db, nb_e = fv(c, st, n.t, "MentsCNode", "num_backups"), fv(c, st, n.t, "DPCNode", "num_backups"), fv(c, st, n.t, "EntCNode", "num_backups")
        eb, av = fv(c, st, n.t, "EmpNode", "num_backups"), fv(c, st, n.t, "EmpNode", "avg_return")
        e.assume(st, z3.And(eb >= 0, db >= 0, mb >= 0))
        if cls == "DBMentsCNode": soft_summary(c, n)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            dp, ent = fv(c, s, n.t, "DPCNode", "dp_value"), fv(c, s, n.t, "EntCNode", "subtree_entropy")
            if usedp is not False:
                if part != "ent": mean_goal(c, s0, s, n, "num_backups", "dp_value", "DPDNode", "DPDNode", dp - n.f(s0, "local_reward"), "dp value is the local reward plus the backup-weighted mean of the children", ("C12",))
                c.goal(s, fv(c, s, n.t, "DPCNode", "num_backups") == db + 1, "a dp backup is counted once", props=("C12",))
                if usedp is not None: same(c, s0, s, n, FIELDS_E, ("C13",))
            else:
                c.goal(s, fv(c, s, n.t, "EmpNode", "num_backups") == eb + 1, "an empirical backup is counted once", props=("C13",))
                c.goal(s, fv(c, s, n.t, "EmpNode", "avg_return") * z3.ToReal(eb + 1) == av * z3.ToReal(eb) + r, "empirical value is the average return", props=("C13",))
                same(c, s0, s, n, (("DPCNode", "dp_value"), ("DPCNode", "num_backups")), ("C12",))
            if cls == "DentsCNode":
                if part != "dp": mean_goal(c, s0, s, n, "num_backups", "subtree_entropy", "EntDNode", "EntDNode", ent, "subtree entropy is the backup-weighted mean of the children's", ("C13",))
                c.goal(s, fv(c, s, n.t, "EntCNode", "num_backups") == nb_e + 1, "an entropy backup is counted once", props=("C13",))
                val = dp if usedp else fv(c, s, n.t, "EmpNode", "avg_return")
                c.goal(s, n.f(s, "soft_value", cls="MentsCNode") == val + VT * ent, "soft value is the value plus the decayed entropy bonus", props=("C13",))
            c.goal(s, fv(c, s, n.t, "MentsCNode", "num_backups") == mb + 1, "a backup raises the backup count by one", props=("C13",))
            c.goal(s, n.f(s, "num_visits", cls="ThtsCNode") == n.f(s0, "num_visits", cls="ThtsCNode"), "a backup is not a visit", props=("C12",))
            frames(c, s0, s, x, n.t, FIELDS_C + FIELDS_E, ("C12",))
            frames(c, s0, s, x, Null, FIELDS_D, ("C12",))
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _u in (True, False):
    register("C12", "C13", "C05", name="EstCNode_backup_%s" % ("dp" if _u else "emp"))(cdp("EstCNode", _u))
register("C12", "C13", "C05", name="DentsCNode_backup_emp")(cdp("DentsCNode", False))
for _p in ("dp", "ent"): register("C12", "C13", "C05", name="DentsCNode_backup_dp_" + _p)(cdp("DentsCNode", True, _p))
register("C12", "C05", name="DBMentsCNode_backup")(cdp("DBMentsCNode", None))

# ------------------------------------------------------------------ DENTS decision node
def policy_summary(c, st, n):
    """contract of compute_action_distribution (C11): a map with keys among the legal actions and positive probabilities"""
    e = c.e
    pin, pp, size = e.uf("policy_has", Ref, Bool), e.uf("policy_prob", Ref, Real), z3.Int("policy_size")
    st.gens.setdefault("policy_has", []).append(lambda a: [z3.Implies(pin(a[0]), z3.And(n.isaction(a[0]), pp(a[0]) > 0))])
    e.assume(st, size > 0)
    def sm(e, s, this, args, node):
        if this is None or not this.t.eq(n.t): return None
        lv = args[0]
        e.oblige(s, e.leafat(s, lv, ("n",)) == 0, "the policy is computed into an empty map", kind="pre")
        n.need_own(s, "its policy"); n.need_children_free(s, "the policy computation")
        pre = lv.idx
        old = {p: e.cell(s, lv.root, lv.path + (p,)) for p in ("dom", "val")}
        for p, f in (("dom", pin), ("val", pp)):
            s.mem[(lv.root, lv.path + (p,))] = LamA(lambda *ix, o=old[p], f=f: f(ix[-1]) if not pre else z3.If(ix[0] == pre[0], f(ix[-1]), o.sel(ix)))
        e.setleaf(s, lv, ("n",), (), size)
        s.ghost["policy_calls"] = s.ghost.get("policy_calls", 0) + 1
        s.ghost["policy_lv"] = lv
        return [(s, VOIDV)]
    for k in ("MentsDNode",): e.summaries[k + "::compute_action_distribution"] = sm
    return pin, pp, size

def ddents(turn, usedp):
    cls = "DentsDNode"
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, ("any", turn))
        k = sk(c, "k"); x = sk(c, "x")
        opp = opp_of(n, st)
        e.write(st, e.field_lv("DentsManager", "use_dp_value", n.mgr), z3.BoolVal(usedp))
        VT = z3.Real("value_temp"); e.summaries["DentsDNode::get_value_temp"] = lambda e, s, this, a, nd: [(s, VT)] if this.t.eq(n.t) else None
        pin, pp, size = policy_summary(c, st, n)
        D, EV = z3.Real("dp_after"), z3.Real("avg_after")
        # value part through the contracts of backup_dp (DBMentsDNode_backup, EstDNode_backup) and backup_emp
        calls = []
        def bdp(e, s, this, args, node):
            if this is None or not this.t.eq(n.t): return None
            e.oblige(s, e.t(e.rv(s, args[1])) == (opp == -1), "the dp backup is told whose turn it is", kind="pre", props=("C12",))
            n.need_own(s, "its backup"); n.need_children_free(s, "the dp backup")
            e.write(s, e.field_lv("DPDNode", "dp_value", n.t), D)
            lv = e.field_lv("DPDNode", "num_backups", n.t); e.write(s, lv, e.t(e.read(s, lv)) + 1)
            return [(s, VOIDV)]
        e.summaries["DPDNode::backup_dp"] = bdp
        vs, r, r2 = rewards_args(c, st)
        mb, nbe = fv(c, st, n.t, "MentsDNode", "num_backups"), fv(c, st, n.t, "EntDNode", "num_backups")
        eb, av, db = fv(c, st, n.t, "EmpNode", "num_backups"), fv(c, st, n.t, "EmpNode", "avg_return"), fv(c, st, n.t, "DPDNode", "num_backups")
        e.assume(st, eb >= 0)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "backup_itfc") + "::backup_itfc", n.t, vs + [r, r2, ctx_arg(c, st)], cls=cls)
        kb = z3.Const("act", Ref)
        H = e.pv.set_term(e.pv.set_sum([], kb, -(pp(kb) * log_(pp(kb))), pin(kb), N=size, name="H"))
        cent = lambda a: fv(c, s0, n.ch(a), "EntCNode", "subtree_entropy")
        CH = e.pv.set_term(e.pv.set_sum([], kb, z3.If(pin(kb), pp(kb), z3.RealVal(0)) * cent(kb), n.has(kb), N=n.n0, name="CH"))
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "backup does not throw"); continue
            loc, ent = fv(c, s, n.t, "EntDNode", "local_entropy"), fv(c, s, n.t, "EntDNode", "subtree_entropy")
            c.goal(s, z3.BoolVal(s.ghost.get("policy_calls", 0) == 1), "the entropy is that of the current search policy", props=("C13",))
            c.goal(s, loc == H, "local entropy is the entropy of the search policy", props=("C13",))
            c.goal(s, ent == opp * H + CH, "subtree entropy is the signed local entropy plus the expected entropy of the children", props=("C13",))
            c.goal(s, fv(c, s, n.t, "EntDNode", "num_backups") == nbe + 1, "an entropy backup is counted once", props=("C13",))
            c.goal(s, fv(c, s, n.t, "MentsDNode", "num_backups") == mb + 1, "a backup raises the backup count by one", props=("C13",))
            if usedp:
                val = D; same(c, s0, s, n, FIELDS_E, ("C13",))
                c.goal(s, z3.And(fv(c, s, n.t, "DPDNode", "dp_value") == D, fv(c, s, n.t, "DPDNode", "num_backups") == db + 1), "dp values are backed up once", props=("C12",))
            else:
                val = fv(c, s, n.t, "EmpNode", "avg_return")
                c.goal(s, fv(c, s, n.t, "EmpNode", "num_backups") == eb + 1, "an empirical backup is counted once", props=("C13",))
                c.goal(s, val * z3.ToReal(eb + 1) == av * z3.ToReal(eb) + r, "empirical value is the average return", props=("C13",))
                same(c, s0, s, n, (("DPDNode", "dp_value"), ("DPDNode", "num_backups")), ("C12",))
            c.goal(s, n.f(s, "soft_value", cls="MentsDNode") == val + VT * ent, "soft value is the value plus the decayed entropy bonus", props=("C13",))
            frames(c, s0, s, x, n.t, FIELDS_D + FIELDS_E, ("C13",))
            frames(c, s0, s, x, Null, FIELDS_C, ("C13",))
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _t in ("single", "own", "opponent"):
    for _u in (True, False):
        register("C12", "C13", "C05", name="DentsDNode_backup_%s_%s" % ("dp" if _u else "emp", _t))(ddents(_t, _u))
