"""C11, C10, C13: action selection, visits, initial values and action values of the MENTS family."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own, frame_other, locks_back
from contracts.c_ments import *
from contracts.c_dp import fv, policy_summary, frames, FIELDS_D, FIELDS_C, FIELDS_E
from contracts.c_children import made, kids, make_pre

FAMILY = ("MentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode", "RentsDNode", "TentsDNode")
def select(cls):
    def fn(c):
        e = c.e; st, n = ments_pre(c, cls, None); quiet_print(c)
        k = sk(c, "k"); x = sk(c, "x"); y = sk(c, "y"); cx = sk(c, "ctxkey", Str)
        pin, pp, size = policy_summary(c, st, n)
        made(c, n)
        ctx = ctx_arg(c, st)
        drawn = z3.Const("drawn", Ref); e.assume(st, drawn != Null)
        e.skolems = e.skolems + [drawn]
        def smp(e, s, this, args, node):
            """contract of sample_from_distribution (C15): a key of positive weight"""
            lv = args[0]
            dom, val = (e.cell(s, lv.root, lv.path + (p,)).curry(lv.idx) for p in ("dom", "val"))
            e.oblige(s, z3.And(z3.BoolVal(not s.ghost.get("drawn")), z3.BoolVal(len(args) < 3 or args[2] == "default" or z3.is_true(z3.simplify(e.t(e.rv(s, args[2]))))),
                               dom.sel((k,)) == pin(k), z3.Implies(pin(k), val.sel((k,)) == pp(k))), "the action is one draw from the search policy", kind="pre")
            e.assume(s, z3.And(dom.sel((drawn,)), val.sel((drawn,)) > 0, pin(drawn)))
            s.ghost["drawn"] = True
            return [(s, P(drawn, "Action"))]
        e.summaries["sample_from_distribution"] = smp
        e.map_dom_fact(st, n.children, drawn)
        had, old, n0 = kids(e, st, n, n.t, drawn)
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "select_action_itfc") + "::select_action_itfc", n.t, [ctx], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "selecting an action does not fail"); continue
            d1, c1, n1 = kids(e, s, n, n.t, drawn)
            c.goal(s, z3.And(z3.BoolVal(bool(s.ghost.get("drawn"))), o.v.t == drawn), "the selected action is the one drawn from the search policy")
            c.goal(s, n.isaction(o.v.t), "the selected action is legal")
            c.goal(s, z3.And(d1, c1 != Null), "the selected action has a child afterwards")
            c.goal(s, z3.And(n1 == n0 + z3.If(had, 0, 1), z3.Implies(had, c1 == old)), "a child is created exactly when the action had none")
            dk0, ck0, _ = kids(e, s0, n, n.t, k); dk1, ck1, _ = kids(e, s, n, n.t, k)
            c.goal(s, z3.Implies(k != drawn, z3.And(dk1 == dk0, z3.Implies(dk0, ck1 == ck0))), "all other children are unchanged")
            frames(c, s0, s, x, Null, FIELDS_D, None)
            cmut, ccon = (e.field_lv("ThtsEnvContext", f, ctx.t) for f in ("context", "context_const"))
            cd = lambda s, l, q: (e.leafat(s, l, ("dom",), (q,)), e.leafat(s, l, ("val",), (q,)))
            if cls == "RentsDNode":
                key = e.t(e.fld(s0, n.t, "RentsDNode", "_node_distr_key"))
                d, v = cd(s, cmut, key); lv = e.heap_lv(MSH, v)
                c.goal(s, z3.And(d, v != Null, e.leafat(s, lv, ("dom",), (k,)) == pin(k), z3.Implies(pin(k), e.leafat(s, lv, ("val",), (k,)) == pp(k))),
                       "the policy is left in the trial's context for the children", props=("C10", "C11"))
                c.goal(s, z3.Implies(cx != key, z3.And(cd(s, cmut, cx)[0] == cd(s0, cmut, cx)[0], cd(s, cmut, cx)[1] == cd(s0, cmut, cx)[1])), "other context values are unaffected", props=("C10", "C11"))
            if cls == "TentsDNode":
                key = e.t(e.fld(s0, n.t, "TentsDNode", "_selected_action_key"))
                d, v = cd(s, ccon, key)
                c.goal(s, z3.And(d, v == drawn), "the selected action is left in the trial's context for the backup", props=("C10", "C11"))
                c.goal(s, z3.Implies(cx != key, z3.And(cd(s, ccon, cx)[0] == cd(s0, ccon, cx)[0], cd(s, ccon, cx)[1] == cd(s0, ccon, cx)[1])), "other context values are unaffected", props=("C10", "C11"))
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c in FAMILY: register("C11", *(("C10",) if _c in ("RentsDNode", "TentsDNode") else ()), name=_c + "_select_action")(select(_c))

# ------------------------------------------------------------------ visits
def visit(cls):
    def fn(c):
        e = c.e; st = c.state(); env_fns(c); c.props = e.props = ("C10", "C12", "C13")
        n = uct_node(c, st, "n", cls); x = sk(c, "x")
        dec = n.base == "ThtsDNode"
        if dec: n.leaf = z3.Or(e.uf("env_sink", Ref, Ref, Bool)(n.env, n.f(st, "state", cls="ThtsDNode")), n.f(st, "decision_depth", cls="ThtsDNode") >= e.fld(st, n.mgr, "ThtsManager", "max_depth"))
        s0 = st.copy()
        outs = c.run(st, own(c, cls, "visit_itfc") + "::visit_itfc", n.t, [ctx_arg(c, st)], cls=cls)
        fields = FIELDS_D if dec else FIELDS_C
        have = [(k, f) for k, f in fields if e.ty.is_sub(cls, k)]
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "a visit does not fail"); continue
            c.goal(s, n.f(s, "num_visits", cls=n.base) == n.f(s0, "num_visits", cls=n.base) + 1, "a visit raises the visit count by one")
            for k, f in have:
                if f == "num_visits": continue
                a, b = fv(c, s0, n.t, k, f), fv(c, s, n.t, k, f)
                leafcount = dec and f == "num_backups"
                c.goal(s, b == a + (z3.If(n.leaf, 1, 0) if leafcount else 0), "a visit counts as a backup exactly at a leaf (%s)" % k if leafcount else "a visit leaves %s::%s" % (k, f))
            if e.ty.is_sub(cls, "EmpNode"):
                for k, f in FIELDS_E: c.goal(s, fv(c, s, n.t, k, f) == fv(c, s0, n.t, k, f), "a visit leaves %s::%s" % (k, f))
            frames(c, s0, s, x, n.t, [f for f in have] + ([q for q in FIELDS_E] if e.ty.is_sub(cls, "EmpNode") else []), None)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c in FAMILY:
    for _k in (_c, _c.replace("DNode", "CNode")): register("C10", "C12", "C13", name=_k + "_visit")(visit(_k))

# ------------------------------------------------------------------ action values of DENTS and EST (C13)
def dents_q(c, n, s, k, op, prior):
    use = n.m(s, "use_dp_value")
    val = z3.If(use, fv(c, s, n.ch(k), "DPCNode", "dp_value"), fv(c, s, n.ch(k), "EmpNode", "avg_return"))
    if n.cls == "DentsDNode": val = val + n.VT * fv(c, s, n.ch(k), "EntCNode", "subtree_entropy")
    return z3.If(n.has(k), op * val, sif(prior, log_clip(n.priorp(k)) + n.f(s, "psuedo_q_value_offset"), n.m(s, "default_q_value") * op))
def dents_softq(cls):
    def fn(c):
        e = c.e
        VT = z3.Real("value_temp")
        def spec(c, n, s, k, op, prior): n.VT = VT; return dents_q(c, n, s, k, op, prior)
        def vt(e, s, this, a, nd):
            return [(s, VT)]
        e.summaries["DentsDNode::get_value_temp"] = vt
        return softq_contract(cls, None, spec)(c)
    return fn
for _c in ("DentsDNode", "EstDNode"): register("C13", name=_c + "_soft_q")(dents_softq(_c))
register("C10", name="DBMentsDNode_soft_q")(softq_contract("DBMentsDNode", None, soft_q))

for _c in ("RentsCNode", "TentsCNode"): register("C10", "C05", name=_c + "_backup")(cbackup(_c))

# ------------------------------------------------------------------ algorithms that inherit the MENTS policy
def inherits(cls, fname, full):
    """the algorithm uses MentsDNode's definition (whose contract is over any action values and temperature); otherwise its own definition is verified"""
    def fn(c):
        if own(c, cls, fname) == "MentsDNode":
            st = c.state(); c.goal(st, z3.BoolVal(True), "%s uses MentsDNode::%s" % (cls, fname)); return None
        return full(c)
    return fn
for _c in ("DBMentsDNode", "DentsDNode", "EstDNode"):
    for _k in TURNS: register("C11", name="%s_weights_%s_%s" % ((_c,) + _k))(inherits(_c, "compute_action_weights", weights_contract(_c, _k)))
for _c in ("DBMentsDNode", "DentsDNode", "EstDNode", "RentsDNode", "TentsDNode"):
    for _m in (True, False):
        for _r, _e, _cap in ((True, "root", False), (True, "own", True), (False, "own", False), (False, "off", False)):
            register("C11", name="%s_distribution_%s_%s_%s%s" % (_c, "root" if _r else "inner", "prior" if _m else "noprior", _e, "_cap" if _cap else ""))(
                inherits(_c, "compute_action_distribution", distr_contract(_c, _r, _m, _e, _cap)))
