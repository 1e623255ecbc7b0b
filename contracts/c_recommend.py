"""C14: recommendations."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own, frame_other, prior_setup
from contracts.c_ments import opp_of, case_setup, opaque_q, ments_pre, soft_q, locks_back
from contracts.c_dp import fv, FIELDS_D, FIELDS_C, FIELDS_E

UCTF = (("UctDNode", "num_backups"), ("UctDNode", "avg_return"), ("UctCNode", "num_backups"), ("UctCNode", "avg_return"), ("ThtsDNode", "num_visits"), ("ThtsCNode", "num_visits"))
def recommend(cls, turn, mv, crit):
    def fn(c):
        e = c.e
        use_argmax(c)
        uct = "Uct" in cls or "Puct" in cls
        if uct:
            st = c.state(); use_rand(c); env_fns(c)
            n = uct_node(c, st, "n", cls); case_setup(c, st, n, ("any", turn)); n.actions(st)
        else: st, n = ments_pre(c, cls, ("any", turn)); use_argmax(c)
        mcls = "UctManager" if uct else "MentsManager"
        e.write(st, e.field_lv(mcls, "recommend_most_visited", n.mgr), z3.BoolVal(mv))
        if crit in ("dp", "emp") and cls != "DBMentsDNode": e.write(st, e.field_lv("DentsManager", "use_dp_value", n.mgr), z3.BoolVal(crit == "dp"))
        k = sk(c, "k"); x = sk(c, "x")
        e.skolems = e.skolems + [e.map_order(st, n.children)[0].sel((z3.IntVal(0),))]      # the first child, if there is one
        opp = opp_of(n, st)
        qv = None
        if crit == "soft": sq = st.copy(); qv = opaque_q(c, st, n, lambda a, op: soft_q(c, n, sq, a, op, n.prior))
        s0 = st.copy()
        nv = lambda a: n.cf(s0, "num_visits", a)
        outs = c.run(st, own(c, cls, "recommend_action_itfc") + "::recommend_action_itfc", n.t, [ctx_arg(c, st)], cls=cls)
        if qv is not None: n.q_define([o.st for o in outs])
        thr = None if uct else n.m(s0, "recommend_visit_threshold")
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "recommending does not throw"); continue
            v = e.t(o.v)
            c.goal(s, n.isaction(v), "the recommended action is legal")
            if mv: ok, val, inT = n.has, (lambda a: z3.ToReal(nv(a))), None
            elif crit == "avg": ok, val, inT = n.has, (lambda a: opp * n.cf(s0, "avg_return", a)), None
            elif crit == "soft": ok, val, inT = n.isaction, (lambda a: qv(a, opp)), (lambda a: z3.And(n.has(a), nv(a) >= thr))
            else:
                kc, f = ("DPCNode", "dp_value") if crit == "dp" else ("EmpNode", "avg_return")
                ok, val = n.has, (lambda a: opp * fv(c, s0, n.ch(a), kc, f))
                inT = lambda a: z3.And(n.has(a), fv(c, s0, n.ch(a), kc, "num_backups") >= thr)
            if inT is None:
                c.goal(s, z3.Implies(ok(k), z3.And(ok(v), val(v) >= val(k))), "the recommendation is best among the tried actions" if not mv else "the recommendation is a most visited tried action")
            else:
                c.goal(s, z3.Implies(inT(k), z3.And(inT(v), val(v) >= val(k))), "the recommendation is best among the actions meeting the threshold")
                c.goal(s, z3.Implies(z3.And(ok(k), z3.Not(inT(v))), z3.And(ok(v), val(v) >= val(k))), "without such an action the recommendation is best overall")
            for kk, f in (UCTF if uct else FIELDS_D + FIELDS_C + FIELDS_E):
                c.goal(s, fv(c, s0, x, kk, f) == fv(c, s, x, kk, f), "recommending leaves %s::%s" % (kk, f))
            c.goal(s, e.leafat(s, e.field_lv(n.base, "children", x), ("dom",), (k,)) == e.leafat(s0, e.field_lv(n.base, "children", x), ("dom",), (k,)), "recommending creates no child")
            locks_back(c, n, s0, s, x)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _t in ("single", "own", "opponent"):
    for _c in ("UctDNode", "PuctDNode"): register("C14", name="%s_recommend_best_%s" % (_c, _t))(recommend(_c, _t, False, "avg"))
    for _c in ("MentsDNode", "RentsDNode", "TentsDNode"): register("C14", name="%s_recommend_best_%s" % (_c, _t))(recommend(_c, _t, False, "soft"))
    register("C14", name="DBMentsDNode_recommend_best_%s" % _t)(recommend("DBMentsDNode", _t, False, "dp"))
    for _c in ("DentsDNode", "EstDNode"):
        for _k in ("dp", "emp"): register("C14", name="%s_recommend_%s_%s" % (_c, _k, _t))(recommend(_c, _t, False, _k))
for _c in ("UctDNode", "PuctDNode", "MentsDNode", "RentsDNode", "TentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode"):
    register("C14", name="%s_recommend_most_visited" % _c)(recommend(_c, "single", True, None))
