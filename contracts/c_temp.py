"""C22: decayed temperatures."""
from contracts.lib import *
from contracts.world import *
from contracts.c_uct import own

def decayed(e, f, init, mn, nv, sc):
    v = init * e.uf("apply_real", Int, Real, Real)(f, sc * z3.ToReal(nv))
    return z3.If(v < mn, mn, v)

@register("C22", name="compute_decayed_temp")
def decay_contract(c):
    e = c.e; ex = []
    f, nv = z3.Ints("f visits"); init, mn, sc = z3.Reals("init mn scale")
    st = c.state(); e.assume(st, f != 0)
    for o in c.run(st, "compute_decayed_temp", None, [f, init, mn, nv, sc]):
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "computing a temperature does not throw"); continue
        c.goal(o.st, e.t(o.v) == decayed(e, f, init, mn, nv, sc), "the decayed temperature is max(initial times decay at scaled visits, minimum)")
        c.goal(o.st, e.t(o.v) >= mn, "never below the minimum")
        ex.append(o.st)
    # two calls with growing visits: non-increasing, positive (f positive and non-increasing on non-negative arguments: contracts decay_*)
    st = c.state(); n1, n2 = z3.Ints("n1 n2"); ap = lambda x: e.uf("apply_real", Int, Real, Real)(f, x)
    for a in (f != 0, init > 0, sc >= 0, 0 <= n1, n1 <= n2): e.assume(st, a)
    x1, x2 = sc * z3.ToReal(n1), sc * z3.ToReal(n2)
    e.assume(st, z3.And(ap(x1) > 0, ap(x2) > 0, z3.Implies(z3.And(0 <= x1, x1 <= x2), ap(x2) <= ap(x1))))
    for o in c.run(st, "compute_decayed_temp", None, [f, init, mn, n1, sc]):
        if o.kind == "throw": continue
        for p in c.run(o.st, "compute_decayed_temp", None, [f, init, mn, n2, sc]):
            if p.kind == "throw": continue
            c.goal(p.st, e.t(o.v) > 0, "the decayed temperature is positive")
            c.goal(p.st, e.t(p.v) <= e.t(o.v), "the decayed temperature never increases with the visits")
            ex.append(p.st)
    return ex

def getter(cls, fname, pre, init):
    def fn(c):
        e = c.e; st = c.state(); env_fns(c)
        n = uct_node(c, st, "n", cls)
        s0 = st.copy()
        f = n.m(s0, pre + "_decay_fn")
        sc = n.m(s0, pre + "_decay_visits_scale")
        if n.base == "ThtsDNode":
            rs = n.m(s0, pre + "_decay_root_node_visits_scale")
            sc = z3.If(z3.And(n.f(s0, "decision_depth") == 0, rs > 0), rs, sc)
        spec = z3.If(f == 0, n.m(s0, init), decayed(e, f, n.m(s0, init), n.m(s0, pre + "_decay_min_temp"), n.f(s0, "num_visits"), sc))
        outs = c.run(st, own(c, cls, fname) + "::" + fname, n.t, [], cls=cls)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "asking for a temperature does not throw"); continue
            c.goal(o.st, e.t(o.v) == spec, "%s is the configured constant, or its decay at the scaled visits" % fname)
            c.goal(o.st, z3.Implies(f != 0, e.t(o.v) >= n.m(s0, pre + "_decay_min_temp")), "%s is at least the configured minimum" % fname)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c in ("MentsDNode", "RentsDNode", "TentsDNode", "DBMentsDNode", "DentsDNode", "EstDNode"):
    register("C22", name=_c + "_get_temp")(getter(_c, "get_temp", "temp", "temp"))
for _c in ("DentsDNode", "DentsCNode"):
    register("C22", name=_c + "_get_value_temp")(getter(_c, "get_value_temp", "value_temp", "value_temp_init"))

R1 = z3.RealVal(1)
DECAY = {"decayed_temp_inv_sqrt": lambda x: R1 / sqrt_(1 + x),
         "decayed_temp_inv_log": lambda x: R1 / log_(exp_(R1) + x),
         "decayed_temp_sigmoid": lambda x: (1 + exp_(z3.RealVal(-5))) / (1 + exp_(x - 5))}
def decayfn(name):
    def fn(c):
        e = c.e; st = c.state(); x, y = z3.Reals("x y"); ex = []
        e.assume(st, z3.And(0 <= x, x <= y))
        e.assume(st, z3.And(log_(exp_(R1)) == 1, exp_(R1) > 1, exp_(x - 5) >= exp_(z3.RealVal(-5)), exp_(y - 5) >= exp_(x - 5)))      # exp and log are inverse and increasing
        for o in c.run(st, name, None, [x]):
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "decay functions do not throw"); continue
            r = e.t(o.v)
            c.goal(o.st, r == DECAY[name](x), name + " equals its documented formula")
            c.goal(o.st, z3.And(r > 0, r <= 1), name + " lies in (0, 1]")
            c.goal(o.st, z3.Implies(x == 0, r == 1), name + " is one at zero")
            for p in c.run(o.st, name, None, [y]):
                if p.kind == "throw": continue
                c.goal(p.st, e.t(p.v) <= r, name + " is non-increasing"); ex.append(p.st)
        return ex
    return fn
for _n in DECAY: register("C22", name=_n)(decayfn(_n))
