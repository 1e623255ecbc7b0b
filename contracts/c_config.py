"""What a user configures is what the search reads: managers keep every configured value, default arguments leave the optional settings unset,
and the provided value types and samplers keep what they are constructed from."""
from contracts.lib import *

# manager -> {field: properties that depend on the configured value}
CONF = {
    "ThtsManager": ("ThtsManagerArgs", {"thts_env": ("C03", "C07"), "max_depth": ("C03",), "mcts_mode": ("C03",), "heuristic_fn": ("C03", "C08"), "prior_fn": ("C09", "C10", "C11"),
                                        "use_transposition_table": ("C07",), "is_two_player_game": ("C09", "C10", "C12", "C13", "C14")}),
    "UctManager": ("UctManagerArgs", {"bias": ("C09",), "heuristic_psuedo_trials": ("C08",), "recommend_most_visited": ("C14",), "epsilon_exploration": ("C09",)}),
    "PuctManager": ("PuctManagerArgs", {"puct_power": ("C09",)}),
    "MentsManager": ("MentsManagerArgs", {"temp": ("C10", "C22"), "prior_policy_search_weight": ("C11",), "epsilon": ("C11",), "root_node_epsilon": ("C11",), "max_explore_prob": ("C11",),
                                          "temp_decay_fn": ("C22",), "temp_decay_min_temp": ("C22",), "temp_decay_visits_scale": ("C22",), "temp_decay_root_node_visits_scale": ("C22",),
                                          "default_q_value": ("C10",), "shift_pseudo_q_values": ("C10",), "psuedo_q_value_offset": ("C10",),
                                          "recommend_visit_threshold": ("C14",), "recommend_most_visited": ("C14",)}),
    "DentsManager": ("DentsManagerArgs", {"value_temp_decay_fn": ("C22", "C13"), "value_temp_init": ("C22", "C13"), "value_temp_decay_min_temp": ("C22", "C13"), "value_temp_decay_visits_scale": ("C22", "C13"),
                                          "value_temp_decay_root_node_visits_scale": ("C22", "C13"), "use_dp_value": ("C13", "C14")}),
}
BASES = {"ThtsManager": [], "UctManager": ["ThtsManager"], "PuctManager": ["UctManager", "ThtsManager"], "MentsManager": ["ThtsManager"], "DentsManager": ["MentsManager", "ThtsManager"]}

def term(v): return v.t if hasattr(v, "t") else v

def config_contract(mgr):
    args_cls = CONF[mgr][0]
    def fn(c):
        e = c.e; st = c.state(); a = c.ref(st, "args")
        e.summaries["RandManager::init_random_seed"] = lambda e, s, this, args, node: [(s, None)]      # seeding the library's generators touches no configured value
        outs = c.ctor(st, mgr, [ObjL(a, args_cls)])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "constructing a manager does not fail"); continue
            for m in [mgr] + BASES[mgr]:
                acls, fields = CONF[m]
                for f, props in fields.items():
                    c.goal(s, term(e.fld(s, o.v.t, m, f)) == term(e.fld(st, a, acls, f)), "%s keeps the configured %s" % (mgr, f), props=props)
        return [o.st for o in outs if o.kind == "ret"]
    return fn

for _m in CONF:
    _p = sorted({p for m in [_m] + BASES[_m] for ps in CONF[m][1].values() for p in ps})
    register(*_p, name="Config_" + _m)(config_contract(_m))

# default arguments: optional settings are unset, the rest admissible (the preconditions the search contracts state)
DEFAULTS = {
    "ThtsManagerArgs": [("prior_fn", "null", ("C09", "C11")), ("is_two_player_game", "false", ("C09", "C14")), ("use_transposition_table", "false", ("C07",)),
                        ("max_depth", lambda v: v >= 1, ("C03",)), ("num_transposition_table_mutexes", lambda v: v >= 1, ("C07",))],
    "UctManagerArgs": [("heuristic_psuedo_trials", lambda v: v >= 0, ("C08",)), ("epsilon_exploration", lambda v: z3.And(v >= 0, v <= 1), ("C09",))],
    "PuctManagerArgs": [],
    "MentsManagerArgs": [("temp", lambda v: v > 0, ("C22", "C10")), ("prior_policy_search_weight", lambda v: v <= 0, ("C11",)), ("root_node_epsilon", lambda v: v <= 0, ("C11",)),
                         ("max_explore_prob", lambda v: z3.And(v >= 0, v <= 1), ("C11",)), ("temp_decay_fn", "null", ("C22",)), ("temp_decay_min_temp", lambda v: v > 0, ("C22",)),
                         ("temp_decay_visits_scale", lambda v: v >= 0, ("C22",)), ("temp_decay_root_node_visits_scale", lambda v: v <= 0, ("C22",)), ("shift_pseudo_q_values", "false", ("C10",))],
    "DentsManagerArgs": [("value_temp_init", lambda v: v > 0, ("C22", "C13")), ("value_temp_decay_min_temp", lambda v: v > 0, ("C22", "C13")),
                         ("value_temp_decay_visits_scale", lambda v: v >= 0, ("C22", "C13")), ("value_temp_decay_root_node_visits_scale", lambda v: v <= 0, ("C22", "C13"))],
}
ABASES = {"ThtsManagerArgs": [], "UctManagerArgs": ["ThtsManagerArgs"], "PuctManagerArgs": ["UctManagerArgs", "ThtsManagerArgs"], "MentsManagerArgs": ["ThtsManagerArgs"], "DentsManagerArgs": ["MentsManagerArgs", "ThtsManagerArgs"]}

def defaults_contract(cls):
    def fn(c):
        e = c.e; st = c.state(); env = c.ref(st, "env")
        outs = c.ctor(st, cls, [P(env, "ThtsEnv")])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "default arguments can be made"); continue
            c.goal(s, term(e.fld(s, o.v.t, "ThtsManagerArgs", "thts_env")) == env, "%s keeps the environment" % cls, props=("C03",))
            for k in [cls] + ABASES[cls]:
                for f, w, props in DEFAULTS[k]:
                    v = term(e.fld(s, o.v.t, k, f))
                    g = {"null": lambda: v == (Null if v.sort() == Ref else 0), "false": lambda: z3.Not(v)}[w]() if isinstance(w, str) else w(v)
                    c.goal(s, g, "by default %s is %s" % (f, "unset" if isinstance(w, str) else "admissible or unset"), props=props)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _m in DEFAULTS:
    _p = sorted({p for m in [_m] + ABASES[_m] for _, _, ps in DEFAULTS[m] for p in ps} | {"C03"})
    register(*_p, name="Defaults_" + _m)(defaults_contract(_m))

# value types keep their components
def keeps_components(cls, field, n):
    def fn(c):
        e = c.e; st = c.state(); xs = [z3.Int("x%d" % i) for i in range(n)]
        outs = c.ctor(st, cls, xs)
        for o in outs:
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "a value can be made"); continue
            flat = lambda x: [y for z in x for y in flat(z)] if isinstance(x, tuple) else [x]
            got = flat(e.read(o.st, e.field_lv(cls, field, o.v.t)))
            c.goal(o.st, z3.And(len(got) == n, *[a == b for a, b in zip(got, xs)]), "a %s keeps the components it is made from" % cls)
        return [o.st for o in outs if o.kind == "ret"]
    return fn
for _c, _f, _n in (("IntState", "state", 1), ("IntPairState", "state", 2), ("Int3TupleState", "state", 3), ("IntAction", "action", 1)):
    register("C18", name=_c + "_ctor")(keeps_components(_c, _f, _n))

@register("C15", name="Uniform_ctor")
def uniform_ctor(c):
    e = c.e; st = c.state(); p = c.ref(st, "keys"); cls = "DiscreteUniformDistribution<int>"
    outs = c.ctor(st, cls, [P(p, "std::vector<int>")])
    for o in outs: c.goal(o.st, e.fld(o.st, o.v.t, cls, "keys").t == p if o.kind == "ret" else z3.BoolVal(False), "the sampler draws from the list it was given")
    return [o.st for o in outs if o.kind == "ret"]

@register("C15", name="Mixed_ctor")
def mixed_ctor(c):
    e = c.e; st = c.state(); p = c.ref(st, "weights"); cls = "MixedDistribution<int>"
    outs = c.ctor(st, cls, [P(p, "weights")])
    for o in outs: c.goal(o.st, e.fld(o.st, o.v.t, cls, "distr").t == p if o.kind == "ret" else z3.BoolVal(False), "the mixture draws from the components it was given")
    return [o.st for o in outs if o.kind == "ret"]

@register("C19", name="Evaluator_ctor")
def evaluator_ctor(c):
    e = c.e; st = c.state(); env, pol, rm = (c.ref(st, n) for n in ("env", "policy", "rand")); ln = z3.Int("max_trial_length"); cls = "MCEvaluator"
    outs = c.ctor(st, cls, [P(env, "ThtsEnv"), ObjL(pol, "EvalPolicy"), ln, ObjL(rm, "RandManager")])
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "an evaluator can be made"); continue
        c.goal(s, z3.And(e.fld(s, o.v.t, cls, "thts_env").t == env, e.fld(s, o.v.t, cls, "max_trial_length") == ln), "the evaluator keeps its environment and trial length")
        c.goal(s, e.leafat(s, e.field_lv(cls, "sampled_returns", o.v.t), ("len",)) == 0, "a fresh evaluator has recorded no return")
    return [o.st for o in outs if o.kind == "ret"]

@register("C13", name="Emp_visit")
def emp_visit(c):
    e = c.e; st = c.state(); n = c.ref(st, "n"); leaf = z3.Bool("leaf"); b0 = e.fld(st, n, "EmpNode", "num_backups"); a0 = e.fld(st, n, "EmpNode", "avg_return")
    outs = c.run(st, "EmpNode::visit_emp", n, [leaf])
    for o in outs:
        c.goal(o.st, e.fld(o.st, n, "EmpNode", "num_backups") == b0 + z3.If(leaf, 1, 0), "a visit counts exactly at a leaf")
        c.goal(o.st, e.fld(o.st, n, "EmpNode", "avg_return") == a0, "a visit does not change the mean return")
    return [o.st for o in outs if o.kind == "ret"]
