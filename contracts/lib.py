"""Contracts of callees that several contracts rely on (each is itself proved elsewhere, or listed as assumed)."""
import z3
from cdv.types import *
from cdv.values import *
from cdv.runner import register
from cdv.engine import VOIDV
from cdv.prover import exp_, log_, sqrt_, pow_, abs_

TRUSTED = {}     # summary name -> how it is justified

def sk(c, name, sort=Ref):
    """a universally quantified key of the contract; quantified callee postconditions are instantiated at it"""
    t = z3.Const(name, sort)
    c.e.skolems = c.e.skolems + [t]
    return t

def draws(st, kind="u"): return st.ghost.get("draw_" + kind, ())

def rand_int(e, st, this, args, node):
    a, b = (e.t(e.rv(st, x)) for x in args)
    e.oblige(st, a < b, "random integer from a non-empty range", kind="pre")
    r = e.fresh(st, "randint", Int)
    e.assume(st, z3.And(a <= r, r < b))
    st.ghost["draw_i"] = draws(st, "i") + ((r, a, b),)
    return [(st, r)]

def rand_uniform(e, st, this, args, node):
    r = e.fresh(st, "rand", Real)
    e.assume(st, z3.And(0 <= r, r < 1))
    st.ghost["draw_u"] = draws(st, "u") + (r,)
    return [(st, r)]

def max_key(e, st, this, args, node):
    """contract of helper::get_max_key_break_ties_randomly (proved under C17)"""
    lv = args[0]
    ordA, idxA, domv, n = e.map_order(st, lv)
    for x in e.skolems:
        if x.sort() == leaf_sort(lv.sh.args[0]): e.map_dom_fact(st, lv, x)
    e.oblige(st, n > 0, "arg-max helper gets a non-empty map", kind="pre")
    ks = leaf_sort(lv.sh.args[0])
    k = e.fresh(st, "maxkey", ks)
    val = lambda x: e.leafat(st, lv, ("val",), (x,))
    vals = e.cell(st, lv.root, lv.path + ("val",)).curry(lv.idx)
    e.assume(st, domv.sel((k,)))
    e.assume(st, z3.And(0 <= idxA.sel((k,)), idxA.sel((k,)) < n))
    for x in e.skolems:
        if x.sort() == ks: e.assume(st, z3.Implies(domv.sel((x,)), vals.sel((x,)) <= vals.sel((k,))))
    st.ghost["maxkey"] = st.ghost.get("maxkey", ()) + ((k, domv, vals),)
    return [(st, e.wrap(lv.sh.args[0], k))]

def use_rand(c):
    c.e.summaries["RandManager::get_rand_int"] = rand_int
    c.e.summaries["RandManager::get_rand_uniform"] = rand_uniform
def quiet_print(c):
    for nm in ("unordered_map_pretty_print_string", "vector_pretty_print_string"):
        c.e.summaries[nm] = lambda e, st, this, args, node: [(st, Opq("str"))]
def use_argmax(c):
    c.e.summaries["get_max_key_break_ties_randomly"] = max_key

def env_fns(c, distinct=False):
    """the environment interface: pure functions of state, action, observation"""
    e = c.e
    def actions(e, st, this, args, node):
        r = e.uf("env_actions", Ref, Ref, Ref)(this.t, e.t(e.rv(st, args[0])))
        e.assume(st, z3.And(r != Null, e.uf("born", Ref, Int)(r) <= 0))
        if distinct: e.assume(st, e.leafat(st, e.heap_lv(Shape("vec", (PTR("Action"),)), r), ("nd",)))       # legal actions are listed once
        return [(st, P(r, Shape("vec", (PTR("Action"),))))]
    def trans(e, st, this, args, node):
        r = e.uf("env_trans", Ref, Ref, Ref, Ref)(this.t, *[e.t(e.rv(st, a)) for a in args[:2]])
        e.assume(st, z3.And(r != Null, e.uf("born", Ref, Int)(r) <= 0))
        return [(st, P(r, Shape("map", (PTR("State"), REAL))))]
    def reward(e, st, this, args, node):
        a = [e.t(e.rv(st, x)) for x in args] + [Null] * (3 - len(args))
        return [(st, e.uf("env_reward", Ref, Ref, Ref, Ref, Real)(this.t, *a))]
    def sink(e, st, this, args, node):
        return [(st, e.uf("env_sink", Ref, Ref, Bool)(this.t, e.t(e.rv(st, args[0]))))]
    def initial(e, st, this, args, node):
        r = e.uf("env_init", Ref, Ref)(this.t)
        e.assume(st, z3.And(r != Null, e.uf("born", Ref, Int)(r) <= 0))
        return [(st, P(r, "State"))]
    e.summaries.update({"ThtsEnv::get_valid_actions_itfc": actions, "ThtsEnv::get_transition_distribution_itfc": trans,
                        "ThtsEnv::get_reward_itfc": reward, "ThtsEnv::is_sink_state_itfc": sink, "ThtsEnv::get_initial_state_itfc": initial})

def use_child_locks(c, n):
    """lock_all_children / unlock_all_children of node n (contracts lock_all_children, C05)"""
    e = c.e
    def toggle(val):
        def sm(e, st, this, args, node):
            if this is not None and not this.t.eq(n.t): return None
            if this is None and not (args and isinstance(args[0], Lv) and args[0].root == n.children.root and args[0].path == n.children.path and args[0].idx[0].eq(n.t)): return None
            lv = e.field_lv(n.cbase, "node_lock", Null); key = (lv.root, lv.path + ("held",))
            old = e.cell(st, *key); x = e.fresh(st, "anychild", Ref)
            e.oblige(st, z3.Implies(n.isc(x), old.sel((x,)) != z3.BoolVal(val)), "children locked before unlocking" if not val else "children not locked before locking", kind="pre", props=("C05", "C06"))
            if val: n.may_lock_node(st)
            st.mem[key] = LamA(lambda r, old=old: z3.If(n.isc(r), z3.BoolVal(val), old.sel((r,))))
            return [(st, VOIDV)]
        return sm
    e.summaries[n.base + "::lock_all_children"] = toggle(True)
    e.summaries[n.base + "::unlock_all_children"] = toggle(False)
    e.summaries[n.base + "::lock_all_nodes"] = toggle(True)

def ctx_arg(c, st): return ObjL(c.ref(st, "ctx"), "ThtsEnvContext")
def rewards_args(c, st):
    """the four reward arguments of a backup: two vectors, two scalars"""
    e = c.e; vsh = Shape("vec", (REAL,))
    return [e.var_lv(st, "before", vsh), e.var_lv(st, "after", vsh)], z3.Real("ret_after"), z3.Real("ret_total")

TRUSTED_ALWAYS = ["models of the standard containers, smart pointers, mutexes and math functions in cdv (DESIGN.md, Trusted base)",
    "loop abstraction schemata of cdv/loops.py (justified in lemmas/)"]
def assumptions(prop, results):
    """assumptions left unchecked by the contracts of this run"""
    out = {"doubles are mathematical reals, ints do not overflow", "values are finite",
           "two keys of a map are the same key iff their values are equal (C18)",
           "the environment's functions are pure functions of their arguments and return non-null objects"}
    for r in results:
        for x in r.inexact: out.add("over-approximated: " + x)
    return out

class Ghost:
    """ghost state of a contract, kept in memory cells so that loops and joins treat it like program state"""
    def __init__(self, c, st, **scalars):
        self.e = c.e; self.sh = {}
        for k, (sh, v) in scalars.items(): self.scalar(st, k, sh, v)
    def scalar(self, st, name, sh, v):
        self.e.rootinfo[("ghost", name)] = (sh, ()); self.sh[name] = sh
        st.mem[(("ghost", name), ())] = ConstA(v)
    def array(self, st, name, sh, *idx):
        self.e.rootinfo[("ghost", name)] = (sh, tuple(idx)); self.sh[name] = sh
        st.mem[(("ghost", name), ())] = BaseA(z3.Function("g_%s!%d" % (name, next(self.e.cnt)), *(list(idx) + [leaf_sort(sh)])))
    def key(self, name): return (("ghost", name), ())
    def get(self, st, name, *ix): return self.e.cell(st, ("ghost", name), ()).sel(tuple(ix))
    def set(self, st, name, v, *ix):
        k = self.key(name)
        st.mem[k] = self.e.cell(st, *k).store(tuple(ix), v) if ix else ConstA(v)

def locals_of(st, mods):
    """variables of the current function the loop modifies: [(lvalue)]"""
    roots = {k[0] for k in mods}; out = []; seen = set()
    for f in st.frames[-1:]:
        for v in f.vars.values():
            if isinstance(v, Lv) and v.root in roots and v.root not in seen and not v.idx and not v.path: seen.add(v.root); out.append(v)
    return out
