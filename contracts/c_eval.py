"""C19: Monte-Carlo evaluation."""
from contracts.lib import *
from contracts.world import *
from cdv.invloop import Cand
B, I0 = z3.BoolVal, z3.IntVal(0)

def base(c):
    e = c.e; st = c.state(); env_fns(c); use_rand(c)
    e.family.update({"ThtsDNode": "ThtsDNode", "ThtsCNode": "ThtsCNode", "ThtsEnv": "ThtsEnv"})
    return e, st
def pf(e, s, p, n): return e.t(e.read(s, e.field_lv("EvalPolicy", n, p)))
PF = ("root_node", "thts_env")
def pol(c, st):
    e = c.e; p = c.ref(st, "policy")
    e.assume(st, pf(e, st, p, "thts_env") != Null)
    return p

@register("C19", name="EvalPolicy_ctor")
def p_ctor(c):
    e, st = base(c); root, env, rm = (z3.Const(x, Ref) for x in ("root", "env", "rm")); rets = []
    for o in c.ctor(st.copy(), "EvalPolicy", [P(root, "ThtsDNode"), P(env, "ThtsEnv"), ObjL(rm, "RandManager")]):
        s = o.st; rets.append(s)
        if o.kind == "throw": c.goal(s, B(False), "construction does not fail"); continue
        f = lambda n: e.t(e.read(s, e.field_lv("EvalPolicy", n, o.v.t)))
        c.goal(s, z3.And(f("root_node") == root, f("cur_node") == root, f("thts_env") == env), "a policy starts at its tree's root")
    q = c.ref(st, "other")
    for o in c.ctor(st, "EvalPolicy", [ObjL(q, "EvalPolicy")]):
        s = o.st; rets.append(s)
        if o.kind == "throw": c.goal(s, B(False), "copying does not fail"); continue
        f = lambda n, x: e.t(e.read(s, e.field_lv("EvalPolicy", n, x)))
        c.goal(s, z3.And(*[f(n, o.v.t) == f(n, q) for n in PF] + [f("cur_node", o.v.t) == f("root_node", q)]), "a copied policy follows the same tree from its root")
    return rets

@register("C19", name="EvalPolicy_reset")
def p_reset(c):
    e, st = base(c); p = pol(c, st); s0 = st.copy()
    outs = c.run(st, "EvalPolicy::reset", p, [], cls="EvalPolicy")
    for o in outs:
        if o.kind == "throw": c.goal(o.st, B(False), "resetting does not fail"); continue
        c.goal(o.st, pf(e, o.st, p, "cur_node") == pf(e, s0, p, "root_node"), "a reset policy is at the root")
        c.goal(o.st, z3.And(*[pf(e, o.st, p, n) == pf(e, s0, p, n) for n in PF]), "resetting changes nothing else")
    return [o.st for o in outs]

@register("C19", name="EvalPolicy_get_action")
def p_get(c):
    e, st = base(c); p = pol(c, st); s0 = st.copy(); state = c.ref(st, "state")
    rec = []
    def recommend(e, s, this, args, node):
        a = e.uf("recommended", Ref, Ref)(this.t); e.assume(s, a != Null); rec.append(1); return [(s, P(a, "Action"))]
    e.summaries["ThtsDNode::recommend_action_itfc"] = recommend
    av = e.uf("env_actions", Ref, Ref, Ref)(pf(e, st, p, "thts_env"), state); lv = e.heap_lv(Shape("vec", (PTR("Action"),)), av)
    e.assume(st, e.leafat(st, lv, ("len",)) > 0)
    outs = c.run(st, "EvalPolicy::get_action", p, [P(state, "State"), ctx_arg(c, st)], cls="EvalPolicy")
    for o in outs:
        s = o.st; cur = pf(e, s0, p, "cur_node")
        if o.kind == "throw": c.goal(s, B(False), "choosing an action does not fail"); continue
        d = draws(s, "i"); v = e.t(o.v)
        c.goal(s, z3.Implies(cur != Null, v == e.uf("recommended", Ref, Ref)(cur)), "inside the tree the policy acts by recommendation of the node reached")
        n = e.leafat(s, lv, ("len",))
        c.goal(s, z3.Implies(cur == Null, z3.And(d[-1][1] == 0, d[-1][2] == n, v == e.leafat(s, lv, ("el",), (d[-1][0],))) if len(d) == 1 else B(False)) if len(d) <= 1 else B(False), "outside the tree the action is the uniformly drawn one of the legal actions")
        c.goal(s, z3.And(*[pf(e, s, p, k) == pf(e, s0, p, k) for k in PF + ("cur_node",)]), "choosing an action does not move the policy")
    return [o.st for o in outs if o.kind == "ret"]

@register("C19", name="EvalPolicy_update_step")
def p_upd(c):
    e, st = base(c); p = pol(c, st); s0 = st.copy(); a, ob = c.ref(st, "action"), c.ref(st, "obs")
    cur = pf(e, st, p, "cur_node")
    dl, cl = (lambda n: e.field_lv("ThtsDNode", "children", n)), (lambda n: e.field_lv("ThtsCNode", "children", n))
    hasa = e.leafat(st, dl(cur), ("dom",), (a,)); ch = e.leafat(st, dl(cur), ("val",), (a,))
    haso = e.leafat(st, cl(ch), ("dom",), (ob,)); nd = e.leafat(st, cl(ch), ("val",), (ob,))
    e.assume(st, z3.And(z3.Implies(hasa, ch != Null), z3.Implies(haso, nd != Null)))
    outs = c.run(st, "EvalPolicy::update_step", p, [P(a, "Action"), P(ob, "Observation")], cls="EvalPolicy")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "following a step does not fail"); continue
        c.goal(s, pf(e, s, p, "cur_node") == z3.If(z3.And(cur != Null, hasa, haso), nd, Null), "the policy moves to the node reached by the history, or leaves the tree")
        c.goal(s, z3.And(*[pf(e, s, p, k) == pf(e, s0, p, k) for k in PF]), "following a step changes nothing else")
    return [o.st for o in outs if o.kind == "ret"]

def ef(e, s, v, n): return e.t(e.read(s, e.field_lv("MCEvaluator", n, v)))
def evaluator(c, st):
    e = c.e; v = c.ref(st, "evaluator"); env = ef(e, st, v, "thts_env"); e.assume(st, env != Null)
    e.setleaf(st, e.field_lv("MCEvaluator", "lock", v), ("held",), (), B(False))
    return v, env

@register("C19", name="run_rollout")
def rollout(c):
    e, st = base(c); v, env = evaluator(c, st); p = c.ref(st, "policy")
    e.assume(st, pf(e, st, p, "thts_env") == env)
    init = e.uf("env_init", Ref, Ref)(env); mx = ef(e, st, v, "max_trial_length")
    rl = e.field_lv("MCEvaluator", "sampled_returns", v)
    G = Ghost(c, st, n=(INT, I0), ret=(REAL, z3.RealVal(0)), state=(PTR("State"), init), act=(PTR("Action"), Null), nxt=(PTR("State"), Null), ob=(PTR("Observation"), Null), phase=(INT, I0), rec=(INT, I0), L0=(INT, I0))
    G.array(st, "old", REAL, Int)
    sink = lambda s: e.uf("env_sink", Ref, Ref, Bool)(env, G.get(s, "state"))
    ob = lambda s, g, t: e.oblige(s, g, t, kind="pre")
    T = lambda s, x: e.t(e.rv(s, x))
    def get(e, s, this, args, node):
        ob(s, z3.And(this.t == p, G.get(s, "phase") == 0, T(s, args[0]) == G.get(s, "state")), "one action per step is asked of the thread's policy, at the current state")
        ob(s, z3.Implies(G.get(s, "n") == 0, pf(e, s, p, "cur_node") == pf(e, s, p, "root_node")), "a rollout starts with a reset policy")
        ob(s, G.get(s, "n") < mx, "a rollout takes at most the configured number of actions"); ob(s, z3.Not(sink(s)), "a rollout stops at a terminal state")
        a = e.fresh(s, "act", Ref); e.assume(s, a != Null); G.set(s, "act", a); G.set(s, "phase", z3.IntVal(1)); return [(s, P(a, "Action"))]
    def trans(e, s, this, args, node):
        ob(s, z3.And(this.t == env, G.get(s, "phase") == 1, T(s, args[0]) == G.get(s, "state"), T(s, args[1]) == G.get(s, "act")), "the next state is sampled once per step for the current state and action")
        x = e.fresh(s, "next", Ref); e.assume(s, x != Null); G.set(s, "nxt", x); G.set(s, "phase", z3.IntVal(2)); return [(s, P(x, "State"))]
    def obs(e, s, this, args, node):
        ob(s, z3.And(this.t == env, G.get(s, "phase") == 2, T(s, args[0]) == G.get(s, "act"), T(s, args[1]) == G.get(s, "nxt")), "the observation is sampled once per step for the action and next state")
        x = e.fresh(s, "obs", Ref); e.assume(s, x != Null); G.set(s, "ob", x); G.set(s, "phase", z3.IntVal(3)); return [(s, P(x, "Observation"))]
    def upd(e, s, this, args, node):
        ob(s, z3.And(this.t == p, G.get(s, "phase") == 3, T(s, args[0]) == G.get(s, "act"), T(s, args[1]) == G.get(s, "ob")), "the policy is told every step's action and observation, once")
        G.set(s, "ret", G.get(s, "ret") + e.uf("env_reward", Ref, Ref, Ref, Ref, Real)(env, G.get(s, "state"), G.get(s, "act"), G.get(s, "ob")))
        G.set(s, "state", G.get(s, "nxt")); G.set(s, "n", G.get(s, "n") + 1); G.set(s, "phase", I0)
        e.write(s, e.field_lv("EvalPolicy", "cur_node", p), P(e.fresh(s, "cur", Ref), "ThtsDNode"))
        return [(s, VOIDV)]
    def ctx(e, s, this, args, node):
        ob(s, z3.And(this.t == env, T(s, args[0]) == init), "the context is sampled for the initial state"); r = e.fresh(s, "ctx", Ref); e.assume(s, r != Null); return [(s, P(r, "ThtsEnvContext"))]
    e.summaries.update({"EvalPolicy::get_action": get, "ThtsEnv::sample_transition_distribution_itfc": trans, "ThtsEnv::sample_observation_distribution_itfc": obs, "EvalPolicy::update_step": upd, "ThtsEnv::sample_context_itfc": ctx})
    def acquire(e, s, lv):
        if lv.root != ("fld", "MCEvaluator", "lock"): return
        n = e.fresh(s, "nret", Int); e.assume(s, n >= 0)
        for pth, ix, so in leaves(rl.sh):
            k = (rl.root, pth); s.mem[k] = e.cell(s, *k).slice((v,), e.fresh_arr(s, "others", list(ix), so)) if ix else s.mem.get(k, e.cell(s, *k))
        e.setleaf(s, rl, ("len",), (), n); G.set(s, "L0", n)
        cell = e.cell(s, rl.root, ("el",)); s.mem[G.key("old")] = LamA(lambda i, cell=cell: cell.sel((v, i)))
    def release(e, s, lv):
        if lv.root != ("fld", "MCEvaluator", "lock"): return
        i = e.fresh(s, "i", Int); L0 = G.get(s, "L0"); ln = e.leafat(s, rl, ("len",))
        ob(s, z3.Implies(z3.And(0 <= i, i < L0), e.leafat(s, rl, ("el",), (i,)) == G.get(s, "old", i)), "returns recorded before stay")
        ob(s, z3.Or(ln == L0, z3.And(ln == L0 + 1, G.get(s, "phase") == 0, z3.Or(G.get(s, "n") >= mx, sink(s)), e.leafat(s, rl, ("el",), (L0,)) == G.get(s, "ret"))), "the recorded return is the sum of the rewards of the whole rollout")
        G.set(s, "rec", G.get(s, "rec") + ln - L0)
    def access(e, s, lv, write):
        if lv.root == rl.root and lv.idx and lv.idx[0].eq(v): e.oblige(s, e.leafat(s, e.field_lv("MCEvaluator", "lock", v), ("held",)), "returns are recorded under the evaluator's mutex", kind="lock")
    e.hooks.update({"acquire": acquire, "release": release}); e.access_check = access
    def inv(eng, s, mods):
        out = [Cand("phase", lambda s, x: G.get(s, "phase") == 0), Cand("n", lambda s, x: G.get(s, "n") >= 0), Cand("start", lambda s, x: z3.Implies(G.get(s, "n") == 0, z3.And(pf(e, s, p, "cur_node") == pf(e, s, p, "root_node"), G.get(s, "state") == init))),
               Cand("bound", lambda s, x: z3.Or(G.get(s, "n") == 0, G.get(s, "n") <= mx)), Cand("state", lambda s, x: G.get(s, "state") != Null)]
        for l in locals_of(s, mods):
            rd = lambda s, l=l: e.t(e.read(s, l))
            if l.sh.k == "int": out += [Cand("cnt", lambda s, x, rd=rd: rd(s) == G.get(s, "n")), Cand("left", lambda s, x, rd=rd: rd(s) == mx - G.get(s, "n"))]
            if l.sh.k == "real": out.append(Cand("ret", lambda s, x, rd=rd: rd(s) == G.get(s, "ret")))
            if l.sh.k == "ptr": out += [Cand("st", lambda s, x, rd=rd: rd(s) == G.get(s, "state"))]
            if l.sh.k == "bool": out += [Cand("go", lambda s, x, rd=rd: rd(s) == z3.And(G.get(s, "n") < mx, z3.Not(sink(s)))), Cand("end", lambda s, x, rd=rd: rd(s) != z3.And(G.get(s, "n") < mx, z3.Not(sink(s)))), Cand("sink", lambda s, x, rd=rd: rd(s) == sink(s)), Cand("nsink", lambda s, x, rd=rd: rd(s) != sink(s))]
        return out
    e.hooks["inv"] = inv
    outs = c.run(st, "MCEvaluator::run_rollout", v, [ObjL(p, "EvalPolicy")], cls="MCEvaluator")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "a rollout does not fail"); continue
        c.goal(s, G.get(s, "rec") == 1, "a rollout records exactly one return")
        c.goal(s, z3.Not(e.leafat(s, e.field_lv("MCEvaluator", "lock", v), ("held",))), "a rollout releases the evaluator's mutex")
    return [o.st for o in outs if o.kind == "ret"]

@register("C19", name="thread_run_rollouts")
def thread_rollouts(c):
    e, st = base(c); v, env = evaluator(c, st); p = c.ref(st, "policy")
    R, t, K = z3.Int("total"), z3.Int("thread_id"), z3.Int("num_threads")
    e.assume(st, z3.And(K >= 1, 0 <= t, t < K))
    G = Ghost(c, st, n=(INT, I0))
    nk = e.uf("times_threads", Int, Int)     # n * K, by its recursive definition
    e.assume(st, nk(I0) == 0)
    def unfold(s, n): e.assume(s, nk(n + 1) == nk(n) + K)
    def ro(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == v, args[0].t == p), "a thread runs rollouts of the evaluator with its own policy", kind="pre")
        unfold(s, G.get(s, "n")); unfold(s, G.get(s, "n") - 1); G.set(s, "n", G.get(s, "n") + 1); return [(s, VOIDV)]
    e.summaries["MCEvaluator::run_rollout"] = ro
    mine = lambda s, n: t + nk(n)       # index of the thread's n-th rollout
    def inv(eng, s, mods):
        out = [Cand("n", lambda s, x: G.get(s, "n") >= 0), Cand("last", lambda s, x: z3.Or(G.get(s, "n") == 0, mine(s, G.get(s, "n")) - K < R)), Cand("j", lambda s, x: G.get(s, "n") == s.ghost["loopj"]),
               Cand("share", lambda s, x: z3.Or(G.get(s, "n") == 0, G.get(s, "n") <= R / K + z3.If(t < R % K, 1, 0)))]
        for l in locals_of(s, mods):
            if l.sh.k == "int": out.append(Cand("i", lambda s, x, l=l: e.t(e.read(s, l)) == mine(s, G.get(s, "n")))); out.append(Cand("cnt", lambda s, x, l=l: e.t(e.read(s, l)) == G.get(s, "n")))
        return out
    e.hooks["inv"] = inv
    outs = c.run(st, "MCEvaluator::thread_run_rollouts", v, [R, t, K, P(p, "EvalPolicy")], cls="MCEvaluator")
    for o in outs:
        s = o.st; n = G.get(s, "n")
        if o.kind == "throw": c.goal(s, B(False), "a thread's rollouts do not fail"); continue
        e.assume(s, nk(n) == n * K)
        c.goal(s, z3.And(n >= 0, mine(s, n) >= R, z3.Or(n == 0, mine(s, n) - K < R)), "a thread runs exactly the rollouts whose index is its own modulo the number of threads")
    return [o.st for o in outs if o.kind == "ret"]

@register("C19", name="run_rollouts")
def run_rollouts(c):
    e, st = base(c); v, env = evaluator(c, st); R, K = z3.Int("num_rollouts"), z3.Int("num_threads"); e.assume(st, K >= 1)
    pol0 = e.cell(st, e.field_lv("MCEvaluator", "policy", v).root, ()).sel((v,)); e.assume(st, z3.And(pol0 != Null, e.uf("born", Ref, Int)(pol0) <= 0))
    G = Ghost(c, st, n=(INT, I0))
    for a in ("own", "sp", "jn"): G.array(st, a, BOOL, Ref if a == "own" else Int); st.mem[G.key(a)] = ConstA(B(False))
    def copy(e, s, this, args, node):
        x = args[0]
        if not isinstance(x, ObjL): return None
        for n in PF: e.write(s, e.field_lv("EvalPolicy", n, this.t), e.read(s, e.field_lv("EvalPolicy", n, x.t)))
        e.oblige(s, x.t == pol0, "threads get copies of the evaluator's policy", kind="pre")
        G.set(s, "own", B(True), this.t); return [(s, VOIDV)]
    e.summaries["EvalPolicy::EvalPolicy"] = copy
    def spawn(e, s, vs):
        if not (isinstance(vs[0], FnV) and vs[0].name.endswith("::thread_run_rollouts") and len(vs) == 6): raise Unsupported("thread function")
        a = [e.t(e.rv(s, x)) if not isinstance(x, ObjL) else x.t for x in vs[1:]]
        e.oblige(s, z3.And(a[0] == v, a[1] == R, a[3] == K), "threads share out the requested rollouts", kind="pre")
        e.oblige(s, z3.And(0 <= a[2], a[2] < K, z3.Not(G.get(s, "sp", a[2]))), "every thread gets a number of its own", kind="pre")
        e.oblige(s, G.get(s, "own", a[4]), "every thread gets a policy of its own", kind="pre")
        G.set(s, "own", B(False), a[4]); G.set(s, "sp", B(True), a[2]); k = G.get(s, "n") + 1; G.set(s, "n", k); return k
    e.hooks["spawn"] = spawn
    def jn(e, s, b, args):
        h = e.t(e.rv(s, b)); e.oblige(s, z3.And(1 <= h, h <= G.get(s, "n"), z3.Not(G.get(s, "jn", h))), "every thread is joined once", kind="pre"); G.set(s, "jn", B(True), h); return [(s, VOIDV)]
    e.hooks[("thread", "join")] = jn
    def inv(eng, s, mods):
        one = lambda a: (a[-1],)
        out = [Cand("n", lambda s, x: z3.And(0 <= G.get(s, "n"), G.get(s, "n") <= K)), Cand("sp", lambda s, x: G.get(s, "sp", x[0]) == z3.And(0 <= x[0], x[0] < G.get(s, "n")), [Int], [(G.key("sp"), one)]),
               Cand("jn j", lambda s, x: G.get(s, "jn", x[0]) == z3.And(1 <= x[0], x[0] <= s.ghost["loopj"]), [Int], [(G.key("jn"), one)])]
        for f in s.frames[-1:]:
            for l in f.vars.values():
                if isinstance(l, Lv) and l.sh.k == "vec" and l.sh.args[0].cls == "thread":
                    k = (l.root, ("el",))
                    out += [Cand("len", lambda s, x, l=l: e.leafat(s, l, ("len",)) == G.get(s, "n")), Cand("len", lambda s, x, l=l: e.leafat(s, l, ("len",)) == K), Cand("el", lambda s, x, l=l: z3.Implies(z3.And(0 <= x[0], x[0] < G.get(s, "n")), e.leafat(s, l, ("el",), (x[0],)) == x[0] + 1), [Int], [(k, one)])]
        for l in locals_of(s, mods):
            if l.sh.k == "int":
                r = lambda s, l=l: e.t(e.read(s, l))
                out += [Cand("i", lambda s, x, r=r: r(s) == G.get(s, "n")), Cand("jn i", lambda s, x, r=r: G.get(s, "jn", x[0]) == z3.And(1 <= x[0], x[0] <= r(s)), [Int], [(G.key("jn"), one)]), Cand("i0", lambda s, x, r=r: z3.And(0 <= r(s), r(s) <= K))]
        return out
    e.hooks["inv"] = inv
    i = z3.Int("i")
    outs = c.run(st, "MCEvaluator::run_rollouts", v, [R, K], cls="MCEvaluator")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "running rollouts does not fail"); continue
        c.goal(s, z3.Implies(z3.And(0 <= i, i < K), G.get(s, "sp", i)), "every thread's share is run")
        c.goal(s, z3.Implies(z3.And(1 <= i, i <= G.get(s, "n")), G.get(s, "jn", i)), "the call returns only after every rollout has ended")
        c.goal(s, G.get(s, "n") == K, "the requested number of threads is used")
    return [o.st for o in outs if o.kind == "ret"]

def stats(c):
    e, st = base(c); v, env = evaluator(c, st); rl = e.field_lv("MCEvaluator", "sampled_returns", v); n = e.leafat(st, rl, ("len",))
    b = z3.Int("b_" + str(next(e.cnt))); el = e.cell(st, rl.root, ("el",))
    return e, st, v, n, b, (lambda i: el.sel((v, i)))
@register("C19", name="get_mean_return")
def mean(c):
    e, st, v, n, b, x = stats(c); e.assume(st, n >= 1)
    S = e.pv.idx_sum([], b, x(b), N=n, name="returns")
    outs = c.run(st, "MCEvaluator::get_mean_return", v, [], cls="MCEvaluator")
    for o in outs:
        if o.kind == "throw": c.goal(o.st, B(False), "the mean does not fail"); continue
        c.goal(o.st, e.t(o.v) * z3.ToReal(n) == S.decl(n), "the reported mean is the sample mean")
    return [o.st for o in outs if o.kind == "ret"]
@register("C19", name="get_stddev_return")
def stddev(c):
    e, st, v, n, b, x = stats(c); e.assume(st, n >= 2)
    m = z3.Real("mean_ret")
    e.summaries["MCEvaluator::get_mean_return"] = lambda e, s, this, args, node: [(s, m)]       # contract get_mean_return
    S = e.pv.idx_sum([], b, (x(b) - m) * (x(b) - m), N=n, name="sq")
    outs = c.run(st, "MCEvaluator::get_stddev_return", v, [], cls="MCEvaluator")
    for o in outs:
        if o.kind == "throw": c.goal(o.st, B(False), "the standard deviation does not fail"); continue
        r = e.t(o.v)
        c.goal(o.st, r >= 0, "the reported standard deviation is not negative")
        sq = r.arg(0) if z3.is_app(r) and r.decl().eq(sqrt_) else r * r        # r is the root of its argument (trusted: sqrt)
        c.goal(o.st, sq * (z3.ToReal(n) - 1) == S.decl(n), "the reported standard deviation is the sample standard deviation (n-1)")
    return [o.st for o in outs if o.kind == "ret"]
