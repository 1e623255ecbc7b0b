"""C03, C04: the phases of a trial."""
from contracts.lib import *
from contracts.world import *
from cdv.invloop import Cand

VPAIR = Shape("vec", (Shape("tup", (PTR("ThtsDNode"), PTR("ThtsCNode"))),))
VREAL = Shape("vec", (REAL,))

def pool_setup(c):
    e = c.e; st = c.state(); env_fns(c)
    p = c.ref(st, "pool")
    e.family.update({"ThtsDNode": "ThtsDNode", "ThtsCNode": "ThtsCNode", "ThtsManager": "ThtsManager", "ThtsEnv": "ThtsEnv", "ThtsLogger": "ThtsLogger"})
    mgr = e.fld(st, p, "ThtsPool", "thts_manager").t; root = e.fld(st, p, "ThtsPool", "root_node").t
    env = e.fld(st, mgr, "ThtsManager", "thts_env").t
    for x in (mgr, root, env): e.assume(st, x != Null)
    return e, st, p, mgr, env, root

def dfld(e, s, n, f, cls="ThtsDNode"):
    v = e.fld(s, n, cls, f); return v.t if isinstance(v, P) else v
def held(e, s, n, cls): return e.leafat(s, e.field_lv(cls, "node_lock", n), ("held",))

@register("C03", "C05", "C06", name="run_selection_phase", cost=3)
def selection(c):
    e, st, p, mgr, env, root = pool_setup(c)
    c.props = e.props = ("C03",)
    G = Ghost(c, st, phase=(INT, z3.IntVal(0)), cur=(PTR("ThtsDNode"), root), act=(PTR("Action"), Null), chance=(PTR("ThtsCNode"), Null),
              created=(BOOL, z3.BoolVal(False)), steps=(INT, z3.IntVal(0)))
    G.array(st, "pd", PTR("ThtsDNode"), Int); G.array(st, "pc", PTR("ThtsCNode"), Int); G.array(st, "pr", REAL, Int)
    mgrof = lambda s, n: dfld(e, s, n, "thts_manager")
    def same_search(s, n):          # every node of the tree belongs to the pool's search
        e.assume(s, z3.And(n != Null, mgrof(s, n) == mgr))
    same_search(st, root)
    leaf = lambda s, n: z3.Or(e.uf("env_sink", Ref, Ref, Bool)(env, dfld(e, s, n, "state")), dfld(e, s, n, "decision_depth") >= e.fld(s, mgr, "ThtsManager", "max_depth"))
    stop = lambda s, n: z3.Or(leaf(s, n), z3.And(e.fld(s, mgr, "ThtsManager", "mcts_mode"), G.get(s, "created")))
    def havoc_children(s, base, n, key=None):
        """other threads (or the callee) may have changed the node's children; returns (old size, new size)"""
        lv = e.field_lv(base, "children", n); old = e.leafat(s, lv, ("n",))
        for pth in (("dom",), ("val",)):
            k = (lv.root, pth); a = e.cell(s, *k); ix, so = e.leafinfo(*k)
            s.mem[k] = a.slice((n,), e.fresh_arr(s, "kids", list(ix)[1:], so))
        nn = e.fresh(s, "nkids", Int); e.assume(s, nn >= 0); e.setleaf(s, lv, ("n",), (), nn)
        if key is not None:
            ch = e.leafat(s, lv, ("val",), (key,))
            e.assume(s, z3.And(e.leafat(s, lv, ("dom",), (key,)), ch != Null))
            return old, nn, ch
        return old, nn, None
    def acquire(e, s, lv):
        if lv.root[0] == "fld" and lv.root[1] in ("ThtsDNode", "ThtsCNode"): havoc_children(s, lv.root[1], lv.idx[0])
    e.hooks["acquire"] = acquire
    def prelock(e, s, lv):
        if not (lv.root[0] == "fld" and lv.root[2] == "node_lock"): return
        o = lv.idx[0]; y = e.fresh(s, "anynode", Ref); k = G.get(s, "steps"); ob = lambda g, b, t: e.oblige(s, z3.Implies(held(e, s, y, b), g), t, kind="lock", props=("C06",))
        if lv.root[1] == "ThtsCNode":
            ob(z3.And(y == G.get(s, "cur"), o == G.get(s, "chance")), "ThtsDNode", "a chance node is locked while no node but its parent is")
            ob(B_(False), "ThtsCNode", "no two chance nodes are locked at a time while descending")
        else:
            ob(z3.And(k > 0, o == G.get(s, "cur"), y == G.get(s, "pc", k - 1)), "ThtsCNode", "a decision node is locked while no node but its parent is")
            ob(z3.And(k > 0, o == G.get(s, "cur"), y == G.get(s, "pd", k - 1)), "ThtsDNode", "a decision node is locked while no node but its parents are")
    B_ = z3.BoolVal
    if not e.only or "C05" in e.only: e.access_check = node_access
    e.hooks["prelock"] = prelock
    def dvisit(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == G.get(s, "cur"), G.get(s, "phase") == 0), "each decision node of the path is visited exactly once, in order", kind="pre")
        e.oblige(s, held(e, s, this.t, "ThtsDNode"), "a node is visited under its lock", kind="lock", props=("C05",))
        G.set(s, "phase", z3.IntVal(1)); return [(s, VOIDV)]
    def dselect(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == G.get(s, "cur"), G.get(s, "phase") == 1), "an action is selected at the visited node", kind="pre")
        e.oblige(s, z3.Not(stop(s, this.t)), "the descent goes on only below a non-leaf and, in MCTS mode, before a node was created", kind="pre")
        e.oblige(s, held(e, s, this.t, "ThtsDNode"), "an action is selected under the node's lock", kind="lock", props=("C05",))
        a = e.fresh(s, "action", Ref); e.assume(s, a != Null)
        o, n_, ch = havoc_children(s, "ThtsDNode", this.t, a)
        e.assume(s, z3.And(n_ >= o))
        G.set(s, "act", a); G.set(s, "chance", ch); G.set(s, "phase", z3.IntVal(2))
        return [(s, P(a, "Action"))]
    def cvisit(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == G.get(s, "chance"), G.get(s, "phase") == 2), "the chance node of the selected action is visited exactly once", kind="pre")
        e.oblige(s, held(e, s, this.t, "ThtsCNode"), "a node is visited under its lock", kind="lock", props=("C05",))
        G.set(s, "phase", z3.IntVal(3)); return [(s, VOIDV)]
    def csample(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == G.get(s, "chance"), G.get(s, "phase") == 3), "the observation is sampled at the visited chance node", kind="pre")
        e.oblige(s, held(e, s, this.t, "ThtsCNode"), "an observation is sampled under the node's lock", kind="lock", props=("C05",))
        ob = e.fresh(s, "obs", Ref); e.assume(s, ob != Null)
        o, n_, ch = havoc_children(s, "ThtsCNode", this.t, ob)
        e.assume(s, z3.Or(n_ == o, n_ == o + 1)); same_search(s, ch)
        k = G.get(s, "steps"); cur = G.get(s, "cur")
        G.set(s, "created", z3.Or(G.get(s, "created"), n_ == o + 1))
        G.set(s, "pd", cur, k); G.set(s, "pc", this.t, k)
        G.set(s, "pr", e.uf("env_reward", Ref, Ref, Ref, Ref, Real)(env, dfld(e, s, cur, "state"), G.get(s, "act"), ob), k)
        G.set(s, "steps", k + 1); G.set(s, "cur", ch); G.set(s, "phase", z3.IntVal(0))
        return [(s, P(ob, "Observation"))]
    e.summaries.update({"ThtsDNode::visit_itfc": dvisit, "ThtsDNode::select_action_itfc": dselect, "ThtsCNode::visit_itfc": cvisit, "ThtsCNode::sample_observation_itfc": csample})
    nodes, rew = e.var_lv(st, "nodes", VPAIR), e.var_lv(st, "rewards", VREAL)
    for v in (nodes, rew): e.write(st, v, empty_cont(v.sh))
    hd = e.cell(st, ("fld", "ThtsDNode", "node_lock"), ("held",)) if ("fld", "ThtsDNode", "node_lock") in e.rootinfo else None
    for b in ("ThtsDNode", "ThtsCNode"):     # this thread holds no lock
        lv = e.field_lv(b, "node_lock", Null); k = (lv.root, ("held",)); st.mem[k] = ConstA(z3.BoolVal(False))
    def rec(s, i):
        return z3.Implies(z3.And(0 <= i, i < G.get(s, "steps")), z3.And(e.leafat(s, nodes, ("el", 0), (i,)) == G.get(s, "pd", i), e.leafat(s, nodes, ("el", 1), (i,)) == G.get(s, "pc", i),
                        e.leafat(s, rew, ("el",), (i,)) == G.get(s, "pr", i)))
    def inv(eng, s, mods):
        out = [Cand("phase", lambda s, x: G.get(s, "phase") == 0), Cand("steps", lambda s, x: G.get(s, "steps") >= 0),
               Cand("nodes", lambda s, x: e.leafat(s, nodes, ("len",)) == G.get(s, "steps")), Cand("rewards", lambda s, x: e.leafat(s, rew, ("len",)) == G.get(s, "steps")),
               Cand("search", lambda s, x: z3.And(G.get(s, "cur") != Null, mgrof(s, G.get(s, "cur")) == mgr)),
               Cand("record", lambda s, x: rec(s, x[0]), [Int], [(k, lambda a: (a[-1],)) for k in (G.key("pd"), G.key("pc"), G.key("pr"), (nodes.root, ("el", 0)), (rew.root, ("el",)))])]
        for b in ("ThtsDNode", "ThtsCNode"):
            k = (("fld", b, "node_lock"), ("held",))
            out.append(Cand("locks", lambda s, x, b=b: z3.Not(held(e, s, x[0], b)), [Ref], [(k, lambda a: (a[-1],))]))
        for v in locals_of(s, mods):
            if v.sh.k == "ptr" and v.sh.cls == "ThtsDNode": out.append(Cand("cur", lambda s, x, v=v: e.t(e.read(s, v)) == G.get(s, "cur")))
            if v.sh.k == "bool":
                out.append(Cand("created", lambda s, x, v=v: e.read(s, v) == G.get(s, "created"))); out.append(Cand("not created", lambda s, x, v=v: e.read(s, v) != G.get(s, "created")))
                out.append(Cand("goes on", lambda s, x, v=v: e.read(s, v) == z3.Not(stop(s, G.get(s, "cur"))))); out.append(Cand("stops", lambda s, x, v=v: e.read(s, v) == stop(s, G.get(s, "cur"))))
            if v.sh.k == "int": out.append(Cand("count", lambda s, x, v=v: e.read(s, v) == G.get(s, "steps")))
        return out
    e.hooks["inv"] = inv
    i = z3.Int("i"); x = sk(c, "x")
    outs = c.run(st, "ThtsPool::run_selection_phase", p, [nodes, rew, ctx_arg(c, st)], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "the selection phase does not fail"); continue
        cur, n = G.get(s, "cur"), G.get(s, "steps")
        c.goal(s, z3.And(G.get(s, "phase") == 1), "the final node of the path is visited once")
        c.goal(s, stop(s, cur), "the path ends exactly at a leaf or, in MCTS mode, after the step that created a node")
        c.goal(s, z3.And(e.leafat(s, nodes, ("len",)) == n, e.leafat(s, rew, ("len",)) == n + 1), "one pair per step and one reward per step plus the heuristic value")
        c.goal(s, rec(s, i), "pairs and rewards are recorded in path order")
        c.goal(s, e.leafat(s, rew, ("el",), (n,)) == dfld(e, s, cur, "heuristic_value"), "the last reward is the heuristic value of the final node")
        for b in ("ThtsDNode", "ThtsCNode"): c.goal(s, z3.Not(held(e, s, x, b)), "every lock taken is released", props=("C05",))
    return [o.st for o in outs if o.kind == "ret"]

@register("C04", "C05", "C06", name="run_backup_phase", cost=3)
def backup(c):
    e, st, p, mgr, env, root = pool_setup(c)
    c.props = e.props = ("C04",)
    nodes, rew = e.var_lv(st, "nodes", VPAIR), e.var_lv(st, "rewards", VREAL)
    T = e.leafat(st, nodes, ("len",)); e.assume(st, z3.And(T >= 0, e.leafat(st, rew, ("len",)) == T + 1))
    D0, C0, R0 = (e.cell(st, nodes.root, ("el", 0)), e.cell(st, nodes.root, ("el", 1)), e.cell(st, rew.root, ("el",)))
    for a in (D0, C0): st.gens.setdefault(a.decl.name(), []).append(lambda x, a=a: [z3.Implies(z3.And(0 <= x[0], x[0] < T), a.sel((x[0],)) != Null)])
    b = z3.Int("b_" + str(next(e.cnt)))
    S = e.pv.idx_sum([], b, R0.sel((b,)), N=T + 1, name="ret")
    G = Ghost(c, st, j=(INT, z3.IntVal(0)), phase=(INT, z3.IntVal(0)))
    for bs in ("ThtsDNode", "ThtsCNode"):
        lv = e.field_lv(bs, "node_lock", Null); st.mem[(lv.root, ("held",))] = ConstA(z3.BoolVal(False))
    def prelock(e, s, lv):
        if not (lv.root[0] == "fld" and lv.root[2] == "node_lock"): return
        o = lv.idx[0]; y = e.fresh(s, "anynode", Ref); t = T - 1 - G.get(s, "j"); ob = lambda g, b, tx: e.oblige(s, z3.Implies(held(e, s, y, b), g), tx, kind="lock", props=("C06",))
        ob(z3.And(z3.BoolVal(lv.root[1] == "ThtsCNode"), o == C0.sel((t,)), y == D0.sel((t,))), "ThtsDNode", "a node is locked for its backup while no node but its parent is")
        ob(z3.BoolVal(False), "ThtsCNode", "a node is locked for its backup while no chance node is")
    e.hooks["prelock"] = prelock
    if not e.only or "C05" in e.only: e.access_check = node_access
    prefix = lambda s, v, n, i: z3.Implies(z3.And(0 <= i, i < n), e.leafat(s, v, ("el",), (i,)) == R0.sel((i,)))
    suffix = lambda s, v, n, i: z3.Implies(z3.And(0 <= i, i < n), e.leafat(s, v, ("el",), (i,)) == R0.sel((T - i,)))
    after = lambda n: S.decl(T + 1) - S.decl(n)
    def bk(base, ph, what):
        def sm(e, s, this, args, node):
            t = T - 1 - G.get(s, "j")
            e.assume(s, z3.Implies(z3.And(0 <= t, t <= T), S.decl(T - G.get(s, "j")) == S.decl(t) + R0.sel((t,))))      # definition of the prefix sum
            e.oblige(s, z3.And(G.get(s, "phase") == ph, G.get(s, "j") < T, this.t == (C0 if ph == 0 else D0).sel((t,))), "%s nodes are backed up once each, last to first, chance before decision" % what, kind="pre")
            e.oblige(s, held(e, s, this.t, base), "a node is backed up under its lock", kind="lock", props=("C05",))
            i = e.fresh(s, "i", Int); bf, af = args[0], args[1]
            e.oblige(s, z3.And(e.leafat(s, bf, ("len",)) == t, prefix(s, bf, t, i)), "%s backup gets the rewards before its step, in order" % what, kind="pre")
            e.oblige(s, z3.And(e.leafat(s, af, ("len",)) == T + 1 - t, suffix(s, af, T + 1 - t, i)), "%s backup gets the rewards from the heuristic value back to its step" % what, kind="pre")
            ra, r = (e.coerce(e.t(e.rv(s, x)), Real) for x in args[2:4])
            e.oblige(s, ra == after(t), "%s backup gets the sum of the rewards from its step on" % what, kind="pre")
            e.oblige(s, r == S.decl(T + 1), "%s backup gets the sum of all rewards" % what, kind="pre")
            if ph == 0: G.set(s, "phase", z3.IntVal(1))
            else: G.set(s, "phase", z3.IntVal(0)); G.set(s, "j", G.get(s, "j") + 1)
            return [(s, VOIDV)]
        return sm
    e.summaries.update({"ThtsCNode::backup_itfc": bk("ThtsCNode", 0, "chance"), "ThtsDNode::backup_itfc": bk("ThtsDNode", 1, "decision")})
    def inv(eng, s, mods):
        J = lambda s: G.get(s, "j")
        out = [Cand("phase", lambda s, x: G.get(s, "phase") == 0), Cand("j", lambda s, x: z3.And(0 <= J(s), J(s) <= T))]
        for bs in ("ThtsDNode", "ThtsCNode"):
            k = (("fld", bs, "node_lock"), ("held",))
            out.append(Cand("locks", lambda s, x, b=bs: z3.Not(held(e, s, x[0], b)), [Ref], [(k, lambda a: (a[-1],))]))
        cands = locals_of(s, mods)
        for v in (nodes, rew):
            if v not in cands and v.root in {k[0] for k in mods}: cands = cands + [v]
        for v in cands:
            rd = lambda s, v=v: e.read(s, v)
            ln = lambda s, v=v: e.leafat(s, v, ("len",))
            if v.sh.k == "vec":
                out.append(Cand("len T-j", lambda s, x, ln=ln: ln(s) == T - J(s))); out.append(Cand("len T+1-j", lambda s, x, ln=ln: ln(s) == T + 1 - J(s)))
                out.append(Cand("len j+1", lambda s, x, ln=ln: ln(s) == J(s) + 1)); out.append(Cand("len j", lambda s, x, ln=ln: ln(s) == J(s)))
                if v.sh.key() == VREAL.key():
                    k = (v.root, ("el",))
                    out.append(Cand("prefix", lambda s, x, v=v: prefix(s, v, e.leafat(s, v, ("len",)), x[0]), [Int], [(k, lambda a: (a[-1],))]))
                    out.append(Cand("suffix", lambda s, x, v=v: suffix(s, v, e.leafat(s, v, ("len",)), x[0]), [Int], [(k, lambda a: (a[-1],))]))
                elif v.sh.key() == VPAIR.key():
                    f = lambda s, x, v=v: z3.Implies(z3.And(0 <= x[0], x[0] < e.leafat(s, v, ("len",))), z3.And(e.leafat(s, v, ("el", 0), (x[0],)) == D0.sel((x[0],)), e.leafat(s, v, ("el", 1), (x[0],)) == C0.sel((x[0],))))
                    out.append(Cand("nodes", f, [Int], [((v.root, ("el", 0)), lambda a: (a[-1],)), ((v.root, ("el", 1)), lambda a: (a[-1],))]))
            if v.sh.k == "real":
                for nm, g in (("after", lambda s: after(T - J(s))), ("before", lambda s: S.decl(T - J(s)))):
                    out.append(Cand(nm, lambda s, x, rd=rd, g=g: rd(s) == g(s)))
            if v.sh.k == "int":
                for nm, g in (("j", lambda s: J(s)), ("T-j", lambda s: T - J(s)), ("T-1-j", lambda s: T - 1 - J(s)), ("T+1-j", lambda s: T + 1 - J(s))):
                    out.append(Cand(nm, lambda s, x, rd=rd, g=g: rd(s) == g(s)))
        return out
    e.hooks["inv"] = inv
    unfold = lambda n: z3.Implies(z3.And(0 <= n, n <= T), S.decl(n + 1) == S.decl(n) + R0.sel((n,)))       # definition of the prefix sum
    e.assume(st, unfold(T))
    x = sk(c, "x")
    outs = c.run(st, "ThtsPool::run_backup_phase", p, [nodes, rew, ctx_arg(c, st)], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "the backup phase does not fail"); continue
        c.goal(s, z3.And(G.get(s, "j") == T, G.get(s, "phase") == 0), "every recorded pair is backed up")
        for bs in ("ThtsDNode", "ThtsCNode"): c.goal(s, z3.Not(held(e, s, x, bs)), "every lock taken is released", props=("C05",))
    return [o.st for o in outs if o.kind == "ret"]

@register("C03", "C04", "C20", name="run_thts_trial")
def trial(c):
    e, st, p, mgr, env, root = pool_setup(c)
    c.props = e.props = ("C03", "C04")
    G = Ghost(c, st, phase=(INT, z3.IntVal(0)), logged=(INT, z3.IntVal(0)), ctx=(PTR("ThtsEnvContext"), Null))
    saw = {}
    def sel(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == p, G.get(s, "phase") == 0), "a trial runs one selection phase, first", kind="pre", props=("C03",))
        e.oblige(s, z3.And(e.leafat(s, args[0], ("len",)) == 0, e.leafat(s, args[1], ("len",)) == 0), "the selection phase starts with empty records", kind="pre", props=("C03",))
        n = e.fresh(s, "steps", Int); e.assume(s, n >= 0)
        for v, l in ((args[0], n), (args[1], n + 1)):
            for pth, ix, so in leaves(v.sh): s.mem[(v.root, v.path + pth)] = e.fresh_arr(s, "rec", list(ix), so)
            e.setleaf(s, v, ("len",), (), l)
        saw["sel"] = [(v, {pth: e.cell(s, v.root, v.path + pth) for pth, ix, so in leaves(v.sh)}) for v in args[:2]]
        G.set(s, "ctx", args[2].t); G.set(s, "phase", z3.IntVal(1))
        e.oblige(s, e.uf("born", Ref, Int)(args[2].t) > 0, "every trial gets a context of its own", kind="pre", props=("C03", "C04"))
        return [(s, VOIDV)]
    def bk(e, s, this, args, node):
        e.oblige(s, z3.And(this.t == p, G.get(s, "phase") == 1), "a trial runs one backup phase, after its selection phase", kind="pre", props=("C04",))
        i = e.fresh(s, "i", Int)
        for v, (v0, m0) in zip(args[:2], saw.get("sel", ())):
            n = m0[("len",)].sel(())
            e.oblige(s, z3.And(e.leafat(s, v, ("len",)) == n, z3.Implies(z3.And(0 <= i, i < n), z3.And(*[e.leafat(s, v, pth, (i,)) == m0[pth].sel((i,)) for pth, ix, so in leaves(v0.sh) if ix == (Int,)]))),
                     "the backup phase gets what the selection phase recorded", kind="pre", props=("C04",))
        e.oblige(s, args[2].t == G.get(s, "ctx"), "both phases share the trial's context", kind="pre", props=("C03", "C04"))
        G.set(s, "phase", z3.IntVal(2)); return [(s, VOIDV)]
    def lg(e, s, this, args, node):
        e.oblige(s, G.get(s, "phase") == 2, "a trial is counted after its backup phase", kind="pre", props=("C20",))
        G.set(s, "logged", G.get(s, "logged") + 1); return [(s, VOIDV)]
    e.summaries.update({"ThtsPool::run_selection_phase": sel, "ThtsPool::run_backup_phase": bk, "ThtsPool::try_log": lg})
    outs = c.run(st, "ThtsPool::run_thts_trial", p, [z3.Int("remaining")], cls="ThtsPool")
    for o in outs:
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "a trial does not fail"); continue
        c.goal(o.st, G.get(o.st, "phase") == 2, "a trial ends after its backup phase")
        c.goal(o.st, G.get(o.st, "logged") == 1, "a completed trial is counted exactly once", props=("C20",))
    return [o.st for o in outs if o.kind == "ret"]
