"""C01, C02 (and the pool's part of C05, C06): the scheduling monitor of the thread pool.
Thread-modular: every member function is verified for one thread, all other threads being any sequence of steps that keep the monitor
invariant (the guarded fields are forgotten at every acquisition of work_left_lock, each release has to re-establish the invariant).
Ghost state: budget and number of trials handed out of the current run; what this thread took and gave back."""
from contracts.lib import *
from contracts.world import *
from contracts.c_pool import pool_setup
from cdv.invloop import Cand

GUARDED = ("trials_remaining", "num_threads_working", "thread_pool_alive", "start_time", "max_run_time", "num_trials")
B = z3.BoolVal

class Monitor:
    def __init__(self, c, role, max_trials=None, max_time=None):
        self.c, self.role = c, role
        e = c.e; self.e = e
        self.st = c.state()
        self.N, self.T = max_trials, max_time
    def attach(self, st, p, fresh_obj=False):
        e = self.e; self.p = p
        t0 = z3.Real("t_call")
        self.G = G = Ghost(self.c, st, tacq=(REAL, t0), last=(REAL, t0), nidle=(BOOL, B(False)), nwork=(BOOL, B(False)), slots=(INT, z3.IntVal(0)), tickets=(INT, z3.IntVal(0)),
            budget=(INT, z3.Int("budget0")), started=(INT, z3.Int("started0")), T0=(INT, z3.IntVal(0)), W0=(INT, z3.IntVal(0)), A0=(BOOL, B(True)), S0=(REAL, t0), M0=(REAL, t0),
            waits=(INT, z3.IntVal(0)), joined=(BOOL, B(False)), pub=(BOOL, B(False)))
        self.t0 = t0
        e.hooks.update({"acquire": self.acquire, "release": self.release, "notify": self.notify, "wait": self.wait, "now": self.now})
        e.access_check = self.access
        if not fresh_obj:
            for l in ("work_left_lock", "logging_lock"): e.setleaf(st, e.field_lv("ThtsPool", l, p), ("held",), (), B(False))
    def f(self, s, n): return self.e.t(self.e.read(s, self.e.field_lv("ThtsPool", n, self.p)))
    def held(self, s, l="work_left_lock"): return self.e.leafat(s, self.e.field_lv("ThtsPool", l, self.p), ("held",))
    def mine(self, lv, n="work_left_lock"): return isinstance(lv, Lv) and lv.root == ("fld", "ThtsPool", n) and lv.idx and lv.idx[0].eq(self.p)
    def inv(self, s):
        G = self.G; rem, W = self.f(s, "trials_remaining"), self.f(s, "num_threads_working"); b, n = G.get(s, "budget"), G.get(s, "started")
        return z3.And(n >= 0, n + rem == b, z3.If(b <= 0, n == 0, n <= b), W >= G.get(s, "slots"))
    def left(self, s, t): return z3.And(self.f(s, "trials_remaining") > 0, t - self.f(s, "start_time") < self.f(s, "max_run_time"))
    def acquire(self, e, s, lv):
        if not self.mine(lv): return
        G = self.G
        for n in GUARDED:
            l = e.field_lv("ThtsPool", n, self.p); e.write(s, l, e.fresh(s, n, leaf_sort(l.sh)))
        G.set(s, "budget", e.fresh(s, "budget", Int)); G.set(s, "started", e.fresh(s, "started", Int))
        t = e.fresh(s, "t_acq", Real); e.assume(s, t >= G.get(s, "last"))
        G.set(s, "tacq", t); G.set(s, "last", t); G.set(s, "nidle", B(False))
        e.assume(s, self.inv(s))
        for g, n in (("T0", "trials_remaining"), ("W0", "num_threads_working"), ("A0", "thread_pool_alive"), ("S0", "start_time"), ("M0", "max_run_time")): G.set(s, g, self.f(s, n))
    def same(self, s, *gs):
        m = {"T0": "trials_remaining", "W0": "num_threads_working", "A0": "thread_pool_alive", "S0": "start_time", "M0": "max_run_time"}
        return z3.And(*[self.G.get(s, g) == self.f(s, m[g]) for g in gs])
    def release(self, e, s, lv):
        if not self.mine(lv): return
        G = self.G; r = self.role; f = self.f
        ob = lambda g, t, props=("C01",): e.oblige(s, g, t, kind="monitor", props=props)
        if r == "worker":
            k = G.get(s, "T0") - f(s, "trials_remaining")
            ob(z3.Or(k == 0, k == 1), "a worker takes at most one trial at a time")
            ob(z3.Implies(k > 0, z3.And(G.get(s, "T0") > 0)), "no trial is handed out when the budget is used up")
            ob(z3.Implies(k > 0, G.get(s, "tacq") - f(s, "start_time") < f(s, "max_run_time")), "no trial is handed out after the time limit has passed")
            ob(z3.Implies(k > 0, f(s, "thread_pool_alive")), "no trial is handed out after shutdown was requested", ("C01", "C02"))
            ob(self.same(s, "A0", "S0", "M0"), "workers leave the run's limits and the shutdown flag alone", ("C01", "C02"))
            G.set(s, "tickets", G.get(s, "tickets") + k); G.set(s, "started", G.get(s, "started") + k)
            G.set(s, "slots", G.get(s, "slots") + f(s, "num_threads_working") - G.get(s, "W0"))
            ob(G.get(s, "slots") == G.get(s, "tickets"), "the working count covers exactly the trials being executed", ("C01", "C02"))
        elif r == "runner":
            ob(f(s, "trials_remaining") == self.N, "a run publishes its trial budget")
            ob(z3.And(f(s, "start_time") >= self.t0, f(s, "start_time") <= G.get(s, "last"), f(s, "max_run_time") == self.T), "a run publishes its start time and time limit")
            ob(self.same(s, "A0", "W0"), "a new run leaves the working count and the shutdown flag alone", ("C01", "C02"))
            G.set(s, "budget", self.N); G.set(s, "started", z3.IntVal(0)); G.set(s, "pub", B(True))
        elif r == "dtor":
            ob(z3.Not(f(s, "thread_pool_alive")), "destruction requests shutdown", ("C02",))
            ob(self.same(s, "W0"), "destruction leaves the working count alone", ("C02",))
            G.set(s, "pub", B(True))
        else:
            ob(self.same(s, "T0", "W0", "A0", "S0", "M0"), "waiting and swapping leave the scheduling state alone", ("C01", "C02"))
        if r != "dtor": ob(self.inv(s), "monitor invariant: handed-out plus remaining trials make up the budget", ("C01", "C02"))
    def notify(self, e, s, cv, nm):
        n = cv.root[2]
        if nm != "notify_all": return
        if n == "work_left_cv": self.G.set(s, "nwork", B(True))
        if n == "workers_idle_cv": self.G.set(s, "nidle", B(True))
    def wait(self, e, s, cv, m, phase):
        n = cv.root[2]; G = self.G
        if phase == 1: G.set(s, "waits", G.get(s, "waits") + 1); return
        ob = lambda g, t, props=("C02",): e.oblige(s, g, t, kind="monitor", props=props)
        e.oblige(s, z3.BoolVal(self.mine(m)), "the pool's conditions are waited for with the pool mutex", kind="lock", props=("C02", "C05"))
        e.oblige(s, z3.Not(self.held(s, "logging_lock")), "no second lock is held while waiting", kind="lock", props=("C06",))
        if self.role == "worker":
            ob(B(n == "work_left_cv"), "a worker waits for work")
            ob(self.f(s, "thread_pool_alive"), "a worker does not sleep after shutdown was requested")
            ob(z3.Not(self.left(s, G.get(s, "last"))), "a worker sleeps only when no work is left", ("C01", "C02"))
            ob(G.get(s, "nidle"), "a worker tells those waiting for the run before it sleeps")
            ob(G.get(s, "tickets") == 0, "a worker does not sleep on a trial it took", ("C01", "C02"))
        else:
            ob(B(n == "workers_idle_cv"), "waiting for a run waits for the workers to be idle", ("C02",))
            ob(z3.Or(self.f(s, "num_threads_working") > 0, self.left(s, G.get(s, "tacq"))), "waiting for a run sleeps only while the run is not over")
    def now(self, e, s, t):
        e.assume(s, t >= self.G.get(s, "last")); self.G.set(s, "last", t)
    def access(self, e, s, lv, write):
        if lv.root[0] == "fld" and lv.root[1] == "ThtsPool" and lv.idx and lv.idx[0].eq(self.p) and lv.root[2] in GUARDED:
            e.oblige(s, self.held(s), "pool scheduling state is accessed under the pool mutex (%s)" % lv.root[2], kind="lock", props=("C05",))
            if write:
                self.G.set(s, "nwork", B(False)); self.G.set(s, "nidle", B(False))
    def cands(self, eng, s, mods):
        G = self.G
        ib = lambda s, k: z3.And(G.get(s, "started") + k >= 0, G.get(s, "started") + k + self.f(s, "trials_remaining") == G.get(s, "budget"), z3.If(G.get(s, "budget") <= 0, G.get(s, "started") + k == 0, G.get(s, "started") + k <= G.get(s, "budget")))
        out = [Cand("inv", lambda s, x: self.inv(s)), Cand("budget", lambda s, x: ib(s, G.get(s, "T0") - self.f(s, "trials_remaining"))), Cand("count", lambda s, x: G.get(s, "W0") >= G.get(s, "slots")), Cand("same T", lambda s, x: self.same(s, "T0")), Cand("same W", lambda s, x: self.same(s, "W0")), Cand("same rest", lambda s, x: self.same(s, "A0", "S0", "M0")),
               Cand("held", lambda s, x: self.held(s)), Cand("free", lambda s, x: z3.Not(self.held(s))), Cand("log free", lambda s, x: z3.Not(self.held(s, "logging_lock"))),
               Cand("no ticket", lambda s, x: G.get(s, "tickets") == 0), Cand("ticket", lambda s, x: G.get(s, "tickets") == 1), Cand("no slot", lambda s, x: G.get(s, "slots") == 0), Cand("slot", lambda s, x: G.get(s, "slots") == 1),
               Cand("alive", lambda s, x: self.f(s, "thread_pool_alive")), Cand("clock", lambda s, x: z3.And(G.get(s, "tacq") >= self.t0, G.get(s, "last") >= G.get(s, "tacq"))),
               Cand("slot pending", lambda s, x: G.get(s, "slots") + self.f(s, "num_threads_working") - G.get(s, "W0") == 0),
               Cand("slots kept", lambda s, x: G.get(s, "slots") + self.f(s, "num_threads_working") - G.get(s, "W0") == G.get(s, "tickets") + G.get(s, "T0") - self.f(s, "trials_remaining"))]
        for v in locals_of(s, mods):
            if v.sh.k == "bool":
                out += [Cand("b alive", lambda s, x, v=v: e_read(self.e, s, v) == self.f(s, "thread_pool_alive")), Cand("b not alive", lambda s, x, v=v: e_read(self.e, s, v) != self.f(s, "thread_pool_alive")),
                        Cand("b work", lambda s, x, v=v: e_read(self.e, s, v) == self.left(s, G.get(s, "last"))), Cand("b no work", lambda s, x, v=v: e_read(self.e, s, v) != self.left(s, G.get(s, "last")))]
        return out
def e_read(e, s, v): return e.t(e.read(s, v))

def use_logger(c):
    e = c.e
    e.family["ThtsLogger"] = "ThtsLogger"
    for f in ("add_origin_entry", "reset_start_time"): e.summaries["ThtsLogger::" + f] = lambda e, s, this, args, node: [(s, VOIDV)]
    def size(e, s, this, args, node):
        n = e.fresh(s, "lsize", Int); e.assume(s, n >= 0); return [(s, n)]
    e.summaries["ThtsLogger::size"] = size

@register("C01", "C02", "C05", "C06", name="worker_fn")
def worker(c):
    e, st, p, mgr, env, root = pool_setup(c)
    m = Monitor(c, "worker"); m.attach(st, p); G = m.G
    e.hooks["inv"] = m.cands
    def trial(e, s, this, args, node):
        e.oblige(s, G.get(s, "tickets") == 1, "a trial is run only after it was handed out, and once", kind="pre", props=("C01",))
        e.oblige(s, G.get(s, "slots") == 1, "a trial is run while its worker is counted as working", kind="pre", props=("C02",))
        for l in ("work_left_lock", "logging_lock"): e.oblige(s, z3.Not(m.held(s, l)), "trials run without holding the pool's locks", kind="pre", props=("C01", "C06"))
        G.set(s, "tickets", G.get(s, "tickets") - 1); return [(s, VOIDV)]
    e.summaries["ThtsPool::run_thts_trial"] = trial
    outs = c.run(st, "ThtsPool::worker_fn", p, [], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "a worker does not fail", props=("C01", "C02")); continue
        c.goal(s, z3.Not(m.f(s, "thread_pool_alive")), "a worker ends only after shutdown was requested", props=("C01", "C02"))
        c.goal(s, G.get(s, "tickets") == 0, "every trial a worker takes is run to completion", props=("C01",))
        c.goal(s, G.get(s, "slots") == 0, "a worker that ends is not counted as working", props=("C02",))
        c.goal(s, z3.And(z3.Not(m.held(s)), z3.Not(m.held(s, "logging_lock"))), "a worker ends without holding the pool's locks", props=("C02", "C05"))
    return [o.st for o in outs if o.kind == "ret"]

@register("C01", "C02", name="work_left")
def work_left(c):
    e, st, p, mgr, env, root = pool_setup(c)
    m = Monitor(c, "any"); m.attach(st, p); G = m.G
    e.setleaf(st, e.field_lv("ThtsPool", "work_left_lock", p), ("held",), (), B(True))
    outs = c.run(st, "ThtsPool::work_left", p, [], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "the work-left test does not fail"); continue
        v = e.t(o.v)
        c.goal(s, z3.Implies(v, m.left(s, m.t0)), "work is left only before budget and time limit are used up")
        c.goal(s, z3.Implies(z3.Not(v), z3.Not(m.left(s, G.get(s, "last")))), "no work is left only when budget or time limit are used up")
    return [o.st for o in outs if o.kind == "ret"]

@register("C01", "C02", "C05", "C06", name="pool_join")
def join(c):
    e, st, p, mgr, env, root = pool_setup(c)
    m = Monitor(c, "joiner"); m.attach(st, p); G = m.G
    e.hooks["inv"] = m.cands
    outs = c.run(st, "ThtsPool::join", p, [], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "waiting does not fail", props=("C02",)); continue
        c.goal(s, m.f(s, "num_threads_working") == 0, "waiting returns only when no trial is executing", props=("C02",))
        c.goal(s, z3.Not(m.left(s, G.get(s, "last"))), "waiting returns only when no trial is left to start", props=("C01", "C02"))
        c.goal(s, z3.Not(m.held(s)), "waiting releases the pool mutex", props=("C02", "C05"))
        c.goal(s, z3.Implies(z3.And(G.get(s, "last") - m.f(s, "start_time") < m.f(s, "max_run_time"), G.get(s, "budget") >= 0), G.get(s, "started") == G.get(s, "budget")), "a run that did not reach its time limit ran exactly its budget", props=("C01",))
        c.goal(s, G.get(s, "started") <= z3.If(G.get(s, "budget") > 0, G.get(s, "budget"), 0), "a run starts at most its budget", props=("C01",))
    return [o.st for o in outs if o.kind == "ret"]

@register("C01", "C02", "C05", "C06", name="pool_run_trials")
def run_trials(c):
    e, st, p, mgr, env, root = pool_setup(c); use_logger(c)
    N, T, blk = z3.Int("max_trials"), z3.Real("max_time"), z3.Bool("blocking")
    m = Monitor(c, "runner", N, T); m.attach(st, p); G = m.G
    e.hooks["inv"] = m.cands
    def join(e, s, this, args, node):
        e.oblige(s, z3.And(G.get(s, "pub"), G.get(s, "nwork")), "a blocking run waits only after it published its budget and woke all workers", kind="pre", props=("C02",))
        e.oblige(s, z3.Not(m.held(s)), "the pool mutex is free before waiting", kind="pre", props=("C02", "C06"))
        e.oblige(s, z3.Not(m.held(s, "logging_lock")), "no second lock is held while waiting", kind="pre", props=("C06",))
        G.set(s, "joined", B(True)); return [(s, VOIDV)]
    e.summaries["ThtsPool::join"] = join
    outs = c.run(st, "ThtsPool::run_trials", p, [N, T, blk], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "starting a run does not fail", props=("C01",)); continue
        c.goal(s, G.get(s, "pub"), "a run publishes its budget", props=("C01",))
        c.goal(s, z3.Implies(N > 0, G.get(s, "nwork")), "starting a run wakes all workers", props=("C01", "C02"))
        c.goal(s, z3.Implies(blk, G.get(s, "joined")), "a blocking run waits for its end", props=("C02",))
        c.goal(s, z3.And(z3.Not(m.held(s)), z3.Not(m.held(s, "logging_lock"))), "starting a run releases the pool's locks", props=("C02", "C05"))
    return [o.st for o in outs if o.kind == "ret"]

@register("C02", "C05", "C06", name="pool_set_new_env")
def set_env(c):
    e, st, p, mgr, env, root = pool_setup(c)
    m = Monitor(c, "setter"); m.attach(st, p); G = m.G
    new = [P(z3.Const("new_mgr", Ref), "ThtsManager"), P(z3.Const("new_root", Ref), "ThtsDNode"), P(z3.Const("new_log", Ref), "ThtsLogger")]
    swap = ("thts_manager", "root_node", "logger"); old = [m.f(st, n) for n in swap]
    outs = c.run(st, "ThtsPool::set_new_env", p, new, cls="ThtsPool")
    c.props = ("C02",)
    for o in outs:
        s = o.st; W = m.f(s, "num_threads_working")
        c.goal(s, z3.Not(m.held(s)), "a swap releases the pool mutex", props=("C02", "C05"))
        if o.kind == "throw":
            c.goal(s, z3.Or(W > 0, m.left(s, G.get(s, "tacq"))), "a swap is refused only while a run is not over")
            c.goal(s, z3.And(*[m.f(s, n) == v for n, v in zip(swap, old)]), "a refused swap changes nothing")
        else:
            c.goal(s, z3.And(W == 0, z3.Not(m.left(s, G.get(s, "last")))), "a swap is refused while trials are left or executing")
            c.goal(s, z3.And(*[m.f(s, n) == v.t for n, v in zip(swap, new)]), "an accepted swap replaces manager, root and logger")
    return [o.st for o in outs]

@register("C02", "C05", "C06", name="pool_destructor")
def dtor(c):
    e, st, p, mgr, env, root = pool_setup(c); c.props = ("C02",)
    m = Monitor(c, "dtor"); m.attach(st, p); G = m.G
    G.array(st, "jn", BOOL, Int); st.mem[G.key("jn")] = ConstA(B(False))
    e.hooks["inv"] = lambda eng, s, mods: m.cands(eng, s, mods) + extra(s, mods)
    wl = e.field_lv("ThtsPool", "workers", p)
    n = e.leafat(st, e.field_lv("ThtsPool", "num_threads", p), ())
    el = e.cell(st, wl.root, ("el",))
    e.assume(st, z3.And(n >= 1, e.leafat(st, wl, ("len",)) == n))
    st.gens.setdefault(el.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == p, 0 <= a[1], a[1] < n), el.sel((p, a[1])) == a[1] + 1)])     # established by the constructor
    def extra(s, mods):
        out = []; k = G.key("jn")
        for v in locals_of(s, mods):
            if v.sh.k == "int":
                r = lambda s, v=v: e.t(e.read(s, v))
                out += [Cand("lo", lambda s, x, r=r: z3.And(0 <= r(s), r(s) <= n)), Cand("done", lambda s, x, r=r: z3.Implies(z3.And(1 <= x[0], x[0] <= n), G.get(s, "jn", x[0]) == (x[0] <= r(s))), [Int], [(k, lambda a: (a[-1],))]),
                        Cand("down", lambda s, x, r=r: z3.Implies(z3.And(1 <= x[0], x[0] <= n), G.get(s, "jn", x[0]) == (x[0] > r(s))), [Int], [(k, lambda a: (a[-1],))])]
        out.append(Cand("j", lambda s, x: z3.Implies(z3.And(1 <= x[0], x[0] <= n), G.get(s, "jn", x[0]) == (x[0] <= s.ghost["loopj"])), [Int], [(k, lambda a: (a[-1],))]))
        return out
    def jn(e, s, b, args):
        h = e.t(e.rv(s, b))
        e.oblige(s, z3.And(1 <= h, h <= n, z3.Not(G.get(s, "jn", h))), "every worker is joined once", kind="pre", props=("C02",))
        e.oblige(s, z3.And(G.get(s, "pub"), G.get(s, "nwork")), "workers are joined only after they were told to finish", kind="pre", props=("C02",))
        e.oblige(s, z3.And(z3.Not(m.held(s)), z3.Not(m.held(s, "logging_lock"))), "no lock is held while joining workers", kind="pre", props=("C02", "C06"))
        G.set(s, "jn", B(True), h); return [(s, VOIDV)]
    e.hooks[("thread", "join")] = jn
    e.hooks[("thread", "joinable")] = lambda e, s, b, args: [(s, z3.And(e.t(e.rv(s, b)) != 0, z3.Not(G.get(s, "jn", e.t(e.rv(s, b))))))]
    i = z3.Int("i")
    outs = c.run(st, "ThtsPool::~ThtsPool", p, [], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "destruction does not fail"); continue
        c.goal(s, z3.Implies(z3.And(1 <= i, i <= n), G.get(s, "jn", i)), "destruction waits for every worker to finish")
        c.goal(s, z3.Not(m.held(s)), "destruction releases the pool mutex", props=("C02", "C05"))
    return [o.st for o in outs if o.kind == "ret"]

@register("C01", "C02", name="pool_constructor")
def ctor(c):
    e = c.e; st = c.state(); env_fns(c); c.props = e.props = ("C01", "C02")
    e.family.update({"ThtsDNode": "ThtsDNode", "ThtsManager": "ThtsManager", "ThtsLogger": "ThtsLogger"})
    mgr, root, log, n = z3.Const("mgr", Ref), z3.Const("root", Ref), z3.Const("log", Ref), z3.Int("num_threads")
    e.assume(st, n >= 1)
    G = Ghost(c, st, spawned=(INT, z3.IntVal(0)), ran=(INT, z3.IntVal(0)))
    seen = {}
    def fld(s, p, f): return e.t(e.read(s, e.field_lv("ThtsPool", f, p)))
    def spawn(e, s, vs):
        ok = False
        if isinstance(vs[0], FnV) and vs[0].name.endswith("::worker_fn") and len(vs) == 2: p = e.t(e.rv(s, vs[1])); ok = True
        elif isinstance(vs[0], LamV):
            s2 = s.copy(); p = vs[0].this
            e.summaries["ThtsPool::worker_fn"] = lambda e, s, this, args, node: (G.set(s, "ran", G.get(s, "ran") + 1), [(s, VOIDV)])[1]
            r = e.call_lam(s2, vs[0], [])
            ok = len(r) == 1 and z3.is_true(z3.simplify(G.get(r[0][0], "ran") == G.get(s, "ran") + 1))
        if not ok: raise Unsupported("thread function")
        seen["p"] = p
        e.oblige(s, z3.And(fld(s, p, "trials_remaining") <= 0, fld(s, p, "num_threads_working") == 0, fld(s, p, "thread_pool_alive")), "no trials are left, none is counted and the pool is alive before the first worker starts", kind="pre")
        for l in ("work_left_lock", "logging_lock"): e.oblige(s, z3.Not(e.leafat(s, e.field_lv("ThtsPool", l, p), ("held",))), "workers are started without holding the pool's locks", kind="pre", props=("C02",))
        k = G.get(s, "spawned") + 1; G.set(s, "spawned", k)
        return k
    e.hooks["spawn"] = spawn
    def inv(eng, s, mods):
        p = s.frames[-1].this; wl = e.field_lv("ThtsPool", "workers", p); k = (wl.root, ("el",))
        out = [Cand("len", lambda s, x: e.leafat(s, wl, ("len",)) == n), Cand("len sp", lambda s, x: e.leafat(s, wl, ("len",)) == G.get(s, "spawned")), Cand("n", lambda s, x: z3.And(0 <= G.get(s, "spawned"), G.get(s, "spawned") <= n)),
               Cand("j", lambda s, x: G.get(s, "spawned") == s.ghost["loopj"]),
               Cand("el", lambda s, x: z3.Implies(z3.And(0 <= x[0], x[0] < G.get(s, "spawned")), e.leafat(s, wl, ("el",), (x[0],)) == x[0] + 1), [Int], [(k, lambda a: (a[-1],))])]
        for v in locals_of(s, mods):
            if v.sh.k == "int": out.append(Cand("i", lambda s, x, v=v: G.get(s, "spawned") == e.t(e.read(s, v)))); out.append(Cand("d", lambda s, x, v=v: G.get(s, "spawned") == n - e.t(e.read(s, v))))
        return out
    e.hooks["inv"] = inv
    outs = c.ctor(st, "ThtsPool", [P(mgr, "ThtsManager"), P(root, "ThtsDNode"), n, P(log, "ThtsLogger")])
    i = z3.Int("i"); rets = []
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.Or(mgr == Null, root == Null), "construction fails only without manager or root"); continue
        rets.append(s); p = o.v.t; wl = e.field_lv("ThtsPool", "workers", p)
        c.goal(s, G.get(s, "spawned") == n, "the configured number of workers is started")
        c.goal(s, z3.And(e.leafat(s, wl, ("len",)) == n, fld(s, p, "num_threads") == n, z3.Implies(z3.And(0 <= i, i < n), e.leafat(s, wl, ("el",), (i,)) == i + 1)), "every started worker is kept for joining")
        c.goal(s, z3.And(fld(s, p, "thts_manager") == mgr, fld(s, p, "root_node") == root, fld(s, p, "logger") == log), "the pool searches with the given manager, root and logger")
        c.goal(s, z3.And(fld(s, p, "trials_remaining") <= 0, fld(s, p, "num_threads_working") == 0, fld(s, p, "thread_pool_alive")), "a new pool is idle and alive")
    return rets
