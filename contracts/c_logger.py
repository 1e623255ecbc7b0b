"""C20: the logger's schedule, entries and output, and the pool's side of it."""
from contracts.lib import *
from contracts.world import *
from contracts.c_pool import pool_setup
from contracts.c_sched import Monitor
from cdv.invloop import Cand
B = z3.BoolVal
LG = {"ThtsLogger": ("LoggerEntry", "ThtsDNode", []), "UctLogger": ("UctLoggerEntry", "UctDNode", [("num_backups", "UctDNode", "num_backups"), ("avg_return", "UctDNode", "avg_return")]),
      "MentsLogger": ("MentsLoggerEntry", "MentsDNode", [("num_backups", "MentsDNode", "num_backups"), ("soft_value", "MentsDNode", "soft_value")]),
      "DBMentsLogger": ("DBMentsLoggerEntry", "DBMentsDNode", [("num_backups", "MentsDNode", "num_backups"), ("soft_value", "MentsDNode", "soft_value"), ("dp_value", "DPDNode", "dp_value")])}
SCHED = ("prior_runtime", "start_time", "trials_completed", "trials_delta", "last_log_num_trials", "runtime_delta", "next_log_runtime_threshold")
VE = Shape("vec", (PTR("LoggerEntry"),))

def world(c, cls="ThtsLogger"):
    e = c.e; st = c.state(); l = c.ref(st, "logger")
    e.family["ThtsLogger"] = cls
    clock = Ghost(c, st, last=(REAL, z3.Real("t_call")))
    def now(e, s, t): e.assume(s, t >= clock.get(s, "last")); clock.set(s, "last", t)
    e.hooks["now"] = now
    f = lambda s, n: e.t(e.read(s, e.field_lv("ThtsLogger", n, l)))
    return e, st, l, f, clock
def own(c, cls, fn):
    for k in c.e.ty.mro(cls):
        if any(f.body is not None for f in c.e.prog.byq.get(k + "::" + fn, [])): return k + "::" + fn
    raise Unsupported("no " + fn)
def entries_same(c, e, s0, s, l, n0, i):
    lv = e.field_lv("ThtsLogger", "entries", l)
    return z3.Implies(z3.And(0 <= i, i < n0), e.leafat(s, lv, ("el",), (i,)) == e.leafat(s0, lv, ("el",), (i,)))
def nlen(e, s, l): return e.leafat(s, e.field_lv("ThtsLogger", "entries", l), ("len",))

def efield(e, s, x, ecls, n):
    k, sh = None, None
    for q in e.ty.mro(ecls):
        if any(f[0] == n for f in e.prog.classes[q]["fields"]): return e.t(e.read(s, e.field_lv(q, n, x)))
    raise Unsupported("entry field " + n)
def ent(cls):
    def log(c):
        e, st, l, f, clock = world(c, cls); ecls, ncls, stats = LG[cls]
        n = c.ref(st, "node"); e.family["ThtsDNode"] = ncls
        e.assume(st, e.uf("born", Ref, Int)(n) <= 0); s0 = st.copy(); i = z3.Int("i"); n0 = nlen(e, st, l); e.assume(st, n0 >= 0)
        tc = clock.get(st, "last")
        outs = c.run(st, own(c, cls, "log"), l, [P(n, "ThtsDNode")], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, B(False), "logging does not fail"); continue
            lv = e.field_lv("ThtsLogger", "entries", l); x = e.leafat(s, lv, ("el",), (n0,))
            c.goal(s, nlen(e, s, l) == n0 + 1, "logging adds one entry")
            c.goal(s, entries_same(c, e, s0, s, l, n0, i), "earlier entries stay")
            rt = efield(e, s, x, ecls, "runtime"); tot = lambda t: f(s0, "prior_runtime") + t - f(s0, "start_time")
            c.goal(s, z3.And(tot(tc) <= rt, rt <= tot(clock.get(s, "last"))), "an entry records the total runtime at that moment")
            c.goal(s, efield(e, s, x, ecls, "num_visits") == e.t(e.read(s0, e.field_lv("ThtsDNode", "num_visits", n))), "an entry records the root's visits")
            for ef, nc, nf in stats: c.goal(s, efield(e, s, x, ecls, ef) == e.t(e.read(s0, e.field_lv(nc, nf, n))), "an entry records the root's " + nf)
            c.goal(s, z3.And(*[f(s, k) == f(s0, k) for k in SCHED]), "logging leaves the schedule alone")
        return [o.st for o in outs if o.kind == "ret"]
    def origin(c):
        e, st, l, f, clock = world(c, cls); ecls, ncls, stats = LG[cls]
        s0 = st.copy(); i = z3.Int("i"); n0 = nlen(e, st, l); e.assume(st, n0 >= 0)
        outs = c.run(st, own(c, cls, "add_origin_entry"), l, [], cls=cls)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, B(False), "adding the origin does not fail"); continue
            x = e.leafat(s, e.field_lv("ThtsLogger", "entries", l), ("el",), (n0,))
            c.goal(s, nlen(e, s, l) == n0 + 1, "the origin is one entry"); c.goal(s, entries_same(c, e, s0, s, l, n0, i), "earlier entries stay")
            c.goal(s, z3.And(*[efield(e, s, x, ecls, k) == 0 for k in ["runtime", "num_visits"] + [q[0] for q in stats]]), "the origin entry has zero runtime and zero statistics")
            c.goal(s, z3.And(*[f(s, k) == f(s0, k) for k in SCHED]), "the origin entry leaves the schedule alone")
        return [o.st for o in outs if o.kind == "ret"]
    def ctor(c):
        e, st, l, f, clock = world(c, cls)
        outs = c.ctor(st, cls, [])
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, B(False), "construction does not fail"); continue
            g = lambda n: e.t(e.read(s, e.field_lv("ThtsLogger", n, o.v.t)))
            c.goal(s, z3.And(g("trials_completed") == 0, g("last_log_num_trials") == 0), "a fresh logger has seen no trials")
            c.goal(s, g("prior_runtime") == 0, "a fresh logger has no earlier runtime")
            c.goal(s, nlen(e, s, o.v.t) == 0, "a fresh logger has no entries")
        return [o.st for o in outs if o.kind == "ret"]
    return log, origin, ctor

def tokens(e):
    """collects what is written to the stream; adjacent text is joined"""
    def out(e, st, a, v):
        o = list(st.ghost.get("out", ()))
        if isinstance(v, Opq) and v.what == "str" and v.args: x = ("t", bytes(v.args[0][1:-1], "utf8").decode("unicode_escape"))
        elif isinstance(v, FnV) and v.name == "endl": x = ("t", "\n")
        elif z3.is_int_value(v) if isinstance(v, z3.ExprRef) else False:
            x = ("t", chr(v.as_long()))
        else: x = ("v", e.t(e.rv(st, v)))
        if x[0] == "t" and o and o[-1][0] == "t": o[-1] = ("t", o[-1][1] + x[1])
        else: o.append(x)
        st.ghost["out"] = tuple(o)
    e.hooks["out"] = out
def entry_io(cls):
    def f(c):
        ecls, ncls, stats = LG[cls]; e = c.e
        st = c.state(); x = c.ref(st, "entry"); tokens(e); cols = ["runtime", "num_visits"] + [q[0] for q in stats]
        e.family["LoggerEntry"] = ecls
        s1 = st.copy(); vals = [efield(e, st, x, ecls, k) for k in cols]; rets = []
        for o in c.run(s1, own(c, ecls, "write_header_to_ostream"), x, [Opq("stream")], cls=ecls):
            if o.kind == "throw": c.goal(o.st, B(False), "writing does not fail"); continue
            rets.append(o.st)
            c.goal(o.st, B(o.st.ghost.get("out") == (("t", ",".join(cols)),)), "the header names the columns of the entry's kind: got %r" % (o.st.ghost.get("out"),))
        for o in c.run(st, own(c, ecls, "write_to_ostream"), x, [Opq("stream")], cls=ecls):
            if o.kind == "throw": c.goal(o.st, B(False), "writing does not fail"); continue
            rets.append(o.st); t = o.st.ghost.get("out", ())
            ok = len(t) == 2 * len(cols) - 1 and all(t[2 * i][0] == "v" for i in range(len(cols))) and all(t[2 * i + 1] == ("t", ",") for i in range(len(cols) - 1))
            c.goal(o.st, z3.And(*[t[2 * i][1] == v for i, v in enumerate(vals)]) if ok and all(t[2 * i][1].sort() == v.sort() for i, v in enumerate(vals)) else B(False), "a line has the entry's values in the order of the columns")
        return rets
    return f
for _c in LG:
    _l, _o, _k = ent(_c)
    register("C20", name="log_" + _c)(_l); register("C20", name="origin_" + _c)(_o); register("C20", name="ctor_" + _c)(_k); register("C20", name="entry_io_" + _c)(entry_io(_c))

def step(fn, args, post, name):
    @register("C20", name="logger_" + fn)
    def f(c):
        e, st, l, g, clock = world(c); s0 = st.copy(); i = z3.Int("i"); n0 = nlen(e, st, l); e.assume(st, n0 >= 0)
        outs = c.run(st, "ThtsLogger::" + fn, l, list(args), cls="ThtsLogger")
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, B(False), fn + " does not fail"); continue
            changed = post(c, e, s0, s, o.v, g, clock)
            c.goal(s, z3.And(*[g(s, k) == g(s0, k) for k in SCHED if k not in changed]), fn + " changes nothing else")
            c.goal(s, z3.And(nlen(e, s, l) == n0, entries_same(c, e, s0, s, l, n0, i)), fn + " leaves the entries alone")
        return [o.st for o in outs if o.kind == "ret"]
    return f
_d, _r = z3.Int("delta"), z3.Real("rdelta")
def p_td(c, e, s0, s, v, g, k): c.goal(s, g(s, "trials_delta") == _d, "the trial interval is set"); return ("trials_delta",)
def p_rd(c, e, s0, s, v, g, k): c.goal(s, g(s, "runtime_delta") == _r, "the runtime interval is set"); return ("runtime_delta",)
def p_tc(c, e, s0, s, v, g, k): c.goal(s, g(s, "trials_completed") == g(s0, "trials_completed") + 1, "a completed trial is counted once"); return ("trials_completed",)
def p_size(c, e, s0, s, v, g, k): c.goal(s, e.t(v) == nlen(e, s0, z3.Const("logger", Ref)), "the size is the number of entries"); return ()
def p_reset(c, e, s0, s, v, g, k):
    c.goal(s, z3.And(z3.Real("t_call") <= g(s, "start_time"), g(s, "start_time") <= k.get(s, "last")), "a run's runtime is counted from its start")
    c.goal(s, g(s, "last_log_num_trials") == g(s0, "trials_completed"), "the trial interval is counted from the start of the run")
    c.goal(s, g(s, "next_log_runtime_threshold") == g(s0, "prior_runtime") + g(s0, "runtime_delta"), "the first runtime threshold of a run is one interval past the runtime so far")
    return ("start_time", "last_log_num_trials", "next_log_runtime_threshold")
def p_total(c, e, s0, s, v, g, k):
    tot = lambda t: g(s0, "prior_runtime") + t - g(s0, "start_time"); x = e.t(v)
    c.goal(s, z3.And(tot(z3.Real("t_call")) <= x, x <= tot(k.get(s, "last"))), "the total runtime is the earlier runs plus the current one"); return ()
def p_should(c, e, s0, s, v, g, k):
    due_t = g(s0, "trials_completed") - g(s0, "last_log_num_trials") >= g(s0, "trials_delta"); x = e.t(v)
    tot = lambda t: g(s0, "prior_runtime") + t - g(s0, "start_time"); th = g(s0, "next_log_runtime_threshold")
    c.goal(s, z3.Implies(z3.Or(due_t, tot(z3.Real("t_call")) >= th), x), "an entry is asked for when the trial interval or the runtime threshold is reached")
    c.goal(s, z3.Implies(x, z3.Or(due_t, tot(k.get(s, "last")) >= th)), "an entry is asked for only when an interval is reached")
    c.goal(s, g(s, "last_log_num_trials") == z3.If(due_t, g(s0, "trials_completed"), g(s0, "last_log_num_trials")), "the trial interval restarts exactly at a trial-triggered entry")
    c.goal(s, z3.Implies(tot(k.get(s, "last")) < th, g(s, "next_log_runtime_threshold") == th), "the runtime threshold moves only when reached")
    c.goal(s, z3.Implies(tot(z3.Real("t_call")) >= th, g(s, "next_log_runtime_threshold") == th + g(s0, "runtime_delta")), "a reached runtime threshold moves on by one interval")
    return ("last_log_num_trials", "next_log_runtime_threshold")
def p_upd(c, e, s0, s, v, g, k):
    c.goal(s, g(s, "prior_runtime") - g(s, "start_time") == g(s0, "prior_runtime") - g(s0, "start_time"), "carrying the runtime over does not change the total")
    c.goal(s, z3.And(z3.Real("t_call") <= g(s, "start_time"), g(s, "start_time") <= k.get(s, "last")), "the runtime up to now is carried over")
    return ("prior_runtime", "start_time")
for _f, _a, _p in (("set_trials_delta", [_d], p_td), ("set_runtime_delta", [_r], p_rd), ("trial_completed", [], p_tc), ("size", [], p_size), ("reset_start_time", [], p_reset), ("get_current_total_runtime", [], p_total), ("should_log", [], p_should), ("update_prior_runtime", [], p_upd)):
    step(_f, _a, _p, _f)

@register("C20", name="logger_write")
def write(c):
    e, st, l, f, clock = world(c); lv = e.field_lv("ThtsLogger", "entries", l); n = e.leafat(st, lv, ("len",)); e.assume(st, n >= 0)
    el = e.cell(st, lv.root, ("el",)); st.gens.setdefault(el.decl.name(), []).append(lambda a: [z3.Implies(z3.And(a[0] == l, 0 <= a[1], a[1] < n), el.sel((l, a[1])) != Null)])
    G = Ghost(c, st, phase=(INT, z3.IntVal(0)), rows=(INT, z3.IntVal(0)))
    e.family["LoggerEntry"] = "LoggerEntry"; i = z3.Int("i")
    def header(e, s, this, args, node):
        e.oblige(s, z3.And(G.get(s, "phase") == 0, this.t == el.sel((l, z3.IntVal(0))), n > 0), "one header, of the entries' kind, comes first", kind="pre"); G.set(s, "phase", z3.IntVal(1)); return [(s, VOIDV)]
    def row(e, s, this, args, node):
        e.oblige(s, z3.And(G.get(s, "phase") == 2, this.t == el.sel((l, G.get(s, "rows")))), "one line per entry, in order", kind="pre")
        G.set(s, "phase", z3.IntVal(1)); G.set(s, "rows", G.get(s, "rows") + 1); return [(s, VOIDV)]
    e.summaries.update({"LoggerEntry::write_header_to_ostream": header, "LoggerEntry::write_to_ostream": row})
    def out(e, s, a, v):
        nl = isinstance(v, Opq) and v.what == "str" and v.args and v.args[0] == '"\\n"' or isinstance(v, FnV) and v.name == "endl" or isinstance(v, z3.ExprRef) and z3.is_int_value(v) and v.as_long() == 10
        if not nl: raise Unsupported("output other than line ends")
        e.oblige(s, G.get(s, "phase") == 1, "every line is ended once", kind="pre"); G.set(s, "phase", z3.IntVal(2))
    e.hooks["out"] = out
    def inv(eng, s, mods):
        o = [Cand("p2", lambda s, x: G.get(s, "phase") == 2), Cand("p1", lambda s, x: G.get(s, "phase") == 1), Cand("j", lambda s, x: G.get(s, "rows") == s.ghost["loopj"]), Cand("n", lambda s, x: z3.And(0 <= G.get(s, "rows"), G.get(s, "rows") <= n))]
        for v in locals_of(s, mods):
            if v.sh.k == "int": o.append(Cand("i", lambda s, x, v=v: G.get(s, "rows") == e.t(e.read(s, v))))
        return o
    e.hooks["inv"] = inv
    outs = c.run(st, "ThtsLogger::write_to_ostream", l, [Opq("stream")], cls="ThtsLogger")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "writing does not fail"); continue
        c.goal(s, G.get(s, "rows") == n, "every entry is written")
        c.goal(s, z3.Or(z3.And(n == 0, G.get(s, "phase") == 0), G.get(s, "phase") == 2), "the last line is ended")
    return [o.st for o in outs if o.kind == "ret"]

@register("C20", "C05", "C06", name="try_log")
def try_log(c):
    e, st, p, mgr, env, root = pool_setup(c); c.props = e.props = ("C20",)
    lg = e.t(e.read(st, e.field_lv("ThtsPool", "logger", p)))
    G = Ghost(c, st, counted=(INT, z3.IntVal(0)), asked=(INT, z3.IntVal(0)), due=(BOOL, B(False)), logged=(INT, z3.IntVal(0)), carried=(INT, z3.IntVal(0)))
    lk = lambda s, l: e.leafat(s, e.field_lv("ThtsPool", l, p), ("held",))
    for l in ("work_left_lock", "logging_lock"): e.setleaf(st, e.field_lv("ThtsPool", l, p), ("held",), (), B(False))
    nl = e.field_lv("ThtsDNode", "node_lock", Null); st.mem[(nl.root, ("held",))] = ConstA(B(False))
    held = lambda s, n: e.leafat(s, e.field_lv("ThtsDNode", "node_lock", n), ("held",))
    def under(s): e.oblige(s, lk(s, "logging_lock"), "the logger is used under the logging mutex", kind="lock", props=("C05",))
    def me(s, this): e.oblige(s, this.t == lg, "the pool's logger is used", kind="pre")
    def tc(e, s, this, args, node): under(s); me(s, this); G.set(s, "counted", G.get(s, "counted") + 1); return [(s, VOIDV)]
    def sl(e, s, this, args, node):
        under(s); me(s, this); e.oblige(s, z3.And(G.get(s, "counted") == 1, G.get(s, "asked") == 0), "the schedule is asked once, after the trial was counted", kind="pre")
        b = e.fresh(s, "due", Bool); G.set(s, "asked", G.get(s, "asked") + 1); G.set(s, "due", b); return [(s, b)]
    def log(e, s, this, args, node):
        under(s); me(s, this); n = e.t(e.rv(s, args[0]))
        e.oblige(s, n == root, "the entry is about the root", kind="pre"); e.oblige(s, held(s, root), "the root is read under its lock", kind="lock", props=("C05", "C20"))
        G.set(s, "logged", G.get(s, "logged") + 1); return [(s, VOIDV)]
    def up(e, s, this, args, node): under(s); me(s, this); G.set(s, "carried", G.get(s, "carried") + 1); return [(s, VOIDV)]
    e.summaries.update({"ThtsLogger::trial_completed": tc, "ThtsLogger::should_log": sl, "ThtsLogger::log": log, "ThtsLogger::update_prior_runtime": up})
    def prelock(e, s, lv):
        if lv.root == ("fld", "ThtsPool", "logging_lock"):
            x = e.fresh(s, "anynode", Ref); e.oblige(s, z3.And(z3.Not(held(s, x)), z3.Not(lk(s, "work_left_lock"))), "the logging mutex is taken before any node lock", kind="lock", props=("C06",))
    e.hooks["prelock"] = prelock
    x = sk(c, "x")
    outs = c.run(st, "ThtsPool::try_log", p, [], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "logging does not fail"); continue
        on = lg != Null
        c.goal(s, z3.Implies(on, z3.And(G.get(s, "counted") == 1, G.get(s, "asked") == 1)), "every completed trial is counted exactly once")
        c.goal(s, z3.Implies(on, G.get(s, "logged") == z3.If(G.get(s, "due"), z3.IntVal(1), z3.IntVal(0))), "an entry is made exactly when the schedule asks for it")
        c.goal(s, z3.Implies(on, G.get(s, "carried") >= 1), "the runtime is carried over after every trial")
        c.goal(s, z3.Implies(z3.Not(on), z3.And(G.get(s, "counted") == 0, G.get(s, "logged") == 0)), "nothing is logged without a logger")
        c.goal(s, z3.And(z3.Not(lk(s, "logging_lock")), z3.Not(held(s, x))), "logging releases its locks", props=("C05",))
    return [o.st for o in outs if o.kind == "ret"]

@register("C20", "C05", name="pool_run_trials_log")
def run_log(c):
    e, st, p, mgr, env, root = pool_setup(c); c.props = e.props = ("C20",)
    N, T, blk = z3.Int("max_trials"), z3.Real("max_time"), z3.Bool("blocking")
    m = Monitor(c, "runner", N, T); m.attach(st, p)
    G = Ghost(c, st, origin=(INT, z3.IntVal(0)), reset=(INT, z3.IntVal(0)))
    lg = e.t(e.read(st, e.field_lv("ThtsPool", "logger", p))); n = z3.Int("log_size"); e.assume(st, n >= 0)
    e.family["ThtsLogger"] = "ThtsLogger"
    def under(s, this):
        e.oblige(s, m.held(s, "logging_lock"), "the logger is used under the logging mutex", kind="lock", props=("C05",)); e.oblige(s, this.t == lg, "the pool's logger is used", kind="pre")
    def size(e, s, this, args, node): under(s, this); return [(s, n + G.get(s, "origin"))]
    def org(e, s, this, args, node): under(s, this); G.set(s, "origin", G.get(s, "origin") + 1); return [(s, VOIDV)]
    def rst(e, s, this, args, node):
        under(s, this); e.oblige(s, z3.Not(m.G.get(s, "pub")), "the run's start time is set before its trials can start", kind="pre"); G.set(s, "reset", G.get(s, "reset") + 1); return [(s, VOIDV)]
    e.summaries.update({"ThtsLogger::size": size, "ThtsLogger::add_origin_entry": org, "ThtsLogger::reset_start_time": rst, "ThtsPool::join": lambda e, s, this, args, node: [(s, VOIDV)]})
    outs = c.run(st, "ThtsPool::run_trials", p, [N, T, blk], cls="ThtsPool")
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, B(False), "starting a run does not fail"); continue
        c.goal(s, z3.Implies(lg != Null, G.get(s, "origin") == z3.If(n == 0, z3.IntVal(1), z3.IntVal(0))), "an empty logger gets exactly one origin entry")
        c.goal(s, z3.Implies(lg != Null, G.get(s, "reset") >= 1), "the logger is told the start of every run")
    return [o.st for o in outs if o.kind == "ret"]
