"""C16: the alias table of CategoricalDistribution."""
from contracts.lib import *
from contracts.world import *
from cdv.invloop import Cand

CLS = "CategoricalDistribution<int>"
MSH = Shape("map", (INT, REAL))
R_ = z3.ToReal

class Alias:
    """pre-state of a distribution: weights of the map in iteration order, table slots, and the total u(i) = n w(i) / W owed to slot i"""
    def __init__(self, c, st, d=None):
        e = self.e = c.e; self.c = c
        self.d = d if d is not None else c.ref(st, "d")
        p = e.fld(st, self.d, CLS, "distr"); e.assume(st, p.t != Null)
        self.m = e.heap_lv(p.cls if isinstance(p.cls, Shape) else MSH, p.t)
        self.tab = e.field_lv(CLS, "alias_table", self.d)
        names = [n for n, _, _ in e.prog.classes[CLS + "::AliasTableEntry"]["fields"]]
        self.F = {n: i for i, n in enumerate(names)}
        self.weights(st)
    def weights(self, st):
        e = self.e
        self.ordA, self.idxA, self.dom, self.n = e.map_order(st, self.m)
        self.val = e.cell(st, self.m.root, ("val",)).curry(self.m.idx)
        e.assume(st, self.n > 0)
        w0 = e.cell(st, self.m.root, ("val",))
        b = z3.Int("b_" + str(next(e.cnt)))
        self.S = e.pv.idx_sum([], b, self.val.sel((self.ordA.sel((b,)),)), N=self.n, name="mass")
        self.W = self.S.decl(self.n)
        e.assume(st, self.W > 0)
        st.gens.setdefault(self.ordA.decl.name(), []).append(lambda a: [z3.Implies(z3.And(0 <= a[-1], a[-1] < self.n), self.val.sel((self.ordA.decl(*a),)) >= 0)])
    def u(self, i): return self.val.sel((self.ordA.sel((i,)),)) * R_(self.n) / self.W
    def T(self, s, f, i): return self.e.leafat(s, self.tab, ("el", self.F[f]), (i,))
    def key(self, f): return (self.tab.root, ("el", self.F[f]))
    def len(self, s): return self.e.leafat(s, self.tab, ("len",))
    def inr(self, i): return z3.And(0 <= i, i < self.n)
    def fresh_slot(self, s, i):
        """slot i holds its outcome's share and is not topped up"""
        o = self.ordA.sel((i,))
        return z3.And(self.T(s, "threshold", i) == self.u(i), self.T(s, "first", i) == o, self.T(s, "second", i) == o)

def prob(thr): return z3.If(thr < 1, thr, z3.RealVal(0))        # sample(): first with this probability, else second (contract Alias_sample)

@register("C16", name="Alias_sample")
def sample(c):
    e = c.e; st = c.state(); use_rand(c)
    A = Alias(c, st); d = A.d
    e.assume(st, A.len(st) > 0)
    def smp(e, st, this, args, node):
        k = e.fresh(st, "drawn", Int); st.ghost["lin"] = (args[0], e.t(e.rv(st, args[2])), k); return [(st, k)]
    e.summaries["sample_from_distribution"] = smp
    use = e.fld(st, d, CLS, "use_alias_method")
    snap = {f: e.cell(st, *A.key(f)) for f in A.F}
    outs = c.run(st, CLS + "::sample", d, [ObjL(c.ref(st, "rm"), "RandManager")], cls=CLS)
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "sampling does not fail"); continue
        lin = s.ghost.get("lin"); di, du = draws(s, "i"), draws(s)
        if lin is not None:
            m, norm, k = lin
            c.goal(s, z3.And(z3.Not(use), e.t(o.v) == k, m.idx[0] == A.m.idx[0] if m.root == A.m.root else z3.BoolVal(False), z3.Not(norm)), "without the table the weights are sampled directly, unnormalised")
            continue
        c.goal(s, use, "the table is used only when configured")
        c.goal(s, z3.BoolVal(len(di) == 1 and len(du) <= 1), "one slot and at most one threshold are drawn")
        if len(di) != 1 or len(du) > 1: continue
        i, a, b = di[0]; x = du[0] if du else None
        c.goal(s, z3.And(a == 0, b == A.len(st)), "the slot is uniform over the whole table")
        th, f, sc = (snap[q].sel((d, i)) for q in ("threshold", "first", "second"))
        v = e.t(o.v)
        if x is None:       # no threshold drawn: the outcome must not depend on it
            c.goal(s, z3.Implies(z3.And(0 <= th, z3.Or(f != sc, v != f)), z3.And(v == sc, z3.Or(th >= 1, th == 0))), "without a threshold draw the slot is not shared")
        else:
            c.goal(s, z3.Implies(z3.And(0 <= th, th < 1), v == z3.If(x < th, f, sc)), "a shared slot gives its first key for exactly the draws below the threshold")
            c.goal(s, z3.Implies(th >= 1, v == sc), "a full slot gives its second key")
    return [o.st for o in outs if o.kind == "ret"]

def rebuild(c, just):
    e = c.e; st = c.state()
    A = Alias(c, st); d = A.d; n = A.n
    e.assume(st, A.len(st) == n)
    i = z3.Int("slot"); k = sk(c, "k", Int)
    lem = c.lemma(st, zsum(A, st, n) == 0, "the shares sum to the number of slots")
    if just:
        for f in A.F:
            a = e.cell(st, *A.key(f))
            st.gens.setdefault(a.decl.name(), []).append(lambda x: [z3.Implies(z3.And(x[0] == d, A.inr(x[1])), A.fresh_slot(st0, x[1]))])
        st0 = st.copy()
    G = Ghost(c, st, D=(REAL, z3.RealVal(0)), on=(BOOL, z3.BoolVal(False)))
    G.array(st, "A", REAL, Int)
    term = lambda s, i: z3.If(A.T(s, "second", i) == A.T(s, "first", i), A.T(s, "threshold", i) - 1, z3.RealVal(0))
    def contrib(th, f, sc, y): p = prob(th); return z3.If(y == f, p, z3.RealVal(0)) + z3.If(y == sc, 1 - p, z3.RealVal(0))
    ison = lambda s: z3.is_true(G.get(s, "on"))
    # ghost update at every write to a slot
    write0 = e.write
    def write(s, lv, v):
        if not (isinstance(lv, Lv) and lv.root == A.tab.root and lv.path[:1] == ("el",) and ison(s)): return write0(s, lv, v)
        i = lv.idx[1]; get = lambda: tuple(A.T(s, f, i) for f in ("threshold", "first", "second"))
        o = get(); t0 = term(s, i); write0(s, lv, v); nw = get(); t1 = term(s, i)
        old = e.cell(s, *G.key("A"))
        s.mem[G.key("A")] = LamA(lambda y, old=old, o=o, nw=nw: old.sel((y,)) - contrib(*o, y) + contrib(*nw, y))
        G.set(s, "D", G.get(s, "D") - t0 + t1)
    e.write = write
    def pv(s, g, t=6000): return e.pv.prove(list(s.facts) + list(s.pc), s.gens, g, t)[0] == "proved"
    def entry(eng, s):
        """start of the ghost accounting: every slot full of its own outcome; end of it: no unshared slot is off balance"""
        x, y = e.fresh(s, "slot", Int), e.fresh(s, "slot", Int)
        if not ison(s):
            if not lem or not pv(s, z3.And(A.len(s) == n, z3.Implies(A.inr(x), A.fresh_slot(s, x)))): return
            s.mem[G.key("on")] = ConstA(z3.BoolVal(True)); s.mem[G.key("D")] = ConstA(z3.RealVal(0))
            dom = A.dom
            s.mem[G.key("A")] = LamA(lambda y: z3.If(dom.sel((y,)), z3.RealVal(1), z3.RealVal(0)))
            return
        if s.ghost.get("settled"): return
        if pv(s, z3.And(G.get(s, "D") == 0, A.len(s) == n)) and pv(s, z3.Or(z3.Implies(A.inr(x), term(s, x) >= 0), z3.Implies(A.inr(y), term(s, y) <= 0))): settle(s)
    def settle(s):
        """D is the sum of the terms, all of one sign, and 0: every term is 0"""
        snap = s.copy(); s.ghost["settled"] = True
        for f in A.F:
            a = e.cell(s, *A.key(f))
            while not isinstance(a, BaseA):
                if not hasattr(a, "p"): return
                a = a.p
            s.gens.setdefault(a.decl.name(), []).append(lambda x: [z3.Implies(z3.And(x[-2] == d, A.inr(x[-1])), term(snap, x[-1]) == 0)])
        for v in s.frames[-1].vars.values():
            if isinstance(v, Lv) and v.sh.k == "vec" and v.sh.args[0].k == "int": e.vec_wf_at(s, v, z3.IntVal(0))
        s.facts.append(z3.Implies(A.inr(i), term(snap, i) == 0))
    def force(eng, s, mods):
        return any(r[0] == "var" and e.rootinfo[r][0].k == "vec" and e.rootinfo[r][0].args[0].k == "int" for r in {k[0] for k in mods})
    e.hooks.update({"loop_entry": entry, "inv_force": force})
    st.frames and None
    def inv(eng, s, mods):
        out = []; roots = {k[0] for k in mods}
        full = [(A.key(f), lambda a: (a[-1],)) for f in A.F]
        ints = [v for v in locals_of(s, mods) if v.sh.k == "int"]
        vecs = [v for v in locals_of(s, mods) if v.sh.k == "vec" and v.sh.args[0].k == "int"]
        if A.tab.root in roots and not ison(s):     # filling
            out.append(Cand("table length", lambda s, x: A.len(s) == n))
            out.append(Cand("filled so far", lambda s, x: z3.Implies(z3.And(0 <= x[0], x[0] < s.ghost["loopj"]), A.fresh_slot(s, x[0])), [Int], full))
        bounds = [lambda s, v=v: e.read(s, v) for v in ints] + [lambda s: s.ghost["loopj"]]
        for v in ints:
            out.append(Cand("counter", lambda s, x, v=v: e.read(s, v) == s.ghost["loopj"])); out.append(Cand("counter in range", lambda s, x, v=v: z3.And(0 <= e.read(s, v), e.read(s, v) <= n)))
        for v in vecs:
            mem = lambda s, y, v=v: e.leafat(s, v, ("mem",), (y,))
            out.append(Cand("no index twice", lambda s, x, v=v: e.leafat(s, v, ("nd",))))
            out.append(Cand("stack", lambda s, x, v=v: e.vec_wf_mem(s, v, x[0]), [Int], [((v.root, ("mem",)), lambda a: (a[-1],))]))
            tr = [((v.root, ("mem",)), lambda a: (a[-1],))] + full
            th = lambda s, y: A.T(s, "threshold", y); own = lambda s, y: A.T(s, "second", y) == A.T(s, "first", y)
            preds = [("large slots", True, lambda s, y: th(s, y) > 1), ("full slots", True, lambda s, y: z3.And(th(s, y) >= 1, own(s, y))), ("small slots", True, lambda s, y: z3.And(th(s, y) < 1, own(s, y))),
                     ("all large slots", False, lambda s, y: th(s, y) > 1), ("all small slots", False, lambda s, y: z3.And(th(s, y) < 1, own(s, y)))]
            rngs = ([lambda s, y: A.inr(y)] if ison(s) else []) + [lambda s, y, bd=bd: z3.And(0 <= y, y < bd(s)) for bd in bounds]
            for nm, sub, pr in preds:
                for q, rg in enumerate(rngs):
                    if sub: out.append(Cand(nm, lambda s, x, mem=mem, pr=pr, rg=rg: z3.Implies(mem(s, x[0]), z3.And(rg(s, x[0]), pr(s, x[0]))), [Int], tr))
                    else: out.append(Cand(nm, lambda s, x, mem=mem, pr=pr, rg=rg: z3.Implies(z3.And(rg(s, x[0]), pr(s, x[0])), mem(s, x[0])), [Int], tr))
            for w in vecs:
                if w is not v: out.append(Cand("one stack", lambda s, x, v=v, w=w: z3.Not(z3.And(e.leafat(s, v, ("mem",), x), e.leafat(s, w, ("mem",), x))), [Int], tr))
        if A.tab.root in roots and ison(s):
            key = [(G.key("A"), lambda a: (A.idxA.sel((a[-1],)),))]
            if s.ghost.get("settled"): out.append(Cand("settled", lambda s, x: z3.Implies(A.inr(x[0]), term(s, x[0]) == 0), [Int], full))
            out += [Cand("balance", lambda s, x: G.get(s, "D") == 0), Cand("table length", lambda s, x: A.len(s) == n),
                Cand("keys", lambda s, x: z3.Implies(A.inr(x[0]), z3.And(A.T(s, "first", x[0]) == A.ordA.sel((x[0],)), A.dom.sel((A.T(s, "second", x[0]),)))), [Int], full),
                Cand("thresholds", lambda s, x: z3.Implies(A.inr(x[0]), A.T(s, "threshold", x[0]) >= 0), [Int], full),
                Cand("shared slots", lambda s, x: z3.Implies(z3.And(A.inr(x[0]), A.T(s, "second", x[0]) != A.T(s, "first", x[0])), A.T(s, "threshold", x[0]) < 1), [Int], full),
                Cand("owed", lambda s, x: z3.Implies(A.inr(x[0]), A.u(x[0]) == G.get(s, "A", A.ordA.sel((x[0],))) + term(s, x[0])), [Int], full + key),
                Cand("foreign", lambda s, x: z3.Implies(z3.Not(A.dom.sel((x[0],))), G.get(s, "A", x[0]) == 0), [Int], [(G.key("A"), lambda a: (a[-1],))])]
        return out
    e.hooks["inv"] = inv
    def again(e, s, this, args, node): raise Unsupported("table built again")
    if just: e.summaries[CLS + "::construct_alias_table"] = again
    outs = c.run(st, CLS + "::reconstruct_alias_table", d, [z3.BoolVal(just)], cls=CLS)
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "building the table does not fail"); continue
        entry(e, s)
        entry(e, s)
        c.goal(s, z3.BoolVal(ison(s)), "the accounting starts from the configured shares")
        c.goal(s, A.len(s) == n, "one slot per outcome")
        if not ison(s): continue
        e.assume(s, z3.Implies(A.dom.sel((k,)), z3.And(A.inr(A.idxA.sel((k,))), A.ordA.sel((A.idxA.sel((k,)),)) == k)))
        c.goal(s, z3.Implies(A.inr(i), A.T(s, "threshold", i) >= 0), "thresholds are not negative")
        c.goal(s, z3.Implies(A.dom.sel((k,)), G.get(s, "A", A.ordA.sel((A.idxA.sel((k,)),))) == A.u(A.idxA.sel((k,)))), "each key's slots add up to its weight over the total")
        c.goal(s, z3.Implies(z3.Not(A.dom.sel((k,))), G.get(s, "A", k) == 0), "no other key has a slot")
    return [o.st for o in outs if o.kind == "ret"]

def zsum(A, st, n):
    e = A.e; b = z3.Int("b_" + str(next(e.cnt)))
    return e.pv.idx_sum([], b, A.u(b) - 1, N=n, name="owed").decl(n)

register("C16", name="Alias_rebuild_constructed", cost=2)(lambda c: rebuild(c, True))
register("C16", name="Alias_rebuild", cost=3)(lambda c: rebuild(c, False))

# ---------------------------------------------------------------- callers of the rebuild
def build_summaries(c, A, log="built"):
    """contracts of reconstruct_alias_table (Alias_rebuild*) and construct_alias_table (Alias_construct): the table becomes exact for the map as it is at the call"""
    e = c.e
    def havoc(s):
        for f in A.F:
            k = A.key(f); a = e.cell(s, *k); ix, so = e.leafinfo(*k); s.mem[k] = a.slice((A.d,), e.fresh_arr(s, "tab", list(ix)[1:], so))
        n = e.fresh(s, "slots", Int); e.setleaf(s, A.tab, ("len",), (), n)
    def event(s, how):
        p = e.fld(s, A.d, CLS, "distr"); m = e.heap_lv(A.m.sh, p.t)
        havoc(s); n = e.leafat(s, m, ("n",)); e.assume(s, e.leafat(s, A.tab, ("len",)) == n)
        s.ghost[log] = s.ghost.get(log, ()) + ((how, p.t, {q: e.cell(s, m.root, q).curry((p.t,)) for q in (("dom",), ("val",))}, {f: e.cell(s, *A.key(f)) for f in A.F}),)
    def re(e, s, this, args, node):
        just = e.t(e.rv(s, args[0])) if args else z3.BoolVal(False)
        x = e.fresh(s, "slot", Int); p = e.fld(s, A.d, CLS, "distr")
        e.oblige(s, z3.Implies(just, z3.And(p.t == A.m.idx[0], A.len(s) == A.n, z3.Implies(A.inr(x), A.fresh_slot(s, x)))), "a table declared just constructed holds each outcome's share", kind="pre")
        event(s, "re"); return [(s, VOIDV)]
    def con(e, s, this, args, node):
        e.oblige(s, A.len(s) == 0, "a table is constructed from an empty one", kind="pre")
        event(s, "con"); return [(s, VOIDV)]
    e.summaries[CLS + "::reconstruct_alias_table"] = re; e.summaries[CLS + "::construct_alias_table"] = con

def exact_now(c, A, s, ev, k, i):
    """the table of event ev is untouched since, and the map it was built from is the one in force, with the same contents"""
    e = c.e; how, p, mp, tb = ev
    q = e.fld(s, A.d, CLS, "distr").t; m = e.heap_lv(A.m.sh, q)
    return z3.And(p == q, e.leafat(s, m, ("dom",), (k,)) == mp[("dom",)].sel((k,)), z3.Implies(e.leafat(s, m, ("dom",), (k,)), e.leafat(s, m, ("val",), (k,)) == mp[("val",)].sel((k,))),
                  A.len(s) == e.leafat(s, m, ("n",)), *[e.cell(s, *A.key(f)).sel((A.d, i)) == tb[f].sel((A.d, i)) for f in A.F])

@register("C16", name="Alias_construct", cost=2)
def construct(c):
    e = c.e; st = c.state(); A = Alias(c, st); k = sk(c, "k", Int); i = z3.Int("slot")
    e.setleaf(st, A.tab, ("len",), (), z3.IntVal(0))
    build_summaries(c, A)
    outs = c.run(st, CLS + "::construct_alias_table", A.d, [], cls=CLS)
    for o in outs:
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "constructing the table does not fail"); continue
        ev = o.st.ghost.get("built", ())
        c.goal(o.st, z3.BoolVal(bool(ev)) if not ev else exact_now(c, A, o.st, ev[-1], k, i), "the constructed table is exact for the distribution")
    return [o.st for o in outs if o.kind == "ret"]

@register("C16", name="Alias_rebuild_resized")
def resized(c):
    e = c.e; st = c.state(); A = Alias(c, st); k = sk(c, "k", Int); i = z3.Int("slot")
    e.assume(st, A.len(st) != A.n)
    build_summaries(c, A); e.hooks["inv"] = None
    outs = c.run(st, CLS + "::reconstruct_alias_table", A.d, [z3.BoolVal(False)], cls=CLS)
    for o in outs:
        if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "rebuilding the table does not fail"); continue
        ev = o.st.ghost.get("built", ())
        c.goal(o.st, z3.BoolVal(bool(ev)) if not ev else exact_now(c, A, o.st, ev[-1], k, i), "a table of the wrong size is replaced by an exact one")
    return [o.st for o in outs if o.kind == "ret"]

def updates(c, st):
    e = c.e; A = Alias(c, st)
    use, fr, nu = (e.fld(st, A.d, CLS, f) for f in ("use_alias_method", "reconstruct_alias_table_freq", "num_updates"))
    e.assume(st, z3.And(fr >= 1, 0 <= nu, nu < fr))
    build_summaries(c, A)
    return A, use, fr, nu

@register("C16", name="Alias_update_key")
def update_key(c):
    e = c.e; st = c.state(); A, use, fr, nu = updates(c, st); k = sk(c, "k", Int); i = z3.Int("slot")
    key, w = z3.Int("key"), z3.Real("weight"); e.assume(st, w >= 0)
    tab0 = {f: e.cell(st, *A.key(f)) for f in A.F}; len0 = A.len(st); p0 = A.m.idx[0]
    d0, v0 = e.cell(st, A.m.root, ("dom",)), e.cell(st, A.m.root, ("val",))
    f = [f for f in e.prog.byq.get(CLS + "::update", []) if f.body is not None and len(f.params) == 2]
    if not f: raise Unsupported("update(key, weight) not found")
    outs = c.run(st, f[0], A.d, [key, w], cls=CLS)
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "updating a weight does not fail"); continue
        ev = s.ghost.get("built", ()); due = z3.And(use, nu + 1 == fr)
        c.goal(s, z3.And(e.fld(s, A.d, CLS, "distr").t == p0, e.leafat(s, A.m, ("dom",), (k,)) == z3.Or(k == key, d0.sel((p0, k))), z3.Implies(e.leafat(s, A.m, ("dom",), (k,)), e.leafat(s, A.m, ("val",), (k,)) == z3.If(k == key, w, v0.sel((p0, k))))), "the weight is stored and no other weight changes")
        if ev: c.goal(s, exact_now(c, A, s, ev[-1], k, i), "a rebuild is exact for the updated weights")
        else:
            c.goal(s, z3.Not(due), "the table is rebuilt at the configured frequency")
            c.goal(s, z3.And(A.len(s) == len0, *[e.cell(s, *A.key(f)).sel((A.d, i)) == tab0[f].sel((A.d, i)) for f in A.F]), "between rebuilds the table is unchanged")
        nu1 = e.fld(s, A.d, CLS, "num_updates")
        c.goal(s, z3.Implies(use, z3.And(0 <= nu1, nu1 < fr)), "the update count stays below the frequency")
        c.goal(s, z3.Implies(use, nu1 == (z3.IntVal(0) if ev else nu + 1)), "updates since the last rebuild are counted")
    return [o.st for o in outs if o.kind == "ret"]

@register("C16", name="Alias_update_all")
def update_all(c):
    e = c.e; st = c.state(); A, use, fr, nu = updates(c, st); k = sk(c, "k", Int); i = z3.Int("slot")
    q = c.ref(st, "newdistr")
    f = [f for f in e.prog.byq.get(CLS + "::update", []) if f.body is not None and len(f.params) == 1]
    if not f: raise Unsupported("update(distribution) not found")
    outs = c.run(st, f[0], A.d, [P(q, A.m.sh)], cls=CLS)
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "replacing the distribution does not fail"); continue
        ev = s.ghost.get("built", ())
        c.goal(s, e.fld(s, A.d, CLS, "distr").t == q, "the new distribution is in force")
        c.goal(s, z3.Not(use) if not ev else exact_now(c, A, s, ev[-1], k, i), "the table is exact for the new distribution")
        c.goal(s, e.fld(s, A.d, CLS, "num_updates") == 0, "updates are counted from the replacement")
    return [o.st for o in outs if o.kind == "ret"]

@register("C16", name="Alias_ctor")
def ctor(c):
    e = c.e; st = c.state(); k = sk(c, "k", Int); i = z3.Int("slot")
    p = c.ref(st, "weights"); use = z3.Bool("use"); fr = z3.Int("freq"); e.assume(st, fr >= 1)
    sm = c
    class L: pass
    A = None
    def late(name):
        def f(e, s, this, args, node):
            B = Alias(c, s, this.t)
            build_summaries(c, B); g = e.summaries[CLS + "::" + name]; r = g(e, s, this, args, node)
            e.summaries[CLS + "::construct_alias_table"] = late("construct_alias_table"); e.summaries[CLS + "::reconstruct_alias_table"] = late("reconstruct_alias_table")
            return r
        return f
    for nm in ("construct_alias_table", "reconstruct_alias_table"): e.summaries[CLS + "::" + nm] = late(nm)
    outs = c.ctor(st, CLS, [P(p, MSH), use, fr])
    for o in outs:
        s = o.st
        if o.kind == "throw": c.goal(s, z3.BoolVal(False), "construction does not fail"); continue
        d = o.v.t; ev = s.ghost.get("built", ()); B = Alias(c, s.copy(), d)
        c.goal(s, z3.And(e.fld(s, d, CLS, "distr").t == p, e.fld(s, d, CLS, "use_alias_method") == use, e.fld(s, d, CLS, "reconstruct_alias_table_freq") == fr), "the configuration is kept")
        c.goal(s, z3.Not(use) if not ev else exact_now(c, B, s, ev[-1], k, i), "the table is exact after construction")
        c.goal(s, e.fld(s, d, CLS, "num_updates") == 0, "no update is counted at first")
    return [o.st for o in outs if o.kind == "ret"]
