"""Loops as sequences: every cell a loop modifies becomes a function of the iteration number, with the body
as recurrence; inductive lemmas about the sequences are proposed from the shape of the body and each one is
proved (base and step) before it may be used."""
import z3
from .types import *
from .values import *
from .engine import NORMAL, BREAK, CONT, RET, THROW, Sig, N_, Unsupported, deref_casts
from .prover import has, mentions

class Space:
    """iteration space with elements e_0 .. e_{N-1}"""
    def __init__(self, N, elem, E=None, inv=None, ksort=None, kfacts=None, keyof=None, efacts=None):
        self.efacts = efacts
        self.N, self.elem, self.E, self.inv, self.ksort, self.kfacts, self.keyof = N, elem, E, inv, ksort, kfacts, keyof

class Cell:
    pass

class Loop:
    def __init__(self, eng, st, name):
        self.eng, self.name = eng, name
        self.js = st.js
        self.id = next(eng.cnt)
        self.j = z3.Int("j!%d" % self.id)
        self.K = eng.fresh(st, "K", Int)
        self.cells = {}
        self.lem = {}          # cell key -> list of fn(t, xs) -> [facts]   (in terms of outer js constants)
        self.inv = []          # scalar invariants: fn(t) -> fact
        self.bodyfacts = []    # (pcs, fact) with j
        self.outs = None
        self.space = None
        self.closed = set()
        self.points = {}
        self.covered = set()   # cells whose sequence is fully characterised
    def outer(self, f, args):
        s = [(j, a) for j, a in zip(self.js, args) if not j.eq(a)]
        return z3.substitute(f, *s) if s else f
    def at(self, term, t):
        return z3.substitute(term, (self.j, t)) if not t.eq(self.j) else term

def is_succ(t):
    """t is syntactically u+1: return u"""
    if z3.is_add(t) and t.num_args() == 2:
        for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if z3.is_int_value(a) and a.as_long() == 1: return b
    if z3.is_int_value(t) and t.as_long() >= 1 and t.as_long() <= 3: return z3.IntVal(t.as_long() - 1)
    return None

def head_state(eng, L, st, mods):
    """state at the head of iteration j"""
    h = st.copy()
    h.js = L.js + (L.j,)
    for key in mods:
        c = L.cells.get(key)
        if c is None:
            c = Cell(); c.key = key
            root, path = key
            ix, s = eng.leafinfo(root, path)
            c.ix, c.sort = ix, s
            nm = "c%d_%s_%s" % (L.id, "_".join(str(x) for x in root[1:]), "_".join(str(p) for p in path))
            import re
            nm = re.sub(r"[^\w]+", "_", nm)
            c.decl = z3.Function(nm, *([Int] * (len(L.js) + 1) + list(ix) + [s]))
            c.init = eng.cell(st, root, path)
            c.xs = [z3.Const("x%d_%d" % (L.id, i) + "_" + str(so), so) for i, so in enumerate(ix)]
            c.arr = BaseA(c.decl, L.js + (L.j,))
            L.cells[key] = c
            st.gens.setdefault(nm, []).append(make_gen(eng, L, c))
        h.mem[key] = c.arr
    h.gens = {k: list(v) for k, v in st.gens.items()}
    # order caches of maps whose domain changes become invalid automatically (identity of the dom array)
    return h

def make_gen(eng, L, c):
    nj = len(L.js)
    def gen(args):
        outer, t, xs = args[:nj], args[nj], args[nj + 1:]
        fs = cell_facts(eng, L, c, t, xs)
        return [L.outer(f, outer) for f in fs]
    return gen

def cell_facts(eng, L, c, t, xs):
    term = c.decl(*(L.js + (t,) + tuple(xs)))
    out = []
    if t.eq(z3.IntVal(0)) or not z3.is_int_value(t):
        out.append(z3.Implies(t == 0, term == c.init.sel(tuple(xs))))
    u = is_succ(t)
    if u is not None and getattr(c, "body", None) is not None:
        b = z3.substitute(c.body, *([(L.j, u)] + list(zip(c.xs, xs))))
        g = z3.And(0 <= u, u < L.K)
        out.append(z3.Implies(g, term == b))
        out += [z3.Implies(g, L.at(f, u)) for f in L.steps(u)]
    for lm in L.lem.get(c.key, ()):
        out += lm(t, xs)
    for iv in L.inv:
        out.append(z3.Implies(z3.And(0 <= t, t <= L.K), iv(t)))
    return out

def steps(L, u):
    return L.stepfacts
Loop.steps = steps
def elemfacts(L, u):
    """facts of the element visited at iteration u (0 <= u < N)"""
    sp = L.space
    if sp is None or sp.efacts is None: return []
    return sp.efacts(u)
Loop.elemfacts = elemfacts

def storekeys(arr, base):
    """index vectors written between base and arr; None if not a plain store chain"""
    out = []
    todo = [arr]; seen = set()
    while todo:
        a = todo.pop()
        while a is not base:
            if id(a) in seen: break
            seen.add(id(a))
            if isinstance(a, StoreA): out.append(("pt", a.ix)); a = a.p
            elif isinstance(a, SliceA): out.append(("sl", a.pre)); a = a.p
            elif isinstance(a, IteA): todo.append(a.b); a = a.a
            else: return None
    return out

def run_loop(eng, st, name, body_fn, space=None, exit_fn=None):
    """body_fn(head state, j) -> [(state, sig)] executes guard+body+increment of iteration j; outcomes:
       NORMAL/CONT next iteration, ('exit') guard false, BREAK, RET, THROW.
       returns [(state, sig)] after the loop."""
    if eng.hooks.get("inv") is not None:
        from . import invloop
        r = invloop.try_loop(eng, st, name, body_fn, space, exit_fn)
        if r is not None: return r
    saved_rec = eng.record
    mods = []
    L = None
    # --- discovery
    for rnd in range(8):
        eng.record = False
        L0 = Loop(eng, st, name)
        L0.stepfacts = []
        base = st.copy()
        sp = space(eng, base) if space else None
        h = head_state(eng, L0, base, mods)
        enter(eng, L0, h, sp)
        hmem = dict(h.mem)
        outs = body_fn(h, L0.j, L0)
        new = []
        for s, sig in outs:
            if sig.k not in (NORMAL, CONT): continue       # what only a leaving iteration changes is unchanged at every head
            for key, a in s.mem.items():
                if key in mods or key in new: continue
                root = key[0]
                if root[0] in ("fld", "heap"):
                    b = hmem.get(key)
                    if b is None: b = base.mem.get(key)
                    if b is None: b = eng.init_cell(key)
                    if a is not b and not same_arr(a, b): new.append(key)
                elif key in base.mem:
                    if a is not base.mem[key] and not (key in hmem and a is hmem[key]): new.append(key)
            for mk, mv in s.meta.items():
                if isinstance(mk, tuple) and mk[0] == "iter" and mk in base.meta:
                    o = base.meta[mk]
                    if not (mv.pos.eq(o.pos)) and mk not in new and mk not in mods: new.append(mk)
        if not new: break
        mods += new
        mods.sort(key=str)
        if any(m[0] == "iter" for m in mods): raise Unsupported("iterator modified in a loop without counter form")
    else:
        raise Unsupported("loop modification set does not stabilise")
    eng.record = saved_rec
    # --- definitive pass
    L = Loop(eng, st, name)
    L.stepfacts = []
    entry = st
    sp = space(eng, entry) if space else None
    L.space = sp
    h = head_state(eng, L, entry, mods)
    nfacts, npc = len(h.facts), len(h.pc)
    enter(eng, L, h, sp)
    nf1 = len(h.facts)
    L.head = h.copy()
    obl0 = len(eng.obls)
    outs = body_fn(h, L.j, L)
    normal = [(s, sig) for s, sig in outs if sig.k in (NORMAL, CONT)]
    # body results
    conds, sf = [], []
    for s, sig in normal:
        pcs = s.pc[npc:]
        cond = z3.And(*pcs) if len(pcs) != 1 else pcs[0]
        if not pcs: cond = z3.BoolVal(True)
        conds.append(cond)
        for f in s.facts[nf1:]: sf.append(z3.Implies(cond, f) if pcs else f)
    L.stepfacts = list(h_facts(L.head, nfacts, nf1))
    if normal:
        anyc = z3.Or(*conds) if len(conds) > 1 else conds[0]
        L.stepfacts.append(anyc)
    seen = set()
    for f in sf:
        if f.get_id() not in seen:
            seen.add(f.get_id()); L.stepfacts.append(f)
    L.gens = {}
    for s, sig in normal:
        for k, v in s.gens.items():
            lst = L.gens.setdefault(k, [])
            for g in v:
                if g not in lst: lst.append(g)
        for k, v in s.gens.items():
            lst = entry.gens.setdefault(k, [])
            for g in v:
                if g not in lst: lst.append(g)
    for key in mods:
        c = L.cells[key]
        if not normal: c.body = None; continue
        vals = [s.mem[key].sel(tuple(c.xs)) for s, _ in normal]
        b = vals[-1]
        for v, cd in zip(reversed(vals[:-1]), reversed(conds[:-1])): b = ite(cd, v, b)
        c.body = b
        c.stores = []
        for s, _ in normal:
            k = storekeys(s.mem[key], c.arr)
            if k is None: c.stores = None; break
            c.stores += k
    eng.loops.append(L)
    # constructing lemmas must see every generator known so far
    if normal: derive(eng, L, entry)
    # obligations recorded inside the body see the lemmas through the shared generators
    for o in eng.obls[obl0:]:
        merge_gens(o.st, L.gens)
    # --- outcomes
    res = []
    for s, sig in outs:
        if sig.k in (NORMAL, CONT): continue
        merge_gens(s, L.gens)
        s.js = L.js
        # the loop index of the exiting iteration becomes an ordinary constant
        jx = eng.fresh(entry, "jx", Int)
        s = subst_state(eng, s, L.j, jx)
        sig = Sig(sig.k, subst_val(sig.v, L.j, jx))
        s.facts.append(L.K == jx)
        if normal: s.facts += prev_step(L, jx)
        if normal and not L.cells: s.facts += key_steps(eng, L, sp)
        if sig.k in ("exit", BREAK): res.append((s, N_))
        else: res.append((s, sig))
    if exit_fn is None:      # range loop: runs to the end
        s = entry
        for key in mods: s.mem[key] = BaseA(L.cells[key].decl, L.js + (sp.N,))
        s.facts += [L.K == sp.N, sp.N >= 0]
        merge_gens(s, L.gens)
        s.facts += [iv(sp.N) for iv in L.inv]
        for pf in getattr(L, "posts", []): pf(s)
        if sp.kfacts is not None and getattr(L, "folds", None):      # positions of the contract's keys
            for x in eng.skolems:
                if x.sort() == sp.ksort: s.facts += sp.kfacts(x)
        if normal and len(outs) > len(normal):
            s.facts += prev_step(L, sp.N)
            if not L.cells: s.facts += key_steps(eng, L, sp)
        note_inexact(eng, L, mods)
        res.append((s, N_))
    else:
        note_inexact(eng, L, mods)
        for s, sig in res:
            s.facts += [iv(L.K) for iv in L.inv]
    return res

def prev_step(L, t):
    """the iteration before t ran through the body"""
    pj = z3.simplify(t - 1)
    pf = [L.at(f, pj) for f in L.stepfacts]
    for c in L.cells.values():
        if getattr(c, "point", None) is not None and c.body is not None:
            o = tuple(c.point)
            pf.append(c.decl(*(L.js + (t,) + o)) == L.at(z3.substitute(c.body, *zip(c.xs, o)) if o else c.body, pj))
    return [z3.Implies(t >= 1, f) for f in pf]

def key_steps(eng, L, sp):
    """a search loop (it changes nothing until it leaves): the contract's keys were passed by an iteration that went on"""
    out = []
    if sp is None or sp.inv is None: return out
    for x in eng.skolems:
        if x.sort() != sp.ksort: continue
        p = z3.simplify(sp.inv(x))
        if sp.kfacts: out += sp.kfacts(x)
        g = z3.And(sp.E(x), 0 <= p, p < L.K)
        out += [z3.Implies(g, L.at(f, p)) for f in L.stepfacts]
    return out

def h_facts(head, a, b): return head.facts[a:b]

def note_inexact(eng, L, mods):
    for key in mods:
        if key not in L.covered:
            eng.inexact.append("%s: sequence of %s only characterised by its recurrence" % (L.name, key))

def same_arr(a, b):
    return a is b or (isinstance(a, ConstA) and isinstance(b, ConstA) and a.v.eq(b.v))

def merge_gens(s, gens):
    for k, v in gens.items():
        lst = s.gens.setdefault(k, [])
        for g in v:
            if g not in lst: lst.append(g)

def enter(eng, L, h, sp):
    h.facts.append(L.j >= 0)
    h.facts.append(L.K >= L.j)
    if sp is not None:
        h.facts.append(L.j < sp.N)
        h.facts.append(L.K <= sp.N)

def subst_term(t, a, b): return z3.substitute(t, (a, b))
def subst_val(v, a, b):
    if v is None: return None
    if isinstance(v, z3.ExprRef): return subst_term(v, a, b)
    if isinstance(v, P): return P(subst_term(v.t, a, b), v.cls)
    if isinstance(v, ObjL): return ObjL(subst_term(v.t, a, b), v.cls)
    if isinstance(v, Lv): return Lv(v.root, [subst_term(x, a, b) for x in v.idx], v.path, v.sh)
    if isinstance(v, PairL): return PairL(subst_val(v.k, a, b), subst_val(v.v, a, b))
    if isinstance(v, IterV): return IterV(subst_val(v.c, a, b), subst_term(v.pos, a, b), v.rev)
    if isinstance(v, tuple): return tuple(subst_val(x, a, b) for x in v)
    if isinstance(v, Cont): return Cont(v.sh, {p: SubstA(x, a, b) for p, x in v.leaf.items()})
    return v
class SubstA(Arr):
    __slots__ = ("p", "a", "b")
    def __init__(self, p, a, b): super().__init__(); self.p, self.a, self.b = p, a, b
    def _sel(self, idx):
        # fresh placeholders keep the substitution off the index terms
        ph = [z3.Const("ph%d_%s" % (i, x.sort()), x.sort()) for i, x in enumerate(idx)]
        t = z3.substitute(self.p.sel(tuple(ph)), (self.a, self.b)) if idx else z3.substitute(self.p.sel(()), (self.a, self.b))
        return z3.substitute(t, *zip(ph, idx)) if idx else t
def subst_state(eng, s, a, b):
    s.mem = {k: (SubstA(v, a, b) if depends(v, a) else v) for k, v in s.mem.items()}
    s.pc = [subst_term(x, a, b) for x in s.pc]
    s.facts = [subst_term(x, a, b) for x in s.facts]
    for f in s.frames: f.vars = {k: subst_val(v, a, b) for k, v in f.vars.items()}
    s.meta = {k: (subst_val(v, a, b) if isinstance(v, (IterV, tuple)) and isinstance(k, tuple) and k[0] == "iter" else v) for k, v in s.meta.items() if not (isinstance(k, tuple) and k[0] in ("order",))}
    return s
def depends(arr, a):
    st = [arr]
    while st:
        x = st.pop()
        if isinstance(x, BaseA):
            if any(has(p, [a]) for p in x.pre): return True
        elif isinstance(x, ConstA):
            if has(x.v, [a]): return True
        elif isinstance(x, StoreA):
            if any(has(i, [a]) for i in x.ix) or has(x.v, [a]): return True
            st.append(x.p)
        elif isinstance(x, SliceA):
            if any(has(i, [a]) for i in x.pre): return True
            st += [x.p, x.tail]
        elif isinstance(x, CurryA):
            if any(has(i, [a]) for i in x.pre): return True
            st.append(x.p)
        elif isinstance(x, IteA): return True
        elif isinstance(x, LamA): return True
        elif isinstance(x, SubstA): st.append(x.p)
    return False

# ------------------------------------------------------------------ lemmas
def derive(eng, L, entry):
    pv = eng.pv
    TO = 4000
    hfacts = L.head.facts + L.head.pc + L.stepfacts
    gens = L.gens
    def prove(goal, extra=()):
        v, m, k = pv.prove(hfacts + list(extra), gens, goal, timeout=TO)
        return v == "proved"
    jn = z3.simplify(L.j + 1)
    K = L.K
    sp = L.space
    names = {c.decl.name(): c for c in L.cells.values()}
    cells = list(L.cells.values())
    def cur(c, xs): return c.decl(*(L.js + (L.j,) + tuple(xs)))
    # 1. point cells: cells only written at one fixed index vector
    for c in cells:
        c.point = None
        if not c.ix: c.point = ()
        elif c.stores is not None:
            pts = []
            ok = True
            for kd, ix in c.stores:
                if kd != "pt" or any(has(i, [L.j]) or mentions(i, names) for i in ix): ok = False; break
                if not any(all(a.eq(b) for a, b in zip(ix, p)) for p in pts): pts.append(ix)
            if ok and len(pts) == 1:
                c.point = pts[0]
                def lem(t, xs, c=c):
                    o = c.point
                    ne = z3.Or(*[x != y for x, y in zip(xs, o)]) if len(o) > 1 else xs[0] != o[0]
                    term = c.decl(*(L.js + (t,) + tuple(xs)))
                    return [z3.Implies(z3.And(0 <= t, t <= K, ne), term == c.init.sel(tuple(xs)))]
                L.lem.setdefault(c.key, []).append(lem)
                L.covered.add(c.key)   # characterised away from the point; the point is handled below
                c.pend = True
    # 2. frame lemmas for cells indexed by the loop element
    todo = [c for c in cells if c.point is None]
    counters = []
    def do_counters(rest=False):
        for c in cells:
            if c.point is None or c.sort != Int or c.key in L.closed: continue
            o = c.point
            b = z3.substitute(c.body, *zip(c.xs, o)) if o else c.body
            d = z3.simplify(b - cur(c, o))
            if rest and not z3.is_int_value(d) and c.key[1] and c.key[1][-1] == "n" and zero_one(z3.simplify(z3.substitute(b, (cur(c, o), z3.IntVal(0))))) and prove(d == 1): d = z3.IntVal(1)     # every step inserts a new key
            if z3.is_int_value(d):
                k = d
                def lem(t, xs, c=c, k=k):
                    o = c.point
                    term = c.decl(*(L.js + (t,) + tuple(o)))
                    return [z3.Implies(z3.And(0 <= t, t <= K), term == c.init.sel(tuple(o)) + k * t)]
                L.lem.setdefault(c.key, []).append(lem)
                L.closed.add(c.key); L.covered.add(c.key); counters.append((c, k))
    do_counters()
    cands_int = [z3.IntVal(0)] + [c.init.sel(tuple(c.point)) for c, k in counters if z3.is_int_value(k) and k.as_long() == 1]
    pending = list(todo)
    for rnd in range(2):
        for c in list(pending):
            got = False
            for i, so in enumerate(c.ix):
                opts = []
                if sp is not None and sp.inv is not None and so == sp.ksort:
                    opts.append((lambda x: sp.E(x), lambda x: sp.inv(x), sp.kfacts))
                if so == Ref and sp is not None and sp.inv is not None:
                    for (ck, isc, ks) in eng.ckeys:
                        if ks == sp.ksort:
                            opts.append((lambda x, ck=ck, isc=isc: z3.And(isc(x), sp.E(ck(x))), lambda x, ck=ck: sp.inv(ck(x)),
                                         (lambda x, ck=ck: sp.kfacts(ck(x))) if sp.kfacts else None))
                if so == Int:
                    for base in cands_int:
                        opts.append((lambda x, base=base: z3.And(x - base >= 0, x - base < K), lambda x, base=base: x - base, None))
                for E, inv, kf in opts:
                    x = c.xs[i]
                    extra = list(kf(x)) if kf else []
                    goal = z3.Implies(z3.Not(z3.And(E(x), inv(x) == L.j)) if so != Int else inv(x) != L.j, c.body == cur(c, c.xs))
                    if prove(goal, extra):
                        def lem(t, xs, c=c, i=i, E=E, inv=inv, kf=kf):
                            x = xs[i]
                            term = c.decl(*(L.js + (t,) + tuple(xs)))
                            p = inv(x)
                            hit = z3.And(E(x), p < t)
                            after = c.decl(*(L.js + (p + 1,) + tuple(xs)))
                            fs = list(kf(x)) if kf else []
                            if (p + 1).eq(t): return fs
                            return fs + [z3.Implies(z3.And(0 <= t, t <= K, hit), term == after),
                                         z3.Implies(z3.And(0 <= t, t <= K, z3.Not(hit)), term == c.init.sel(tuple(xs)))]
                        L.lem.setdefault(c.key, []).append(lem)
                        L.covered.add(c.key); L.closed.add(c.key); got = True
                        break
                if got: break
            if got: pending.remove(c)
        do_counters(rnd == 1)
    # 3. accumulators
    loopnames = {c.decl.name() for c in cells if c.key not in L.closed}
    def open_names(): return {c.decl.name() for c in cells if c.key not in L.closed}
    pts = [c for c in cells if c.point is not None and c.key not in L.closed]
    def bodyat(c): return z3.substitute(c.body, *zip(c.xs, c.point)) if c.point else c.body
    def setview(g):
        """h(x) = g at the position of x"""
        if sp is None or sp.inv is None: return None, None, None
        xb = z3.Const("k!%d" % next(eng.cnt), sp.ksort)
        h = z3.substitute(g, (L.j, sp.inv(xb)))
        # element terms e_{pos(x)} are x itself
        return xb, h, sp.E(xb)
    def mk_sum(c, g, name):
        if g.sort() == Int: g = z3.ToReal(g)
        xb, h, E = setview(g)
        b = z3.Int("i!%d" % next(eng.cnt))
        gi = z3.substitute(g, (L.j, b))
        if c.sort == Int and c.key[1] and c.key[1][-1] in ("n", "len") and zero_one(g): E = None      # size of a container: a counter
        s = pv.idx_sum(list(L.js), b, gi, E=E, h=h, xb=xb, N=sp.N if sp is not None else None, name=name)
        if E is None: s.weak = c.sort == Int and zero_one(g)
        return s
    for rnd in range(3):
        progress = False
        for c in list(pts):
            if c.sort not in (Real, Int) or c.key in L.closed: continue
            me = cur(c, c.point)
            b = bodyat(c)
            zero = z3.RealVal(0) if c.sort == Real else z3.IntVal(0)
            g = z3.simplify(z3.substitute(b, (me, zero)))
            if mentions(g, open_names()) : continue
            if prove(b - me == g):
                s = mk_sum(c, g, c.key[0][-1] if isinstance(c.key[0][-1], str) else "acc")
                def lem(t, xs, c=c, s=s):
                    o = c.point
                    term = c.decl(*(L.js + (t,) + tuple(o)))
                    i0 = c.init.sel(tuple(o))
                    sm = s.decl(*(L.js + (t,)))
                    lhs = z3.ToReal(term - i0) if c.sort == Int else term - i0
                    return [z3.Implies(z3.And(0 <= t, t <= K), lhs == sm)]
                L.lem.setdefault(c.key, []).append(lem)
                L.closed.add(c.key); L.covered.add(c.key); c.pend = False
                pts.remove(c); progress = True
        if not progress: break
    # 4. weighted running averages: v*w is a sum although v alone is not (w: a closed cell, possibly shifted by one)
    rl = lambda t: z3.ToReal(t) if t.sort() == Int else t
    for c in list(pts):
        if c.sort != Real: continue
        for w, off in [(w, off) for off in (0, -1, 1) for w in cells]:
            if w is c or w.point is None or w.sort not in (Real, Int) or w.key not in L.closed: continue
            if off and not z3.is_rational_value(z3.simplify(rl(w.init.sel(tuple(w.point))))): continue
            me, wr = cur(c, c.point), cur(w, w.point)
            we = rl(wr) + off
            b, wb = bodyat(c), rl(bodyat(w)) + off
            d = b * wb - me * we
            g = None
            for w0 in (1, 2):
                cand = z3.simplify(z3.substitute(d, (me, z3.RealVal(0)), (wr, z3.RealVal(w0 - off) if w.sort == Real else z3.IntVal(w0 - off))))
                if mentions(cand, open_names() | {w.decl.name()}): continue
                # is the weight non-negative?
                if prove(z3.Implies(z3.And(we >= 0, z3.Or(we > 0, me == c.init.sel(tuple(c.point)))), d == cand)): g = cand; break
            if g is None: continue
            wn = lambda t, w=w, off=off: rl(w.decl(*(L.js + (t,) + tuple(w.point)))) + off
            wr_ = lambda t, w=w: w.decl(*(L.js + (t,) + tuple(w.point)))
            cn = lambda t, c=c: c.decl(*(L.js + (t,) + tuple(c.point)))
            i0 = c.init.sel(tuple(c.point)); w0 = rl(w.init.sel(tuple(w.point))) + off
            iv = lambda t, wn=wn, cn=cn, i0=i0: z3.And(wn(t) >= 0, z3.Implies(wn(t) == 0, cn(t) == i0))
            z0 = z3.IntVal(0)
            if not pv.prove(entry.facts + entry.pc, entry.gens, z3.substitute(z3.substitute(iv(z0), (cn(z0), i0)), (wr_(z0), w.init.sel(tuple(w.point)))), timeout=TO)[0] == "proved": continue
            step = z3.And(wb >= 0, z3.Implies(wb == 0, b == i0))
            if not prove(z3.Implies(iv(L.j), step)): continue
            L.inv.append(iv)
            s = mk_sum(c, g, "wavg")
            def lem(t, xs, c=c, w=w, s=s, wn=wn, cn=cn, i0=i0, w0=w0):
                return [z3.Implies(z3.And(0 <= t, t <= K), cn(t) * wn(t) == i0 * w0 + s.decl(*(L.js + (t,))))]
            L.lem.setdefault(c.key, []).append(lem)
            L.closed.add(c.key); L.covered.add(c.key); pts.remove(c)
            break
    # 5. max / min folds
    for c in list(pts):
        if c.sort not in (Real, Int): continue
        fold(eng, L, c, prove, open_names, bodyat, cur, entry, K)
        if c.key in L.closed: pts.remove(c)
    # 6. arg-max sets (vector cells that are reset when a better value appears)
    argmax(eng, L, cells, prove, entry, cur, K)
    # 6b. cells that keep the value of their last assignment
    for c in list(pts):
        if c.key not in L.closed: last_write(eng, L, c, open_names, bodyat, cur, K)
    # 7. boolean candidates (Houdini)
    houdini(eng, L, cells, prove, entry, cur, bodyat, K)
    for c in cells:
        if getattr(c, "pend", False) and c.key not in L.closed: L.covered.discard(c.key)

def zero_one(g):
    """summand is an if-then-else tree over 0 and 1"""
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_TO_REAL: g = g.arg(0)
    vs = [v for _, v in assigned_values(g, None)]
    return all(z3.is_int_value(v) and v.as_long() in (0, 1) for v in vs)

def assigned_values(t, me):
    """leaf values of an ite tree with their conditions"""
    out = []
    def go(x, cs):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            go(x.arg(1), cs + [x.arg(0)]); go(x.arg(2), cs + [z3.Not(x.arg(0))])
        else: out.append((cs, x))
    go(t, [])
    return out

def atoms(c):
    if z3.is_and(c):
        r = []
        for x in c.children(): r += atoms(x)
        return r
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        r = []
        for x in c.arg(0).children(): r += atoms(z3.Not(x))
        return r
    return [c]

def fold(eng, L, c, prove, open_names, bodyat, cur, entry, K):
    me = cur(c, c.point)
    b = bodyat(c)
    vals = [(cs, v) for cs, v in assigned_values(b, me) if not v.eq(me)]
    on = open_names()
    qs = []
    for cs, v in vals:
        if mentions(v, on): return
        at = [a for x in cs for a in atoms(x) if not mentions(a, on)]
        cond = z3.And(*at) if at else z3.BoolVal(True)
        if not any(v.eq(q) and cond.eq(cd) for cd, q in qs): qs.append((cond, v))
    if not qs or len(qs) > 4: return
    for sgn in (1, -1):
        ge = (lambda a, b_: a >= b_) if sgn == 1 else (lambda a, b_: a <= b_)
        if not prove(z3.And(ge(b, me), *([z3.Implies(cd, ge(b, q)) for cd, q in qs] + [z3.Or(b == me, *[z3.And(cd, b == q) for cd, q in qs])]))): continue
        wit = z3.Function("wit!%d" % next(eng.cnt), *([Int] * len(L.js) + [Int, Int]))
        def at_(x, u): return z3.substitute(x, (L.j, u))
        def lem(t, xs):
            o = c.point
            term = c.decl(*(L.js + (t,) + tuple(o)))
            i0 = c.init.sel(tuple(o))
            w = wit(*(L.js + (t,)))
            fs = [z3.Implies(z3.And(0 <= t, t <= K), z3.And(ge(term, i0), z3.Or(term == i0, z3.And(0 <= w, w < t, z3.Or(*[z3.And(at_(cd, w), term == at_(q, w)) for cd, q in qs])))))]
            fs += [L.at(f, w) for f in L.elemfacts(w)]
            return fs
        L.lem.setdefault(c.key, []).append(lem)
        # domination: for every element position u < t
        def dom(t, u):
            o = c.point
            term = c.decl(*(L.js + (t,) + tuple(o)))
            return z3.And(*[z3.Implies(z3.And(0 <= u, u < t, t <= K, at_(cd, u)), ge(term, at_(q, u))) for cd, q in qs])
        L.folds = getattr(L, "folds", []) + [(c, dom)]
        L.wits = getattr(L, "wits", []) + [(c, lambda t: wit(*(L.js + (t,))))]
        sp = L.space
        if sp is not None and sp.inv is not None:
            x = z3.Const("kk", sp.ksort)
            d = sp.inv(x).decl()
            nargs = sp.inv(x).num_args()
            def f(args, d=d):
                xx = args[-1]
                if not sp.inv(xx).eq(d(*args)): return []
                return [dom(L.K, d(*args))]
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                eng.pv.gens.setdefault(d.name(), []).append(f)
        L.closed.add(c.key); L.covered.add(c.key)
        return

def last_write(eng, L, c, open_names, bodyat, cur, K):
    """c keeps its initial value or holds what the last assigning iteration w gave it (sound for any body by induction)"""
    me = cur(c, c.point)
    b = bodyat(c)
    on = open_names()
    vals = []
    for cs, v in assigned_values(b, me):
        if v.eq(me): continue
        if mentions(v, on): return
        vals.append((cs, v))
    if not vals or len(vals) > 4: return
    qs = []
    for cs, v in vals:
        at = [a for x in cs for a in atoms(x) if not mentions(a, on)]
        qs.append((z3.And(*at) if at else z3.BoolVal(True), v))
    exact = all(not mentions(a, on) for cs, v in vals for a in cs)
    wit = z3.Function("lastw!%d" % next(eng.cnt), *([Int] * len(L.js) + [Int, Int]))
    at_ = lambda x, u: z3.substitute(x, (L.j, u))
    def lem(t, xs):
        o = c.point
        term = c.decl(*(L.js + (t,) + tuple(o)))
        i0 = c.init.sel(tuple(o))
        w = wit(*(L.js + (t,)))
        fs = [z3.Implies(z3.And(0 <= t, t <= K), z3.Or(term == i0, z3.And(0 <= w, w < t, z3.Or(*[z3.And(at_(cd, w), term == at_(q, w)) for cd, q in qs]))))]
        fs += [z3.Implies(z3.And(0 <= w, w < t, t <= K), at_(f, w)) for f in L.stepfacts]
        fs += [L.at(f, w) for f in L.elemfacts(w)]
        return fs
    L.lem.setdefault(c.key, []).append(lem)
    if exact:
        # no assigning iteration lies after w (before t): instantiated at the positions of keys
        anyc = z3.Or(*[cd for cd, _ in qs])
        def after(t, u):
            o = c.point
            term = c.decl(*(L.js + (t,) + tuple(o))); w = wit(*(L.js + (t,)))
            hit = z3.And(0 <= w, w < t, z3.Or(*[z3.And(at_(cd, w), term == at_(q, w)) for cd, q in qs]))
            return z3.Implies(z3.And(0 <= u, u < t, t <= K, at_(anyc, u)), z3.And(hit, u <= w))
        sp = L.space
        if sp is not None and sp.inv is not None:
            x = z3.Const("kk", sp.ksort); d = sp.inv(x).decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                def f(args, d=d):
                    if not sp.inv(args[-1]).eq(d(*args)): return []
                    return [after(L.K, d(*args))]
                eng.pv.gens.setdefault(d.name(), []).append(f)
        L.covered.add(c.key)
    # not 'closed': the value at t is not a function of t alone for other schemata
    c.pend = False

def argmax(eng, L, cells, prove, entry, cur, K):
    """vector 'mem' cells that are reset when a new best value is found"""
    sp = L.space
    if sp is None or sp.inv is None: return
    for c in cells:
        if c.key in L.closed or c.key[1][-1:] != ("mem",) or len(c.ix) != 1 or c.ix[0] != sp.ksort: continue
        # candidate: membership == (position reached and value equals the running best and condition)
        for m in cells:
            if not hasattr(m, "point") or m.point is None or m.sort not in (Real, Int) or m.key not in L.closed: continue
            mb = z3.substitute(m.body, *zip(m.xs, m.point)) if m.point else m.body
            mcur = cur(m, m.point)
            vals = [v for cs, v in assigned_values(mb, mcur) if not v.eq(mcur)]
            if len(vals) != 1: continue
            q = vals[0]
            x = c.xs[0]
            qx = z3.substitute(q, (L.j, sp.inv(x)))
            inv_ = lambda t, xx: z3.And(sp.E(xx), sp.inv(xx) < t, z3.substitute(q, (L.j, sp.inv(xx))) == m.decl(*(L.js + (t,) + tuple(m.point))))
            body_inv = z3.And(sp.E(x), sp.inv(x) < L.j + 1, qx == mb)
            extra = sp.kfacts(x) if sp.kfacts else []
            base = c.init.sel((x,)) == z3.BoolVal(False)
            if eng.pv.prove(entry.facts + entry.pc, entry.gens, base, timeout=3000)[0] != "proved": continue
            fd = [d(L.j, sp.inv(x)) for (cc, d) in getattr(L, "folds", []) if cc is m]
            if prove(z3.Implies(cur(c, (x,)) == inv_(L.j, x), c.body == body_inv), list(extra) + fd):
                def lem(t, xs, c=c):
                    return [z3.Implies(z3.And(0 <= t, t <= K), c.decl(*(L.js + (t,) + tuple(xs))) == inv_(t, xs[0]))] + (sp.kfacts(xs[0]) if sp.kfacts else [])
                L.lem.setdefault(c.key, []).append(lem)
                L.closed.add(c.key); L.covered.add(c.key)
                # the companion ghost/payload cells of the same vector follow from the vector well-formedness facts
                for d in cells:
                    if d.key[0] == c.key[0] and d.key[1][-1:] in (("el",), ("pos",), ("len",), ("nd",)): L.covered.add(d.key)
                # a member has a position, so the vector is not empty: instantiated at the first element and at the fold's witness
                if sp.elem is not None:
                    us = [z3.IntVal(0)] + [w(K) for (cc, w) in getattr(L, "wits", []) if cc is m]
                    def post(s, c=c, us=us, m=m):
                        root, pth = c.key[0], c.key[1][:-1]
                        for u in us:
                            x = sp.elem(u)
                            mt = s.mem[c.key].sel((x,)); p = eng.cell(s, root, pth + ("pos",)).sel((x,)); ln = eng.cell(s, root, pth + ("len",)).sel(())
                            s.facts.append(z3.Implies(mt, z3.And(0 <= p, p < ln, eng.cell(s, root, pth + ("el",)).sel((p,)) == x)))
                    L.posts = getattr(L, "posts", []) + [post]
                break

def houdini(eng, L, cells, prove, entry, cur, bodyat, K):
    cands = []
    for c in cells:
        if c.point is None: continue
        o = c.point
        t_ = lambda t, c=c, o=o: c.decl(*(L.js + (t,) + tuple(o)))
        i0 = c.init.sel(tuple(o))
        b = bodyat(c)
        if c.sort == Bool:
            cands.append((c, lambda t, f=t_: f(t), i0, b))
            cands.append((c, lambda t, f=t_: z3.Not(f(t)), z3.Not(i0), z3.Not(b)))
            for v in (True, False):
                cands.append((c, (lambda t, f=t_, v=v: z3.Implies(t > 0, f(t) == v)), z3.BoolVal(True), b == v))
        elif c.sort in (Real, Int) and c.key not in L.closed:
            cands.append((c, lambda t, f=t_: f(t) >= 0, i0 >= 0, b >= 0))
            cands.append((c, lambda t, f=t_, i0=i0: f(t) >= i0, z3.BoolVal(True), b >= i0))
            cands.append((c, lambda t, f=t_, i0=i0: f(t) <= i0, z3.BoolVal(True), b <= i0))
        elif c.sort == Int and c.key[1][-1:] in (("len",), ("n",)):
            cands.append((c, lambda t, f=t_: f(t) >= 0, i0 >= 0, b >= 0))
    ok = []
    for cd in cands:
        c, f, base, step = cd
        if z3.is_true(z3.simplify(base)) or eng.pv.prove(entry.facts + entry.pc, entry.gens, base, timeout=2000)[0] == "proved":
            ok.append(cd)
    changed = True
    while changed and ok:
        changed = False
        hyp = [f(L.j) for _, f, _, _ in ok]
        for cd in list(ok):
            if not prove(cd[3], hyp):
                ok.remove(cd); changed = True
    for c, f, _, _ in ok:
        L.inv.append(f)

# ------------------------------------------------------------------ statement forms
def range_for(eng, st, n):
    parts = n["inner"]
    decls = [p for p in parts if p.get("kind") == "DeclStmt"]
    rng = decls[0]["inner"][0]
    rexpr = rng["inner"][0]
    var = decls[-1]["inner"][0]
    body = parts[-1]
    out = []
    for s, c in eng.ev(st, rexpr):
        if isinstance(c, Cont):
            lv = eng.var_lv(s, "range", c.sh); eng.write(s, lv, c); c = lv
        if not isinstance(c, Lv): raise Unsupported("range over %r" % (c,))
        out += range_loop(eng, s, c, var, body)
    return out

def bind_var(eng, s, var, v):
    fr = s.frames[-1]
    t = var["type"].get("desugaredQualType") or var["type"]["qualType"]
    isref = t.rstrip().endswith("&")
    if var["kind"] == "DecompositionDecl":
        bs = [b for b in var.get("inner", ()) if b.get("kind") == "BindingDecl"]
        for i, b in enumerate(bs):
            if isinstance(v, PairL): x = (v.k, v.v)[i]
            elif isinstance(v, Lv) and v.sh.k in ("tup",): x = v.sub((i,), v.sh.args[i])
            elif isinstance(v, tuple): x = v[i]
            else: raise Unsupported("structured binding")
            if not isref and isinstance(x, Lv): x = eng.rv(s, x)
            if isinstance(x, (z3.ExprRef, P)):
                sh = PTR(x.cls) if isinstance(x, P) else {Int: INT, Real: REAL, Bool: BOOL}[x.sort()]
                lv = eng.var_lv(s, b.get("name", "b"), sh, fr.serial); eng.write(s, lv, x); x = lv
            fr.vars[b["id"]] = x
        return
    if isref and isinstance(v, (Lv, PairL, ObjL)):
        fr.vars[var["id"]] = v; return
    v = eng.rv(s, v)
    sh = eng.ty.shape(var["type"])
    if isinstance(v, tuple) and sh.k not in ("tup", "struct"):
        sh = Shape("tup", [PTR(x.cls) if isinstance(x, P) else {Int: INT, Real: REAL, Bool: BOOL}[x.sort()] for x in v])
    if isinstance(v, P) and sh.k != "ptr": sh = PTR(v.cls)
    if isinstance(v, z3.ExprRef) and not scalar(sh): sh = {Int: INT, Real: REAL, Bool: BOOL}[v.sort()]
    lv = eng.var_lv(s, var.get("name", "it"), sh, fr.serial)
    eng.write(s, lv, v)
    fr.vars[var["id"]] = lv

def range_loop(eng, st, c, var, body):
    name = "%s:%s" % ("/".join(eng.where[-1:]), body.get("_line"))
    if eng.access_check: eng.access_check(eng, st, c, False)
    sh = c.sh
    def space(e, s):
        if sh.k == "vec":
            N = e.vec_len(s, c)
            snap = {p: e.cell(s, c.root, c.path + p).curry(c.idx) for p, ix, so in leaves(sh)}
            el = sh.args[0]
            if el.k in ("ptr", "int") and nodup_known(e, s, snap[("nd",)].sel(())):
                ks = leaf_sort(el)
                mem, pos, ela = snap[("mem",)], snap[("pos",)], snap[("el",)]
                def kf(x): 
                    p = pos.sel((x,))
                    return [z3.Implies(mem.sel((x,)), z3.And(0 <= p, p < N, ela.sel((p,)) == x))]
                def ef(u):
                    x = ela.sel((u,))
                    return [z3.Implies(z3.And(0 <= u, u < N), z3.And(mem.sel((x,)), pos.sel((x,)) == u))]
                return Space(N, lambda u: ela.sel((u,)), lambda x: mem.sel((x,)), lambda x: pos.sel((x,)), ks, kf, efacts=ef)
            return Space(N, None)
        if sh.k == "map":
            ordA, idxA, domv, n_ = e.map_order(s, c)
            ks = leaf_sort(sh.args[0])
            def kf(x):
                p = idxA.sel((x,))
                return [z3.Implies(domv.sel((x,)), z3.And(0 <= p, p < n_, ordA.sel((p,)) == x))]
            return Space(n_, lambda u: ordA.sel((u,)), lambda x: domv.sel((x,)), lambda x: idxA.sel((x,)), ks, kf)
        raise Unsupported("range over " + sh.k)
    # the container must not be structurally modified by the body (iterator validity): checked via mods
    def body_fn(s, j, L):
        depth = len(s.frames)
        if sh.k == "vec":
            e = c.sub(("el",), sh.args[0], (j,))
            eng.vec_wf_at(s, c, j)
            el = e
        else:
            ordA, idxA, domv, n_ = eng.map_order(s, c)
            k = ordA.sel((j,))
            s.facts.append(domv.sel((k,))); s.facts.append(idxA.sel((k,)) == j)
            if sh.cls == "oset" and sh.args[0].k == "ptr":      # an ordered set of pointers is iterated by increasing address
                ad = eng.uf("addr", Ref, Int)
                s.gens.setdefault(idxA.decl.name(), []).append(lambda a, k=k, j=j: [z3.Implies(z3.And(domv.sel((a[-1],)), idxA.sel((a[-1],)) < j), ad(a[-1]) < ad(k))])
            el = eng.keyval(sh.args[0], k) if sh.cls in ("set", "oset") else PairL(eng.keyval(sh.args[0], k), eng.map_val(c, k))
        bind_var(eng, s, var, el)
        gk = ("guards", s.frames[-1].serial)
        return eng.ex(s, body)
    res = run_loop(eng, st, name, body_fn, space=space)
    L = eng.loops[-1] if eng.loops else None
    for key in (L.cells if L else ()):
        if key[0] == c.root and key[1][:len(c.path)] == c.path and key[1][len(c.path):] in (("len",), ("n",), ("dom",)):
            raise Unsupported("container modified while iterated")
    return res

def nodup_known(e, s, nd):
    nd = z3.simplify(nd)
    if z3.is_true(nd): return True
    if z3.is_false(nd): return False
    return e.pv.prove(s.facts + s.pc, s.gens, nd, timeout=3000)[0] == "proved"

def generic_loop(eng, st, name, cond, inc, body, cond_false_states=True):
    """while/for with guard: iteration j evaluates the guard at the head"""
    def body_fn(s, j, L):
        res = []
        if cond is None: gs = [(s, z3.BoolVal(True))]
        else: gs = [(s2, eng.asbool(s2, v)) for s2, v in eng.ev(s, cond)]
        for s2, c in gs:
            for s3, br in eng.split(s2, c):
                if not br:
                    res.append((s3, Sig("exit"))); continue
                for s4, sig in eng.ex(s3, body):
                    if sig.k in (NORMAL, CONT) and inc is not None:
                        for s5, _ in eng.ev(s4, inc): res.append((s5, N_))
                    else: res.append((s4, sig))
        return res
    return run_loop(eng, st, name, body_fn, space=None, exit_fn=True)

def count_space(eng, st, cond, var_lv, i0):
    pass

def for_stmt(eng, st, n):
    parts = n["inner"]
    init, cv, cond, inc, body = (parts + [{}] * 5)[:5]
    name = "%s:%s" % ("/".join(eng.where[-1:]), n.get("_line"))
    out = []
    cur = eng.ex(st, init) if init.get("kind") else [(st, N_)]
    for s, sig in cur:
        # iterator loops over a whole container are range loops
        r = iter_form(eng, s, cond, inc, body, name) if cond.get("kind") else None
        if r is not None: out += r; continue
        out += generic_loop(eng, s, name, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body)
    return out

def iter_form(eng, st, cond, inc, body, name):
    """for (auto it = c.begin(); it != c.end(); ++it), also from a position found before and in reverse; the guard and the increment are
    evaluated, not matched"""
    ids = [k for k, v in st.frames[-1].vars.items() if isinstance(v, Lv) and v.sh.k == "iter"]
    if not ids: return None
    used = [i for i in ids if refs(cond, i)]
    if len(used) != 1: return None
    vid = used[0]
    lv = st.frames[-1].vars[vid]
    it = st.meta.get(("iter", lv.root))
    if it is None: return None
    c = it.c
    if c.sh.k not in ("map", "mmap", "vec"): return None
    zero = z3.is_int_value(it.pos) and it.pos.as_long() == 0
    if c.sh.k == "vec" and (not zero or it.rev): return None
    if writes_iter(body, vid): raise Unsupported("iterator changed in the loop body")
    if not inc.get("kind"): return None
    # guard and increment at a position of its own
    saved, eng.record = eng.record, False
    try:
        q = eng.fresh(None, "itq", Int); t = st.copy()
        if c.sh.k == "vec": size = eng.vec_len(t, c)
        else: size = eng.map_order(t, c)[3]
        t.meta[("iter", lv.root)] = IterV(c, q, it.rev)
        g = eng.ev(t.copy(), cond)
        if len(g) != 1: return None
        gc = eng.asbool(g[0][0], g[0][1])
        r = eng.ev(t.copy(), inc)
        if len(r) != 1 or not z3.is_true(z3.simplify(r[0][0].meta[("iter", lv.root)].pos == q + 1)): return None
        if not eng.pv.prove(g[0][0].facts + [0 <= q, q <= size], g[0][0].gens, gc == (q < size), 4000)[0] == "proved": return None
    finally: eng.record = saved
    start = it.pos
    at = (lambda u: u) if zero else (lambda u: z3.simplify(start + u))
    if c.sh.k in ("map", "mmap"):
        def space(e, s):
            ordA, idxA, domv, n_ = e.map_order(s, c)
            if it.rev:
                el = lambda u: ordA.sel((z3.simplify(n_ - 1 - at(u)),)); inv = lambda x: n_ - 1 - idxA.sel((x,)) - start if not zero else n_ - 1 - idxA.sel((x,))
            else:
                el = lambda u: ordA.sel((at(u),)); inv = (lambda x: idxA.sel((x,))) if zero else (lambda x: idxA.sel((x,)) - start)
            N = n_ if zero else z3.simplify(n_ - start)
            E = (lambda x: domv.sel((x,))) if zero else (lambda x: z3.And(domv.sel((x,)), inv(x) >= 0))
            def kf(x):
                p = idxA.sel((x,))
                return [z3.Implies(domv.sel((x,)), z3.And(0 <= p, p < n_, ordA.sel((p,)) == x))]
            ks = leaf_sort(c.sh.args[0 if c.sh.k == "map" else 1])
            return Space(N, el, E, inv, ks, kf)
    else:
        def space(e, s): return Space(e.vec_len(s, c), None)
    def body_fn(s, j, L):
        s.meta[("iter", lv.root)] = IterV(c, at(j), it.rev)
        if c.sh.k in ("map", "mmap"):
            ordA, idxA, domv, n_ = eng.map_order(s, c)
            p = z3.simplify(n_ - 1 - at(j)) if it.rev else at(j)
            k = ordA.sel((p,))
            s.facts.append(domv.sel((k,))); s.facts.append(idxA.sel((k,)) == p)
        res = eng.ex(s, body)
        for s2, sig in res:
            if sig.k in (NORMAL, CONT): s2.meta[("iter", lv.root)] = it
        return res
    n0 = len(eng.loops)
    res = run_loop(eng, st, name, body_fn, space=space)
    for L in eng.loops[n0:]:
        for key in (L.cells if L.name == name else ()):
            if key[0] == c.root and key[1][:len(c.path)] == c.path and key[1][len(c.path):] in (("len",), ("n",), ("dom",)):
                raise Unsupported("container modified while iterated")
    return res

def refs(n, vid):
    if n.get("kind") == "DeclRefExpr" and n["referencedDecl"]["id"] == vid: return True
    return any(refs(c, vid) for c in n.get("inner", ()) if c)
def writes_iter(n, vid):
    if n.get("kind") == "CXXOperatorCallExpr":
        nm = deref_casts(n["inner"][0]).get("referencedDecl", {}).get("name", "")
        if nm in ("operator++", "operator--", "operator=", "operator+=") and len(n["inner"]) > 1 and refs(n["inner"][1], vid): return True
    return any(writes_iter(c, vid) for c in n.get("inner", ()) if c)

def while_stmt(eng, st, n):
    parts = [p for p in n["inner"] if p.get("kind")]
    cond, body = parts[0], parts[-1]
    name = "%s:%s" % ("/".join(eng.where[-1:]), n.get("_line"))
    return generic_loop(eng, st, name, cond, None, body)

def do_stmt(eng, st, n):
    body, cond = n["inner"][0], n["inner"][1]
    name = "%s:%s" % ("/".join(eng.where[-1:]), n.get("_line"))
    def body_fn(s, j, L):
        res = []
        for s2, sig in eng.ex(s, body):
            if sig.k not in (NORMAL, CONT): res.append((s2, sig)); continue
            for s3, v in eng.ev(s2, cond):
                for s4, br in eng.split(s3, eng.asbool(s3, v)): res.append((s4, N_ if br else Sig(BREAK)))
        return res
    return run_loop(eng, st, name, body_fn, space=None, exit_fn=True)
