"""Contract driver: set up a pre-state, execute the real function body, collect and discharge obligations."""
import re, time, traceback, z3
from . import astload, engine, prover
from .types import *
from .values import *
from .engine import Engine, Obl, Sig, NORMAL, RET, THROW

class Outcome:
    """one way out of a function: state, value, 'ret'/'throw'"""
    def __init__(self, st, kind, v): self.st, self.kind, self.v = st, kind, v

class Result:
    """discharged / failed obligations of one contract"""
    def __init__(self, name, props):
        self.name, self.props = name, props
        self.obls = []          # (name, status, secs, detail)
        self.functions = set()
        self.inexact = []
        self.error = None       # Unsupported / crash: undecided
        self.vacuous = False
        self.secs = 0.0
        self.insts = 0

class C:
    """contract context"""
    def __init__(self, eng, name, props):
        self.e, self.name, self.props = eng, name, props
        self.notes = []
        self.goals = []          # (name, st, goal, props)
    def state(self):
        return State()
    def ref(self, st, name, cls=None):
        r = z3.Const(name, Ref)
        self.e.assume(st, r != Null); self.e.assume(st, self.e.uf("born", Ref, Int)(r) <= 0)
        return r
    def fn(self, q, nparams=None, pick=None):
        fs = self.e.prog.byq.get(q, [])
        fs = [f for f in fs if f.body is not None or f.inits]
        if nparams is not None: fs = [f for f in fs if len(f.params) == nparams]
        if pick is not None: fs = [f for f in fs if pick(f)]
        if not fs: raise Unsupported("function %s not found" % q)
        return fs[0]
    def run(self, st, f, this=None, args=(), cls=None):
        """this: Ref term; returns outcomes"""
        e = self.e
        if isinstance(f, str): f = self.fn(f, len(args))
        saved, e.throwq = e.throwq, []
        e._bypass = f.qname
        try:
            if not st.frames: st.frames.append(Frame(None, None, None, 0, f.tu))
            t = P(this, cls or f.cls) if this is not None else None
            try:
                r = [Outcome(s, "ret", v) for s, v in e.call(st, f, t, list(args), None)]
            except engine._Throw as x:
                r = [Outcome(x.st, "throw", None)]
            r += [Outcome(s, "throw", None) for s, sig in e.throwq]
        finally:
            e.throwq = saved
        return r
    def ctor(self, st, cls, args):
        e = self.e
        saved, e.throwq = e.throwq, []
        try:
            if not st.frames: st.frames.append(Frame(None, None, None, 0, self.fn(cls + "::" + cls.split("::")[-1].split("<")[0], len(args)).tu))
            r = [Outcome(s, "ret", p) for s, p in e.alloc(st, cls, list(args))]
            r += [Outcome(s, "throw", None) for s, sig in e.throwq]
        finally:
            e.throwq = saved
        return r
    def lemma(self, st, goal, name, timeout=15000, hints=()):
        """intermediate assertion: proved on the spot and then available as a hint, or dropped; returns the list of facts gained"""
        t = time.time()
        v, m, k = self.e.pv.prove(facts_of(st), st.gens, goal, timeout) if not hints else self.e.pv.prove(list(hints), {}, goal, timeout)
        if v != "proved": return []
        self.lemmas.append((name + " @ " + self.name, "proved", time.time() - t, None, "lemma", tuple(self.props)))
        st.facts.append(goal)
        return [goal]
    def goal(self, st, goal, name, props=None, kind="post", hints=()):
        """obligation at an exit; hints: facts (already in the state) tried first on their own"""
        e = self.e
        if z3.is_true(goal): 
            self.trivial.append((name, tuple(props or self.props))); return
        e.obls.append(Obl(name, st.copy(), goal, [self.name], kind, tuple(props or self.props), tuple(hints)))

def norm(msg):
    """an over-approximation note without line numbers and variable serials"""
    return re.sub(r"\('var', \d+,", "('var',", re.sub(r":\d+:", ":", re.sub(r"!\d+", "!", msg)))

def facts_of(st):
    return list(st.facts) + list(st.pc)

def discharge(c, res, timeout=20000, verbose=False, only=None, notify=None):
    e = c.e
    for o in e.obls:
        if only and not (set(o.props) & set(only)): continue
        t = time.time()
        v = None
        if o.hints:
            r, _ = e.pv.check(list(o.hints) + [z3.Not(o.goal)], 5000)
            if r == "unsat": v, m, k = "proved", None, 0
        if v is None: v, m, k = e.pv.prove(facts_of(o.st), o.st.gens, o.goal, timeout)
        dt = time.time() - t
        res.insts += k
        where = ">".join(o.where[-3:])
        det = None
        if v != "proved":
            det = model_text(m)
        res.obls.append((o.name + " @ " + where, v, dt, det, o.kind, o.props))
        if v != "proved" and notify: notify(res)
        if verbose and v != "proved": print("   ", v, "%.2fs" % dt, o.name, where)

def model_text(m, lim=60):
    if m is None: return None
    out = []
    for d in m.decls():
        if d.arity() == 0 and len(out) < lim: out.append("%s = %s" % (d.name(), m[d]))
    return "\n".join(out)

def vacuity(c, sts):
    """every reported exit must be reachable from the contract's assumptions; at least one of them"""
    for st in sts:
        r, m = c.e.pv.check(c.e.pv.saturate(facts_of(st), st.gens) + c.e.pv.base_facts, 8000)
        if r != "unsat": return True
    return False

def run_contract(prog, name, props, fn, timeout=20000, verbose=False, only=None, notify=None):
    """fn(c) builds the contract (returns the list of exit states)"""
    res = Result(name, props)
    t0 = time.time()
    e = Engine(prog); e.reset()
    main = tuple(p for p in props if p not in ("C05", "C06")) or tuple(props)       # lock obligations carry their own tags
    e.props = main; e.only = only
    c = C(e, name, main); c.trivial = []; c.lemmas = []
    try:
        exits = fn(c)
        res.functions = set(e.called); res.inexact = list(e.inexact)
        discharge(c, res, timeout, verbose, only, notify)
        if exits is not None and not vacuity(c, exits): res.vacuous = True
        res.obls += [l for l in c.lemmas if not only or set(l[5]) & set(only)]
        for t, ps in c.trivial:
            if not only or set(ps) & set(only): res.obls.append((t + " @ " + name, "proved", 0.0, None, "post", ps))
    except Unsupported as u:
        res.error = "unsupported: %s (in %s)" % (u, ">".join(e.where[-4:]))
    except RecursionError:
        res.error = "recursion limit"
    except z3.Z3Exception as x:
        res.error = "z3: %s | %s" % (x, traceback.format_exc()[-600:])
    except Exception as x:
        res.error = "internal: %r | %s" % (x, traceback.format_exc()[-1500:])
    res.functions = set(e.called); res.inexact = list(e.inexact)
    res.secs = time.time() - t0
    return res
