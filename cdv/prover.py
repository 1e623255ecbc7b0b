"""Trigger-driven instantiation + quantifier-free SMT (z3, cvc5 as second opinion)."""
import z3, time, os
from .types import Int, Real, Bool, Ref, Unsupported
from .values import INF, LOWEST, Null, ite

exp_ = z3.Function("exp", Real, Real)
log_ = z3.Function("log", Real, Real)
abs_ = z3.Function("abs", Real, Real)
sqrt_ = z3.Function("sqrt", Real, Real)
pow_ = z3.Function("pow", Real, Real, Real)

STATS = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0)

def apps(terms, seen, out):
    """collect applications of uninterpreted functions"""
    st = list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen: continue
        seen[i] = t
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(t)
            st.extend(t.children())

def has(t, consts):
    """does t contain one of the constants"""
    ids = {c.get_id() for c in consts}
    seen = set(); st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        st.extend(x.children())
    return False

def mentions(t, declnames):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().name() in declnames: return True
        st.extend(x.children())
    return False

# ---------------------------------------------------------------- products as uninterpreted functions
_mulf = {}
def mulf(n):
    if n not in _mulf: _mulf[n] = z3.Function("mul%d" % n, *([Real] * (n + 1)))
    return _mulf[n]
_inv = z3.Function("inv", Real, Real)
def rebuild(t, cc):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(*cc)
    if k == z3.Z3_OP_OR: return z3.Or(*cc)
    if k == z3.Z3_OP_ADD: return z3.Sum(*cc)
    if k == z3.Z3_OP_MUL: return z3.Product(*cc)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*cc)
    return t.decl()(*cc)
_divf = z3.Function("div_atom", Real, Real, Real)
def nlabs(facts, logdiv=False):
    """over-approximation without non-linear arithmetic (products and quotients become uninterpreted, commutative); None if linear"""
    import itertools
    memo = {}; made = {}; keep = []
    nl = [False]; extra = []; logdivs = [False]
    def mono(fs):
        """abstracted monomial"""
        fs = sorted(fs, key=lambda y: y.get_id())
        if len(fs) == 1: return fs[0]
        b = mulf(len(fs))(*fs); made.setdefault(b.get_id(), (b, fs)); nl[0] = True
        return b
    def poly(t, lim=24):
        """monomials of an abstracted term, multiplied out over its sums; None when too many"""
        if z3.is_rational_value(t): return [(t.as_fraction(), [])]
        if z3.is_mul(t): fs = t.children()
        elif t.get_id() in made: fs = made[t.get_id()][1]
        elif z3.is_add(t) or z3.is_sub(t):
            out = []
            for i, y in enumerate(t.children()):
                p = poly(y, lim)
                if p is None: return None
                out += [(-c, g) for c, g in p] if z3.is_sub(t) and i else p
            return out if len(out) <= lim else None
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            p = poly(t.arg(0), lim)
            return None if p is None else [(-c, g) for c, g in p]
        else: return [(1, [t])]
        out = [(1, [])]
        for f in fs:
            p = poly(f, lim)
            if p is None: return None
            out = [(c * d, g + h) for c, g in out for d, h in p]
            if len(out) > lim: return None
        return out
    def expand(b, fs):
        """b == the product fs multiplied out over its sums"""
        terms = poly(b)
        if terms is None or len(terms) == 1 and len(terms[0][1]) <= len(fs): return
        acc = {}
        for c, g in terms:
            g = sorted(g, key=lambda y: y.get_id()); k = tuple(y.get_id() for y in g)
            acc[k] = (acc[k][0] + c, g) if k in acc else (c, g)
        tot = [z3.RealVal(str(c)) if not g else mono(g) if c == 1 else z3.RealVal(str(c)) * mono(g) for c, g in acc.values() if c != 0]
        extra.append(b == (z3.Sum(*tot) if len(tot) > 1 else tot[0] if tot else z3.RealVal(0)))
    def factors(t):
        """(coefficient, [abstracted factors])"""
        if z3.is_rational_value(t): return t.as_fraction(), []
        if z3.is_mul(t):
            c, fs = 1, []
            for x in t.children():
                d, g = factors(x); c *= d; fs += g
            return c, fs
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            c, fs = factors(t.arg(0)); return -c, fs
        if z3.is_div(t):
            if logdiv and z3.is_app(t.arg(1)) and t.arg(1).decl().name() == "log":      # keep x / log(y) as one atom
                c, fs = factors(t.arg(0))
                if len(fs) == 1 and not z3.is_add(fs[0]): logdivs[0] = True; return c, [_divf(fs[0], go(t.arg(1)))]
            c, fs = factors(t.arg(0)); d, g = factors(t.arg(1))
            if d != 0:
                return c / d, fs + [_inv(x) for x in g]
        return 1, [go(t)]
    def lift(t):
        """distribute a product over a conditional factor whose branches are products or constants"""
        def flat(x): return [y for z in x.children() for y in flat(z)] if z3.is_mul(x) else [x]
        if z3.is_div(t): num, den = flat(t.arg(0)), t.arg(1)
        else: num, den = flat(t), None
        for k, f in enumerate(num):
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
                a, b = f.arg(1), f.arg(2)
                if any(z3.is_mul(x) or z3.is_div(x) or z3.is_rational_value(x) or (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_UMINUS)) for x in (a, b)):
                    def mk(y):
                        q = num[:k] + [y] + num[k + 1:]
                        q = q[0] if len(q) == 1 else z3.Product(*q)
                        return q / den if den is not None else q
                    r = z3.If(f.arg(0), mk(a), mk(b)); keep.append(r)
                    return r
        return None
    def go(t):
        i = t.get_id()
        r = memo.get(i)
        if r is not None: return r[0]
        if z3.is_quantifier(t) or not t.num_args(): res = t
        elif t.sort() == Real and (z3.is_mul(t) or z3.is_div(t)) and lift(t) is not None:
            res = go(lift(t))
        elif t.sort() == Real and (z3.is_mul(t) or z3.is_div(t)):
            c, fs = factors(t)
            if not fs: res = z3.RealVal(str(c))
            else:
                if len(fs) == 1: b = fs[0]
                else:
                    nl[0] = True
                    b = mulf(len(fs))(*fs)
                    if b.get_id() not in made: made[b.get_id()] = (b, fs); expand(b, fs)
                res = b if c == 1 else z3.RealVal(str(c)) * b
        else:
            ch = t.children(); cc = [go(x) for x in ch]
            if all(a.eq(b) for a, b in zip(ch, cc)): res = t
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED: res = t.decl()(*cc)
            else: res = rebuild(t, cc)
        memo[i] = (res, t)
        return res
    if logdiv: facts = [z3.simplify(f) for f in facts]
    out = [go(f) for f in facts]
    if not nl[0] or logdiv and not logdivs[0]: return None
    out += extra
    invs = {}
    for b, fs in list(made.values()):
        for f in fs:
            if z3.is_app(f) and f.num_args() == 1 and f.decl().eq(_inv): invs[f.get_id()] = f
        if len(fs) == 2:
            x, y = fs
            out.append(z3.Implies(z3.Or(z3.And(x >= 0, y >= 0), z3.And(x <= 0, y <= 0)), b >= 0))
            out.append(z3.Implies(z3.Or(z3.And(x >= 0, y <= 0), z3.And(x <= 0, y >= 0)), b <= 0))
            out.append(z3.Implies(z3.And(x != 0, y != 0), b != 0))
    for f in invs.values():
        x = f.arg(0)
        out.append(z3.Implies(x > 0, f > 0)); out.append(z3.Implies(x < 0, f < 0))
    for b, fs in list(made.values()):
        if len(fs) == 2:
            for x, y in (fs, fs[::-1]):
                if x.get_id() in invs: out.append(z3.Implies(z3.And(x.arg(0) == y, y != 0), b == 1))
    n5 = sum(1 for b, fs in made.values() if len(fs) == 5)
    for b, fs in sorted(made.values(), key=lambda x: len(x[1])):
        n = len(fs)
        if (n <= 4 or n == 5 and n5 <= 24) and len(out) < 9000:
            for q in itertools.permutations(fs):
                x = mulf(n)(*q)
                if not x.eq(b): out.append(b == x)
        z = [f == 0 for f in fs]
        out.append(z3.Implies(z3.Or(*z), b == 0))
        for k, f in enumerate(fs):
            rest = fs[:k] + fs[k + 1:]
            out.append(z3.Implies(f == 1, b == (rest[0] if len(rest) == 1 else mulf(n - 1)(*rest))))
            out.append(z3.Implies(f == -1, b == -(rest[0] if len(rest) == 1 else mulf(n - 1)(*rest))))
    return out

# ---------------------------------------------------------------- sums
def sumlike(t, sums):
    """a sum, or the loop cell holding one (an application indexed by a loop bound)"""
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() >= 1 and (t.decl().name() in sums or t.decl().name().startswith("c")) or \
        z3.is_mul(t) or z3.is_div(t)
def mentions_any(t):
    return elementwise(t)
def elementwise(t):
    """mentions a container element"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n.endswith("__val") or n.endswith("__el") or n.endswith("_el") or n.endswith("_val"): return True
            st.extend(x.children())
    return False

class Sum:
    """SUM(js..., t) = sum_{i<t} g(i)   or (set)  SSUM(js...) = sum_{k in E} h(k)"""
    def __init__(self, reg, decl, js, b, g, E=None, N=None, name=""):
        self.reg, self.decl, self.js, self.b, self.g, self.E, self.N, self.name = reg, decl, js, b, g, E, N, name
        self.weak = False     # 0/1 counter: only 0 <= S(t) <= t
        self.setv = None      # companion set-sum of an index sum at t == N
        self.split_cache = None
        reg[decl.name()] = self
    def inst(self, term, args, b):
        """g or E with outer indices and bound variable replaced"""
        sub = [(j, a) for j, a in zip(self.js, args) if not j.eq(a)]
        if b is not None and not self.b.eq(b): sub.append((self.b, b))
        return z3.substitute(term, *sub) if sub else term

def factor(t, b):
    """t == c * r with c free of b; returns (c list num, c list den, r list num, r list den)"""
    cn, cd, rn, rd = [], [], [], []
    def go(x, num):
        if not has(x, [b]):
            (cn if num else cd).append(x); return
        if z3.is_mul(x):
            for y in x.children(): go(y, num)
        elif z3.is_div(x):
            go(x.arg(0), num); go(x.arg(1), not num)
        elif z3.is_app(x) and x.decl().name() == "exp" and (z3.is_add(x.arg(0)) or z3.is_sub(x.arg(0))):
            for i, y in enumerate(x.arg(0).children()):
                neg = z3.is_sub(x.arg(0)) and i > 0
                if not has(y, [b]):
                    # exp(y) as a constant factor; exp(-y) handled by the exp axioms
                    yy = z3.simplify(-y) if neg else y
                    (cn if num else cd).append(exp_(yy))
                else:
                    rn.append(exp_(z3.simplify(-y) if neg else y)) if num else rd.append(exp_(z3.simplify(-y) if neg else y))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
            cn.append(z3.RealVal(-1)) if num else cd.append(z3.RealVal(-1)); go(x.arg(0), num)
        else:
            (rn if num else rd).append(x)
    go(t, True)
    return cn, cd, rn, rd

def prod(xs, one=None):
    r = None
    for x in sorted(xs, key=lambda y: y.get_id()):
        r = x if r is None else r * x
    return r if r is not None else z3.RealVal(1)

class Prover:
    def __init__(self):
        self.sums = {}         # decl name -> Sum
        self.gens = {}         # global generators (decl name -> [fn])
        self.n = 0
        self.inverse = {}; self.canon_memo = {}
        self.timeout = 20000
    def fresh_name(self, p):
        self.n += 1
        return "%s!%d" % (p, self.n)
    # ---- sums
    def idx_sum(self, js, b, g, E=None, h=None, xb=None, N=None, name="S"):
        """index sum with bound var b (Int) and summand g; with E,h over key xb: set view at t==N"""
        d = z3.Function(self.fresh_name("SUM_" + name), *([j.sort() for j in js] + [Int, Real]))
        s = Sum(self.sums, d, js, b, g, N=N, name=name)
        if E is not None:
            s.setv = self.set_sum(js, xb, h, E, N=N, name=name)
        return s
    def set_sum(self, js, xb, h, E, N=None, name="S"):
        d = z3.Function(self.fresh_name("SSUM_" + name), *([j.sort() for j in js] + [Real])) if js else z3.Function(self.fresh_name("SSUM_" + name), Int, Real)
        s = Sum(self.sums, d, js, xb, h, E=E, N=N, name=name)
        return s
    def set_term(self, s):
        return s.decl(*s.js) if s.js else s.decl(z3.IntVal(0))
    def split(self, s):
        """linear split of the summand: list of (coef term free of b, Sum) + nothing left"""
        if s.split_cache is not None: return s.split_cache
        g = s.g
        terms = []
        def addends(x, sg):
            if z3.is_add(x):
                for y in x.children(): addends(y, sg)
            elif z3.is_sub(x):
                addends(x.arg(0), sg)
                for y in x.children()[1:]: addends(y, -sg)
            elif z3.is_mul(x):
                # distribute over one sum factor that mentions b
                ch = x.children()
                k = [i for i, y in enumerate(ch) if (z3.is_add(y) or z3.is_sub(y)) and has(y, [s.b])]
                if k:
                    y = ch[k[0]]; rest = [c for i, c in enumerate(ch) if i != k[0]]
                    for i, z in enumerate(y.children()):
                        addends(z3.Product(*(rest + [z])) if rest else z, -sg if (z3.is_sub(y) and i) else sg)
                else: terms.append((sg, x))
            elif z3.is_div(x) and (z3.is_add(x.arg(0)) or z3.is_sub(x.arg(0))) and not has(x.arg(1), [s.b]):
                y = x.arg(0)
                for i, z in enumerate(y.children()):
                    addends(z / x.arg(1), -sg if (z3.is_sub(y) and i) else sg)
            else: terms.append((sg, x))
        addends(g, 1)
        out = []
        trivial = True
        for sg, x in terms:
            cn, cd, rn, rd = factor(x, s.b)
            if cn or cd or len(terms) > 1 or not rn: trivial = False
            r = prod(rn)
            if rd: r = r / prod(rd)
            c = prod(cn)
            if cd: c = c / prod(cd)
            if sg < 0: c = -c
            out.append((c, r))
        if trivial:
            s.split_cache = []
            return []
        res = []
        for c, r in out:
            key = (s.decl.name(), "split", r.get_id())
            sub = self.gens.setdefault("_splits", {}).get(key)
            if sub is None:
                if s.E is not None: sub = self.set_sum(s.js, s.b, r, s.E, N=s.N, name="s")
                else:
                    sub = self.idx_sum(s.js, s.b, r, N=s.N, name="s")
                sub.split_cache = []
                sub.keep = r
                self.gens["_splits"][key] = sub
            res.append((c, sub))
        s.split_cache = res
        return res
    # ---- instantiate
    def canon(self, t):
        """normal form modulo registered inverse pairs (f(.., g(.., x)) -> x): used only to avoid duplicate instances"""
        memo = self.canon_memo
        st = [t]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in memo: st.pop(); continue
            if not z3.is_app(x) or not x.num_args(): memo[i] = (x, x); st.pop(); continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            cc = [memo[c.get_id()][0] for c in ch]
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                inv = self.inverse.get(x.decl().name())
                l = cc[-1]
                if inv is not None and z3.is_app(l) and l.decl().name() in inv and l.num_args() == len(cc) and all(a.eq(b) for a, b in zip(l.children()[:-1], cc[:-1])):
                    memo[i] = (l.arg(l.num_args() - 1), x); continue
                if all(a.eq(b) for a, b in zip(ch, cc)): memo[i] = (x, x)
                else: memo[i] = (x.decl()(*cc), x)
            else:
                memo[i] = (x, x) if all(a.eq(b) for a, b in zip(ch, cc)) else (x.decl()(*cc), x)
        return memo[t.get_id()][0]
    def add_inverse(self, f, g):
        self.inverse.setdefault(f, set()).add(g); self.inverse.setdefault(g, set()).add(f)
    def saturate(self, facts, gens, rounds=40, limit=6000, goal_extra=(), mix=False):
        facts = list(facts)
        have = {f.get_id() for f in facts}
        seen, queue = {}, []
        apps(facts, seen, queue)
        done = set()
        sumapps = []
        lemma_done = set()
        ninst = 0
        self.capped = False
        def add(fs):
            nonlocal ninst
            new = []
            for f in fs:
                if z3.is_true(f): continue
                if f.get_id() not in have:
                    have.add(f.get_id()); facts.append(f); new.append(f); ninst += 1
            apps(new, seen, queue)
        for r in range(rounds):
            work, queue[:] = list(queue), []
            if mix and work and r % 6 == 5: add(self.sum_phase(sumapps, lemma_done))
            if not work:
                # sum phase
                new = self.sum_phase(sumapps, lemma_done)
                new += self.trans_phase(seen, lemma_done)
                if not new: break
                add(new)
                if not queue: break
                continue
            for t in work:
                if t.get_id() in done: continue
                done.add(t.get_id())
                nm = t.decl().name()
                if self.inverse:
                    ct = self.canon(t)
                    if not ct.eq(t):
                        if not (z3.is_app(ct) and ct.num_args() and ct.decl().eq(t.decl())): 
                            # the outermost pair cancels: keep the defining equation only
                            pass
                        elif ct.get_id() in done: continue
                        else: t = ct; done.add(t.get_id())
                if nm in self.sums:
                    sumapps.append(t)
                for src in (gens, self.gens):
                    for fn in src.get(nm, ()):
                        add(fn(t.children()))
                if nm in ("exp", "log", "sqrt", "pow", "abs"):
                    add(self.trans(nm, t))
            if ninst > limit: self.capped = True; break
        else: self.capped = True
        return facts
    def trans(self, nm, t):
        x = t.arg(0)
        R = z3.RealVal
        out = []
        if nm == "exp":
            out.append(t > 0)
            if z3.is_rational_value(x) and x.as_fraction() == 0: out.append(t == 1)
            out.append(z3.Implies(x == 0, t == 1)); out.append(z3.Implies(x > 0, t > 1)); out.append(z3.Implies(x < 0, t < 1))
            if z3.is_add(x):
                out.append(t == z3.Product(*[exp_(y) for y in x.children()]))
            elif z3.is_sub(x):
                r = exp_(x.arg(0))
                den = [exp_(y) for y in x.children()[1:]]
                out.append(t * z3.Product(*den) == r)
            elif z3.is_mul(x) and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() == -1:
                rest = x.children()[1:]
                y = rest[0] if len(rest) == 1 else z3.Product(*rest)
                out.append(t * exp_(y) == 1)
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                out.append(t * exp_(x.arg(0)) == 1)
            if z3.is_app(x) and x.decl().name() == "log": out.append(z3.Implies(x.arg(0) > 0, t == x.arg(0)))
        elif nm == "log":
            out.append(z3.Implies(x > 1, t > 0)); out.append(z3.Implies(x == 1, t == 0))
            out.append(z3.Implies(z3.And(x > 0, x < 1), t < 0))
            if z3.is_app(x) and x.decl().name() == "exp": out.append(t == x.arg(0))
        elif nm == "abs":
            out.append(t == z3.If(x >= 0, x, -x))
        elif nm == "sqrt":
            out.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
            out.append(z3.Implies(x > 0, t > 0)); out.append(z3.Implies(x >= 1, t >= 1))
        elif nm == "pow":
            y = t.arg(1)
            if z3.is_rational_value(y):
                f = y.as_fraction()
                if f == 2: out.append(t == x * x)
                elif f == 1: out.append(t == x)
                elif f == 0: out.append(t == 1)
                elif f == 0.5: out.append(t == sqrt_(x))
            else:
                out.append(z3.Implies(x == 1, t == 1)); out.append(z3.Implies(x > 0, t > 0)); out.append(z3.Implies(y == 0, t == 1)); out.append(z3.Implies(y == z3.RealVal('1/2'), t == sqrt_(x)))
        return out
    def trans_phase(self, seen, done):
        logs, exps = [], []
        for t in seen.values():
            if z3.is_app(t) and t.num_args() == 1:
                if t.decl().name() == "log": logs.append(t)
                elif t.decl().name() == "exp" and not z3.is_add(t.arg(0)) and not z3.is_sub(t.arg(0)): exps.append(t)
        out = []
        if len(logs) > 16:      # keep the logarithms of sums and loop results; element-wise ones are related by congruence
            logs = [t for t in logs if sumlike(t.arg(0), self.sums) or not mentions_any(t.arg(0))]
        exps = [t for t in exps if not elementwise(t.arg(0))] if len(exps) > 12 else exps
        logs.sort(key=lambda t: t.get_id()); exps.sort(key=lambda t: t.get_id())
        for i, a in enumerate(logs):
            for b in logs[i + 1:]:
                k = ("ll", a.get_id(), b.get_id())
                A, B = a.arg(0), b.arg(0)
                if k not in done:
                    done.add(k)
                    out.append(z3.Implies(z3.And(A > 0, A < B), a < b)); out.append(z3.Implies(z3.And(B > 0, B < A), b < a))
                    out.append(z3.Implies(A == B, a == b))
                if not (sumlike(A, self.sums) or sumlike(B, self.sums)): continue
                for e in exps[:12]:
                    ke = ("lle", a.get_id(), b.get_id(), e.get_id())
                    if ke in done: continue
                    done.add(ke)
                    out.append(z3.Implies(z3.And(A > 0, A * e == B), b == a + e.arg(0)))
                    out.append(z3.Implies(z3.And(B > 0, B * e == A), a == b + e.arg(0)))
        if len(exps) <= 10:
            for i, a in enumerate(exps):
                for b in exps[i + 1:]:
                    k = ("ee", a.get_id(), b.get_id())
                    if k in done: continue
                    done.add(k)
                    out.append(z3.Implies(a.arg(0) <= b.arg(0), a <= b)); out.append(z3.Implies(b.arg(0) <= a.arg(0), b <= a))
        return out
    def sum_phase(self, sumapps, done):
        out = []
        def sk(key, sort):
            return z3.Const("sk_%s" % ("_".join(str(k) for k in key)), sort)
        for t in list(sumapps):
            s = self.sums[t.decl().name()]
            args = t.children()
            k = ("one", t.get_id())
            if k not in done:
                done.add(k)
                parts = self.split(s)
                if s.E is None:
                    js, up = args[:-1], args[-1]
                    out.append(z3.Implies(up <= 0, t == 0))
                    if s.setv is not None and s.N is not None:
                        N = s.inst(s.N, js, None)
                        st = s.setv.decl(*js) if js else s.setv.decl(z3.IntVal(0))
                        out.append(z3.Implies(up == N, t == st))
                    if parts:
                        out.append(t == z3.Sum(*[s.inst(c, js, None) * p.decl(*(list(js) + [up])) for c, p in parts]))
                    # unfold one step when the bound is syntactically u+1
                    if z3.is_add(up) and up.num_args() == 2 and z3.is_int_value(up.arg(0)) or (z3.is_add(up) and up.num_args() == 2 and z3.is_int_value(up.arg(1))):
                        u = z3.simplify(up - 1)
                        out.append(z3.Implies(up >= 1, t == s.decl(*(list(js) + [u])) + s.inst(s.g, js, u)))
                    # constant summand 1
                    if not has(s.g, [s.b]):
                        out.append(z3.Implies(up >= 0, t == s.inst(s.g, js, None) * z3.ToReal(up)))
                    if s.weak:
                        out.append(z3.Implies(up >= 0, z3.And(0 <= t, t <= z3.ToReal(up))))
                        out.append(z3.Implies(up >= 1, t >= s.inst(s.g, js, z3.IntVal(0))))
                        continue
                    i = sk(("p", t.get_id()), Int)
                    gi = s.inst(s.g, js, i)
                    out.append(z3.Or(t >= 0, z3.And(0 <= i, i < up, gi < 0)))
                    i2 = sk(("q", t.get_id()), Int)
                    gi2 = s.inst(s.g, js, i2)
                    g0 = s.inst(s.g, js, z3.IntVal(0))
                    out.append(z3.Or(t > 0, up <= 0, z3.And(0 <= i2, i2 < up, gi2 <= 0)))
                    i3 = sk(("r", t.get_id()), Int)
                    out.append(z3.Or(t <= 0, z3.And(0 <= i3, i3 < up, s.inst(s.g, js, i3) > 0)))
                else:
                    js = args if s.js else []
                    if parts:
                        out.append(t == z3.Sum(*[s.inst(c, js, None) * (p.decl(*js) if js else p.decl(z3.IntVal(0))) for c, p in parts]))
                    if not has(s.g, [s.b]) and s.N is not None:
                        out.append(t == s.inst(s.g, js, None) * z3.ToReal(s.inst(s.N, js, None)))
                    x = sk(("sp", t.get_id()), s.b.sort())
                    E, h = s.inst(s.E, js, x), s.inst(s.g, js, x)
                    out.append(z3.Or(t >= 0, z3.And(E, h < 0)))
                    x = sk(("sq", t.get_id()), s.b.sort())
                    E, h = s.inst(s.E, js, x), s.inst(s.g, js, x)
                    if s.N is not None:
                        out.append(z3.Or(t > 0, s.inst(s.N, js, None) <= 0, z3.And(E, h <= 0)))
                        y = sk(("sz", t.get_id()), s.b.sort())
                        E2, h2 = s.inst(s.E, js, y), s.inst(s.g, js, y)
                        # a sum of non-negative terms that vanishes has only vanishing terms is not needed; empty domain:
                        out.append(z3.Implies(s.inst(s.N, js, None) <= 0, t == 0))
                        out.append(z3.Or(t == 0, z3.And(E2, h2 != 0)))
        for a in range(len(sumapps)):
            for b in range(a + 1, len(sumapps)):
                t1, t2 = sumapps[a], sumapps[b]
                s1, s2 = self.sums[t1.decl().name()], self.sums[t2.decl().name()]
                if s1 is s2 and s1.E is None: continue     # same summand: equal bounds are congruent
                if s1.weak or s2.weak: continue
                k = ("pair", t1.get_id(), t2.get_id())
                if k in done or (s1.E is None) != (s2.E is None): continue
                done.add(k)
                a1, a2 = t1.children(), t2.children()
                if s1.E is None:
                    i = sk(("pi", t1.get_id(), t2.get_id()), Int)
                    out.append(z3.Or(t1 == t2, a1[-1] != a2[-1],
                                     z3.And(0 <= i, i < a1[-1], s1.inst(s1.g, a1[:-1], i) != s2.inst(s2.g, a2[:-1], i))))
                elif s1.b.sort() == s2.b.sort():
                    x = sk(("px", t1.get_id(), t2.get_id()), s1.b.sort())
                    j1 = a1 if s1.js else []; j2 = a2 if s2.js else []
                    E1, E2 = s1.inst(s1.E, j1, x), s2.inst(s2.E, j2, x)
                    out.append(z3.Or(t1 == t2, E1 != E2,
                                     z3.And(E1, s1.inst(s1.g, j1, x) != s2.inst(s2.g, j2, x))))
        return out
    # ---- solve
    def check(self, facts, timeout=None):
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for f in facts: s.add(f)
        t = time.time()
        r = s.check()
        STATS["queries"] += 1; STATS["time"] += time.time() - t
        r = str(r)
        STATS[r] += 1
        return r, (s.model() if r == "sat" else None)
    base_facts = [LOWEST < -z3.RealVal("1" + "0" * 300), INF > z3.RealVal("1" + "0" * 300), LOWEST > -INF]
    def prove(self, facts, gens, goal, timeout=None):
        """returns (verdict, model, instances) with verdict in proved/failed/unknown"""
        if z3.is_true(goal): return "proved", None, 0
        fs = list(facts) + [z3.Not(goal)]
        # cheap attempt without instances
        if not gens and not self.sums and not self.gens:
            pass
        r, m = self.check(fs + [f for f in self.base_facts], min(2000, timeout or 2000))
        if r == "unsat": return "proved", None, 0
        sat = self.saturate(fs, gens)
        ab = nlabs(sat)
        if ab is not None:
            r, m = self.check(ab + self.base_facts, min(6000, timeout or 6000))
            if r == "unsat": return "proved", None, len(sat)
            ab = nlabs(sat, logdiv=True)
            if ab is not None:
                r, m = self.check(ab + self.base_facts, min(6000, timeout or 6000))
                if r == "unsat": return "proved", None, len(sat)
        r, m = self.check(sat + self.base_facts, timeout)
        if r == "unsat": return "proved", None, len(sat)
        if self.capped:         # instantiation was cut off: once more with the sum lemmas interleaved
            sat = self.saturate(fs, gens, mix=True)
            ab = nlabs(sat)
            if ab is not None and self.check(ab + self.base_facts, min(6000, timeout or 6000))[0] == "unsat": return "proved", None, len(sat)
            r, m = self.check(sat + self.base_facts, timeout)
            if r == "unsat": return "proved", None, len(sat)
        if r == "unknown":
            r2 = self.second(sat + self.base_facts, timeout)
            if r2 == "unsat": return "proved", None, len(sat)
        return ("failed" if r == "sat" else "unknown"), m, len(sat)
    def second(self, facts, timeout):
        """split conjunctive tactics for non-linear queries"""
        t0 = time.time()
        try:
            for tac in (z3.Then("simplify", "solve-eqs", "smt"), z3.Then("simplify", "purify-arith", "solve-eqs", "smt")):
                s = tac.solver(); s.set("timeout", min(timeout or self.timeout, 15000))
                for f in facts: s.add(f)
                r = str(s.check())
                if r == "unsat": return r
        except z3.Z3Exception:
            pass
        finally:
            STATS["time"] += time.time() - t0
        return "unknown"
