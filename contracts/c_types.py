"""C18: equality and hashing by value.

Here object references are identities; equality is what the code's own functions compute."""
from contracts.lib import *

TYPES = {"IntState": ("state", "Observation"), "IntPairState": ("state", "Observation"), "Int3TupleState": ("state", "Observation"),
         "IntAction": ("action", "Action"), "StringAction": ("action", "Action")}

def comps(e, s, o, cls, f):
    v = e.read(s, e.field_lv(cls, f, o))
    flat = lambda x: [y for z in x for y in flat(z)] if isinstance(x, tuple) else [x]
    return flat(v)

def agree(e, s, a, b, cls, f): return z3.And(*[x == y for x, y in zip(comps(e, s, a, cls, f), comps(e, s, b, cls, f))])

def equals_contract(cls):
    f, base = TYPES[cls]
    def fn(c):
        e = c.e; st = c.state(); e.hooks["dyncast"] = e.hooks["value_eq"] = True
        a, b = c.ref(st, "a"), c.ref(st, "b")
        d = e.uf("dyncls", Ref, Int)
        e.assume(st, d(a) == e.clsid(cls))
        exits = []
        for o in c.run(st.copy(), cls + "::equals_itfc", a, [ObjL(b, base)], cls=cls):
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "comparing with an object of any type does not throw"); continue
            same = z3.And(d(b) == e.clsid(cls), agree(e, st, a, b, cls, f))
            c.goal(s, z3.Implies(o.v, d(b) == e.clsid(cls)), "objects of different types are not equal")
            c.goal(s, z3.Implies(o.v, same), "equal objects agree in every component")
            c.goal(s, z3.Implies(same, o.v), "objects that agree in type and every component are equal")
            exits.append(s)
        for o in c.run(st.copy(), cls + "::equals", a, [ObjL(b, cls)], cls=cls):
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "comparison does not throw"); continue
            c.goal(o.st, o.v == agree(e, st, a, b, cls, f), "typed comparison compares every component")
            exits.append(o.st)
        return exits
    return fn

def hash_contract(cls):
    f, base = TYPES[cls]
    def fn(c):
        e = c.e; st = c.state()
        a, b = c.ref(st, "a"), c.ref(st, "b")
        e.assume(st, agree(e, st, a, b, cls, f))
        exits = []
        for o in c.run(st, cls + "::hash", a, [], cls=cls):
            if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "hashing does not throw"); continue
            for o2 in c.run(o.st.copy(), cls + "::hash", b, [], cls=cls):
                if o2.kind == "throw": c.goal(o2.st, z3.BoolVal(False), "hashing does not throw"); continue
                c.goal(o2.st, o.v == o2.v, "equal objects have equal hashes"); exits.append(o2.st)
        return exits
    return fn

for _t in TYPES:
    register("C18", name=_t + "_equals")(equals_contract(_t))
    register("C18", name=_t + "_hash")(hash_contract(_t))

def functors(e):
    """[(kind 'hash'/'eq', element class, by pointer?, Func)] of the comparison and hash functors as compiled"""
    out = []
    for fs, names in ((e.prog.byq.get("operator()", []), None), ([f for _, f in e.prog.free_eq], "eq")):
        for f in fs:
            if f.body is None or f.tu.split("#")[0].split("/")[-1] != "thts_types.cpp": continue
            t = [p["type"].get("desugaredQualType") or p["type"]["qualType"] for p in f.params]
            sh = e.ty.shape(t[0])
            kind = names or ("hash" if len(f.params) == 1 else "eq")
            out.append((kind, sh, f))
    return out

def functor_contract(which, kcls):
    def fn(c):
        e = c.e; st = c.state(); e.hooks["value_eq"] = True
        vh, ve = e.uf("value_hash", Ref, Int), e.uf("value_equal", Ref, Ref, Bool)
        for k in ("Observation", "State", "Action"):
            e.summaries[k + "::hash"] = lambda e, s, this, a, n: [(s, vh(this.t))]
            e.summaries[k + "::equals_itfc"] = lambda e, s, this, a, n: [(s, ve(this.t, a[0].t if isinstance(a[0], ObjL) else e.t(e.rv(s, a[0]))))]
        want = [x for x in functors(e) if x[0] == which and (x[1].cls == kcls if kcls != "id" else x[1].k == "tup")]
        if not want: raise Unsupported("no %s functor for %s" % (which, kcls))
        exits = []
        for kind, sh, f in want:
            s0 = st.copy()
            a, b = c.ref(s0, "a"), c.ref(s0, "b"); ta, tb = z3.Ints("ta tb")
            if sh.k == "tup": mk = lambda t, r: (t, P(r, "Observation"))
            elif sh.k == "ptr": mk = lambda t, r: P(r, sh.cls)
            else: mk = lambda t, r: ObjL(r, sh.cls)
            def arg(t, r):
                v = mk(t, r)
                if isinstance(v, tuple):
                    lv = e.var_lv(s0, "key", sh); e.write(s0, lv, v); return lv
                return v
            if kind == "eq":
                for o in c.run(s0, f, None, [arg(ta, a), arg(tb, b)]):
                    if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "comparing keys does not throw"); continue
                    spec = ve(a, b) if sh.k != "tup" else z3.And(ta == tb, ve(a, b))
                    c.goal(o.st, o.v == spec, "keys are equal exactly when their values are"); exits.append(o.st)
            else:
                e.assume(s0, z3.And(vh(a) == vh(b), ta == tb))       # what equal keys have in common
                for o in c.run(s0, f, None, [arg(ta, a)]):
                    if o.kind == "throw": c.goal(o.st, z3.BoolVal(False), "hashing a key does not throw"); continue
                    s2 = o.st.copy(); x2 = arg2(e, s2, sh, tb, b, mk)
                    for o2 in c.run(s2, f, None, [x2]):
                        if o2.kind == "throw": c.goal(o2.st, z3.BoolVal(False), "hashing a key does not throw"); continue
                        c.goal(o2.st, o.v == o2.v, "equal keys have equal hashes"); exits.append(o2.st)
        return exits
    return fn
def arg2(e, s, sh, t, r, mk):
    v = mk(t, r)
    if isinstance(v, tuple):
        lv = e.var_lv(s, "key2", sh); e.write(s, lv, v); return lv
    return v
for _k in ("Observation", "State", "Action", "id"):
    for _w in ("hash", "eq"): register("C18", name="key_%s_%s" % (_w, _k))(functor_contract(_w, _k))
