"""Symbolic execution of clang-AST function bodies into proof obligations."""
import z3, itertools, re
from . import astload
from .types import *
from .values import *
from .prover import Prover, abs_, exp_, log_, sqrt_, pow_, has
from .prover import ite as _ite

NORMAL, BREAK, CONT, RET, THROW = "normal", "break", "continue", "return", "throw"

class Sig:
    __slots__ = ("k", "v")
    def __init__(self, k, v=None): self.k, self.v = k, v
N_ = Sig(NORMAL)

class Obl:
    __slots__ = ("name", "st", "goal", "where", "kind", "props", "exact", "hints")
    def __init__(self, name, st, goal, where, kind, props, hints=()): 
        self.hints = hints
        self.name, self.st, self.goal, self.where, self.kind, self.props = name, st, goal, where, kind, props

def deref_casts(n):
    while n["kind"] in ("ImplicitCastExpr", "ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr", "CXXFunctionalCastExpr") and n.get("inner"):
        n = n["inner"][0]
    return n

class Engine:
    def __init__(self, prog, types=None):
        self.prog = prog
        self.ty = types or Types(prog)
        self.pv = Prover()
        self.obls = []
        self.record = True          # record obligations (off during discovery passes)
        self.family = {}            # static class -> assumed dynamic class
        self.summaries = {}         # qualified name -> fn(eng, st, this, args, node) -> [(st,val)]
        self.hooks = {}             # lock/unlock/wait hooks
        self.access_check = None    # fn(eng, st, lv, write) : lock discipline
        self.cnt = itertools.count(1)
        self.called = set()         # functions whose bodies were executed (under contract)
        self.loops = []
        self.inexact = []           # reasons why a failed proof may be an incompleteness
        self.trace_on = False
        self.globcache = {}
        self.ckeys = []             # (inv_key(ref)->key, is_child(ref)->Bool, key sort)
        self.prune = True
        self.where = []
        self.props = ()
        self.depth = 0
        self.ufs = {}
        self.immut = set()
        self.stop_lock_rank = None
        self.skolems = []           # universally quantified keys of the contract
    # ------------------------------------------------------------ symbols
    def fresh(self, st, name, sort):
        js = st.js if st is not None else ()
        nm = "%s!%d" % (name, next(self.cnt))
        if not js: return z3.Const(nm, sort)
        return z3.Function(nm, *([j.sort() for j in js] + [sort]))(*js)
    def fresh_arr(self, st, name, idxsorts, sort):
        js = st.js
        nm = "%s!%d" % (name, next(self.cnt))
        if not js and not idxsorts: return ConstA(z3.Const(nm, sort))
        return BaseA(z3.Function(nm, *([j.sort() for j in js] + list(idxsorts) + [sort])), js)
    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs: self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]
    def assume(self, st, f):
        if z3.is_true(f): return
        st.facts.append(f)
    def oblige(self, st, goal, name, kind="safety", props=None):
        if self.record and not z3.is_true(goal):
            s = st.copy()
            self.obls.append(Obl(name, s, goal, list(self.where), kind, tuple(props or self.props)))
        self.assume(st, goal)
    # ------------------------------------------------------------ memory
    def idxsorts(self, root, sh_path_leaf):
        pass
    def leafinfo(self, root, path):
        sh, pre = self.rootinfo[root]
        for p, ix, s in leaves(sh):
            if p == path: return pre + ix, s
        raise Unsupported("no leaf %s of %s" % (path, root))
    def cell(self, st, root, path):
        k = (root, path)
        a = st.mem.get(k)
        if a is None:
            a = self.init_cell(k)
            st.mem[k] = a
        return a
    def init_cell(self, k):
        a = self.init_mem.get(k)
        if a is None:
            root, path = k
            ix, s = self.leafinfo(root, path)
            nm = "m_" + "_".join(str(x) for x in root[1:]) + "__" + "_".join(str(p) for p in path)
            nm = re.sub(r"[^\w]+", "_", nm)
            a = BaseA(z3.Function(nm, *(list(ix) + [s]))) if ix else ConstA(z3.Const(nm, s))
            self.init_mem[k] = a
            if path and path[-1] == "el" and ix: self.pv.add_inverse(nm, nm[:-2] + "pos")
            if s == Ref and ix:
                born = self.uf("born", Ref, Int)
                d = a.decl
                self.pv.gens.setdefault(d.name(), []).append(lambda args, d=d: [born(d(*args)) <= 0])
            if s == Int and path and path[-1] in ("len", "n") and ix:
                d = a.decl
                self.pv.gens.setdefault(d.name(), []).append(lambda args, d=d: [d(*args) >= 0])
        return a
    def reset(self):
        self.init_mem = {}; self.rootinfo = {}; self.obls = []; self.inexact = []
        self.pv = Prover(); self.called = set(); self.ckeys = []
    def field_lv(self, cls, name, owner):
        root = ("fld", cls, name)
        if root not in self.rootinfo:
            info = self.prog.classes[cls]
            for n, t, _ in info["fields"]:
                if n == name:
                    self.rootinfo[root] = (self.ty.shape(t), (Ref,))
                    break
            else: raise Unsupported("field %s::%s" % (cls, name))
        return Lv(root, (owner,), (), self.rootinfo[root][0])
    def heap_lv(self, sh, ref):
        root = ("heap", sh.key())
        if root not in self.rootinfo: self.rootinfo[root] = (sh, (Ref,))
        return Lv(root, (ref,), (), sh)
    def find_field(self, cls, name):
        for c in self.ty.mro(cls):
            for n, t, _ in self.prog.classes[c]["fields"]:
                if n == name: return c
        raise Unsupported("no field %s in %s" % (name, cls))
    def fld(self, st, obj, cls, name):
        """contract-side read of obj.name (declared in cls or a base)"""
        lv = self.field_lv(self.find_field(cls, name), name, obj)
        return self.read(st, lv)
    def var_lv(self, st, vid, sh, uid=None):
        root = ("var", uid if uid is not None else next(self.cnt), vid)
        self.rootinfo[root] = (sh, ())
        return Lv(root, (), (), sh)
    def wrap(self, sh, t):
        if sh.k == "ptr": return P(t, sh.cls)
        return t
    def read(self, st, lv):
        if isinstance(lv, ObjL): return P(lv.t, lv.cls)
        if isinstance(lv, PairL): return (lv.k, self.read(st, lv.v))
        sh = lv.sh
        if scalar(sh):
            return self.wrap(sh, self.cell(st, lv.root, lv.path).sel(lv.idx))
        if sh.k in ("tup", "struct"):
            return tuple(self.read(st, lv.sub((i,), a)) for i, a in enumerate(sh.args))
        if sh.k in ("vec", "map", "mmap"):
            return Cont(sh, {p: self.cell(st, lv.root, lv.path + p).curry(lv.idx) for p, ix, s in leaves(sh)})
        if sh.k == "obj":
            return P(self.cell(st, lv.root, lv.path).sel(lv.idx), sh.cls)
        if sh.k == "iter":
            return st.meta.get(("iter", lv.root))
        if sh.k in ("opaque", "stream", "mutex", "guard"):
            return Opq(sh.k, lv)
        raise Unsupported("read of " + repr(sh))
    def t(self, v):
        """leaf term of a scalar value"""
        if isinstance(v, P): return v.t
        if isinstance(v, FnV): return z3.Int("fn_" + v.name)
        if isinstance(v, Opq): raise Unsupported("uninterpreted value " + v.what)
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, z3.ExprRef): return v
        raise Unsupported("scalar expected, got %r" % (v,))
    def coerce(self, t, s):
        if t.sort() == s: return t
        if t.sort() == Int and s == Real: return z3.ToReal(t)
        if t.sort() == Bool and s == Int: return z3.If(t, z3.IntVal(1), z3.IntVal(0))
        if t.sort() == Int and s == Bool: return t != 0
        if t.sort() == Real and s == Int: return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        if t.sort() == Bool and s == Real: return z3.If(t, z3.RealVal(1), z3.RealVal(0))
        if t.sort() == Ref and s == Int and t.eq(Null): return z3.IntVal(0)          # null function pointer
        raise Unsupported("coerce %s to %s" % (t.sort(), s))
    def write(self, st, lv, v):
        if isinstance(lv, ObjL): raise Unsupported("object assignment")
        sh = lv.sh
        if isinstance(v, (Lv, ObjL, PairL)): v = self.rv(st, v)
        if scalar(sh):
            if isinstance(v, Opq) and v.what in ("str", "strcat"):
                v = self.fresh(st, "str", Str)
            t = self.coerce(self.t(v), leaf_sort(sh))
            k = (lv.root, lv.path)
            a = self.cell(st, *k)
            st.mem[k] = a.store(lv.idx, t) if lv.idx else ConstA(t)
            return
        if sh.k in ("tup", "struct"):
            if not isinstance(v, tuple): raise Unsupported("tuple expected")
            for i, a in enumerate(sh.args): self.write(st, lv.sub((i,), a), v[i])
            return
        if sh.k in ("vec", "map", "mmap"):
            if not isinstance(v, Cont): raise Unsupported("container expected")
            for p, ix, s in leaves(sh):
                k = (lv.root, lv.path + p)
                a = self.cell(st, *k)
                tail = v.leaf[p]
                if lv.idx:
                    st.mem[k] = a.store(lv.idx, tail.sel(())) if not ix else a.slice(lv.idx, tail)
                else: st.mem[k] = tail
            return
        if sh.k == "obj" and isinstance(v, P):
            k = (lv.root, lv.path); a = self.cell(st, *k)
            st.mem[k] = a.store(lv.idx, v.t) if lv.idx else ConstA(v.t)
            return
        if sh.k == "iter":
            st.meta[("iter", lv.root)] = v; return
        if sh.k in ("opaque", "stream", "guard", "mutex"): return
        raise Unsupported("write of " + repr(sh))
    def rv(self, st, v):
        if isinstance(v, (Lv, ObjL, PairL)):
            if isinstance(v, Lv) and self.access_check: self.access_check(self, st, v, False)
            return self.read(st, v)
        return v
    def assign(self, st, lv, v):
        if isinstance(lv, Lv) and self.access_check: self.access_check(self, st, lv, True)
        self.write(st, lv, v)
    # ------------------------------------------------------------ containers
    def leafat(self, st, lv, p, ix=()):
        return self.cell(st, lv.root, lv.path + p).sel(lv.idx + tuple(ix))
    def setleaf(self, st, lv, p, ix, v):
        k = (lv.root, lv.path + p)
        a = self.cell(st, *k); full = lv.idx + tuple(ix)
        st.mem[k] = a.store(full, v) if full else ConstA(v)
    def keyterm(self, sh, v):
        if sh.k == "tup":
            s = leaf_sort(sh)
            return s.constructor(0)(*[self.keyterm(a, x) for a, x in zip(sh.args, v)])
        return self.coerce(self.t(v), leaf_sort(sh))
    def keyval(self, sh, t):
        if sh.k == "tup":
            s = leaf_sort(sh)
            return tuple(self.keyval(a, s.accessor(0, i)(t)) for i, a in enumerate(sh.args))
        return self.wrap(sh, t)
    def vec_len(self, st, lv):
        n = self.leafat(st, lv, ("len",))
        self.assume(st, n >= 0)
        return n
    def vec_wf_at(self, st, lv, i):
        """membership facts of position i"""
        if lv.sh.args[0].k in ("ptr", "int"):
            e = self.leafat(st, lv, ("el",), (i,)); n = self.leafat(st, lv, ("len",))
            self.assume(st, z3.Implies(z3.And(0 <= i, i < n), z3.And(self.leafat(st, lv, ("mem",), (e,)),
                        z3.Implies(self.leafat(st, lv, ("nd",)), self.leafat(st, lv, ("pos",), (e,)) == i))))
    def vec_wf_mem(self, st, lv, x):
        n = self.leafat(st, lv, ("len",)); p = self.leafat(st, lv, ("pos",), (x,))
        return z3.Implies(self.leafat(st, lv, ("mem",), (x,)), z3.And(0 <= p, p < n, self.leafat(st, lv, ("el",), (p,)) == x))
    def vec_push(self, st, lv, v):
        n = self.vec_len(st, lv)
        e = lv.sh.args[0]
        if leaves(e): self.write(st, lv.sub(("el",), e, (n,)), v)
        if e.k in ("ptr", "int"):
            x = self.coerce(self.t(v), leaf_sort(e))
            m = self.leafat(st, lv, ("mem",), (x,))
            self.setleaf(st, lv, ("nd",), (), z3.And(self.leafat(st, lv, ("nd",)), z3.Not(m)))
            self.setleaf(st, lv, ("mem",), (x,), z3.BoolVal(True))
            self.setleaf(st, lv, ("pos",), (x,), n)
        self.setleaf(st, lv, ("len",), (), z3.simplify(n + 1))
    def vec_pop(self, st, lv):
        n = self.vec_len(st, lv)
        self.oblige(st, n > 0, "pop_back on a non-empty vector")
        e = lv.sh.args[0]
        if e.k in ("ptr", "int"):
            x = self.leafat(st, lv, ("el",), (n - 1,))
            nd = self.leafat(st, lv, ("nd",))
            k = (lv.root, lv.path + ("mem",)); a = self.cell(st, *k)
            f = self.fresh_arr(st, "mem", [leaf_sort(e)], Bool)
            full = lv.idx
            old = a.curry(full)
            new = LamA(lambda y, x=x, nd=nd, old=old, f=f: z3.If(nd, z3.And(old.sel((y,)), y != x), f.sel((y,))))
            st.mem[k] = a.slice(full, new) if full else new
            k = (lv.root, lv.path + ("pos",)); a = self.cell(st, *k)
            fp = self.fresh_arr(st, "pos", [leaf_sort(e)], Int); oldp = a.curry(full)
            newp = LamA(lambda y, nd=nd, oldp=oldp, fp=fp: _ite(nd, oldp.sel((y,)), fp.sel((y,))))
            st.mem[k] = a.slice(full, newp) if full else newp
        self.setleaf(st, lv, ("len",), (), z3.simplify(n - 1))
    def vec_elem(self, st, lv, i, check=True, what="vector index in bounds"):
        n = self.vec_len(st, lv)
        if check: self.oblige(st, z3.And(0 <= i, i < n), what)
        self.vec_wf_at(st, lv, i)
        return lv.sub(("el",), lv.sh.args[0], (i,))
    # maps: iteration order is an uninterpreted bijection, one per map value
    def map_order(self, st, lv):
        k = (lv.root, lv.path)
        dom = self.cell(st, lv.root, lv.path + ("dom",))
        key = ("order", k, tuple(x.get_id() for x in lv.idx))
        o = st.meta.get(key)
        if o is not None and o[0] is dom: return o[1][:4]
        ks = leaf_sort(lv.sh.args[0]) if lv.sh.k == "map" else leaf_sort(lv.sh.args[1])
        domv, n = dom.curry(lv.idx), self.leafat(st, lv, ("n",))
        ordA = self.fresh_arr(st, "ord", [Int], ks); idxA = self.fresh_arr(st, "idx", [ks], Int)
        js = st.js
        od, idd = ordA.decl, idxA.decl
        def sub(f, a):
            s = [(j, b) for j, b in zip(js, a) if not j.eq(b)]
            return z3.substitute(f, *s) if s else f
        anchors = []
        if lv.sh.k == "mmap": vals = self.cell(st, lv.root, lv.path + ("val",)).curry(lv.idx)
        def gen_ord(args, js=js):
            i = args[-1]; a = args[:-1]
            if anchors:     # a multimap is iterated by increasing key
                e = od(*(js + (i,))); r = []
                for q in list(anchors):
                    f = od(*(js + (q,)))
                    r.append(sub(z3.Implies(z3.And(0 <= i, i < n, 0 <= q, q < n), z3.And(z3.Implies(i <= q, vals.sel((e,)) <= vals.sel((f,))), z3.Implies(q <= i, vals.sel((f,)) <= vals.sel((e,))))), a))
            else: r = []
            if z3.is_app(i) and i.decl().name() == idd.name(): return r
            e = od(*(js + (i,)))
            return r + [sub(z3.Implies(z3.And(0 <= i, i < n), z3.And(domv.sel((e,)), idd(*(js + (e,))) == i)), a)]
        def gen_idx(args, js=js):
            x = args[-1]; a = args[:-1]
            if z3.is_app(x) and x.decl().name() == od.name(): return []
            p = idd(*(js + (x,)))
            return [sub(z3.And(z3.Implies(domv.sel((x,)), z3.And(0 <= p, p < n, od(*(js + (p,))) == x))), a)]
        self.pv.add_inverse(od.name(), idd.name())
        st.gens.setdefault(od.name(), []).append(gen_ord)
        st.gens.setdefault(idd.name(), []).append(gen_idx)
        self.assume(st, n >= 0)
        # non-emptiness: the first key exists
        if not st.js: self.assume(st, z3.Implies(n > 0, domv.sel((ordA.sel((z3.IntVal(0),)),))))
        o = (ordA, idxA, domv, n)
        st.meta[key] = (dom, o + (anchors,))
        return o
    def map_dom_fact(self, st, lv, k):
        """a key in the map has a position (so the map is non-empty)"""
        ordA, idxA, domv, n = self.map_order(st, lv)
        self.assume(st, z3.Implies(domv.sel((k,)), z3.And(0 <= idxA.sel((k,)), idxA.sel((k,)) < n)))
    def map_dom(self, st, lv, k):
        d = self.leafat(st, lv, ("dom",), (k,))
        return d
    def map_valshape(self, lv): return lv.sh.args[1] if lv.sh.k == "map" else lv.sh.args[0]
    def map_val(self, lv, k): return lv.sub(("val",), self.map_valshape(lv), (k,))
    def map_touch(self, st, lv, k):
        """operator[]: default-construct when absent"""
        d = self.map_dom(st, lv, k)
        n = self.leafat(st, lv, ("n",))
        if z3.is_true(z3.simplify(d)): return
        vs = self.map_valshape(lv)
        for p, ix, s in leaves(vs):
            if ix: raise Unsupported("map of containers")
            kk = (lv.root, lv.path + ("val",) + p); a = self.cell(st, *kk)
            old = a.sel(lv.idx + (k,))
            try: dv = sort_default(s)
            except Unsupported: dv = old
            st.mem[kk] = a.store(lv.idx + (k,), _ite(d, old, dv))
        self.setleaf(st, lv, ("n",), (), _ite(d, n, n + 1))
        self.setleaf(st, lv, ("dom",), (k,), z3.BoolVal(True))
    def map_put(self, st, lv, k, v, overwrite=True):
        d = self.map_dom(st, lv, k); n = self.leafat(st, lv, ("n",))
        self.map_dom_fact(st, lv, k)
        if overwrite: self.write(st, self.map_val(lv, k), v)
        else:
            vs = self.map_valshape(lv)
            if not scalar(vs): raise Unsupported("insert of aggregate")
            old = self.t(self.read(st, self.map_val(lv, k)))
            self.write(st, self.map_val(lv, k), self.wrap(vs, _ite(d, old, self.coerce(self.t(v), leaf_sort(vs)))))
        self.setleaf(st, lv, ("n",), (), _ite(d, n, n + 1))
        self.setleaf(st, lv, ("dom",), (k,), z3.BoolVal(True))
    def map_erase(self, st, lv, k):
        d = self.map_dom(st, lv, k); n = self.leafat(st, lv, ("n",))
        self.map_dom_fact(st, lv, k)
        self.setleaf(st, lv, ("n",), (), _ite(d, n - 1, n))
        self.setleaf(st, lv, ("dom",), (k,), z3.BoolVal(False))
    # ------------------------------------------------------------ objects
    def new_ref(self, st, cls):
        r = self.fresh(st, "new_" + (cls if isinstance(cls, str) else cls.k), Ref)
        born = self.uf("born", Ref, Int)
        self.assume(st, born(r) == next(self.cnt))
        self.assume(st, r != Null)
        if isinstance(cls, str): self.assume(st, self.uf("dyncls", Ref, Int)(r) == self.clsid(cls))
        st.meta.setdefault("fresh", ()); st.meta["fresh"] = st.meta["fresh"] + (r,)
        return r
    def clsid(self, cls):
        return sorted(self.prog.classes).index(cls) + 1 if cls in self.prog.classes else 0
    def alloc(self, st, sh, args, node=None):
        """make_shared / make_unique / local object: returns [(st, ref)]"""
        if isinstance(sh, str): sh = Shape("obj", (), sh)
        r = self.new_ref(st, sh.cls if sh.k == "obj" else sh)
        if sh.k == "obj":
            return [(s, P(r, sh.cls)) for s in self.construct(st, r, sh.cls, args, node)]
        lv = self.heap_lv(sh, r)
        self.write(st, lv, self.cont_ctor(st, sh, args))
        return [(st, P(r, sh))]
    def cont_ctor(self, st, sh, args):
        if not args: 
            if scalar(sh): return sort_default(leaf_sort(sh))
            return empty_cont(sh)
        a = self.rv(st, args[0])
        if isinstance(a, Cont):
            if sh.k == "map": return a
            return a
        if sh.k == "vec" and isinstance(a, z3.ExprRef) and a.sort() == Int:
            c = empty_cont(sh); c.leaf[("len",)] = ConstA(a)
            if len(args) > 1 and scalar(sh.args[0]):
                c.leaf[("el",)] = ConstA(self.coerce(self.t(self.rv(st, args[1])), leaf_sort(sh.args[0])))
            for q in (("mem",), ("pos",), ("nd",)):
                if q in c.leaf:
                    s = {"mem": Bool, "pos": Int, "nd": Bool}[q[0]]
                    c.leaf[q] = self.fresh_arr(st, q[0], [] if q == ("nd",) else [leaf_sort(sh.args[0])], s)
            return c
        if isinstance(a, (z3.ExprRef, tuple)) and not scalar(sh) and sh.k in ("tup",): return a
        raise Unsupported("constructor of %r" % sh)
    def construct(self, st, ref, cls, args, node=None):
        """run a constructor of cls on ref: list of states"""
        q = cls + "::" + cls.split("::")[-1].split("<")[0]
        key = cls + "::ctor"
        if key in self.summaries:
            return [s for s, _ in self.summaries[key](self, st, P(ref, cls), args, node)]
        fs = [f for f in self.prog.byq.get(q, []) if f.kind == "CXXConstructorDecl" and (f.body is not None or f.inits)]
        fs = [f for f in fs if sum(1 for p in f.params if not p.get("inner")) <= len(args) <= len(f.params)]
        if len(fs) > 1:
            def copylike(f): return len(f.params) == 1 and self.ty.cname(f.params[0]["type"]["qualType"]) == cls
            isobj = len(args) == 1 and isinstance(args[0], (ObjL, P)) and getattr(args[0], "cls", None) == cls
            fs = [f for f in fs if copylike(f) == isobj]
        if not fs:
            if not args or (len(args) == 1 and isinstance(args[0], (ObjL,))):
                return self.default_init(st, ref, cls)
            raise Unsupported("constructor %s/%d" % (cls, len(args)))
        out = []
        for s, v in self.call(st, fs[0], P(ref, cls), args, node, ctor=cls): 
            out.append(s)
        return out
    def default_init(self, st, ref, cls):
        sts = [st]
        for b in self.ty.bases(cls):
            if b in self.prog.classes:
                sts = [s2 for s in sts for s2 in self.construct(s, ref, b, [])]
        for n, t, node in self.prog.classes[cls]["fields"]:
            sh = self.ty.shape(t)
            ini = [c for c in node.get("inner", ()) if c.get("kind", "").endswith("Expr") or c.get("kind", "").endswith("Literal")]
            for s in sts: self.default_field(s, ref, cls, n, sh)
        return sts
    def default_field(self, st, ref, cls, n, sh):
        if sh.k in ("vec", "map", "mmap"):
            self.write(st, self.field_lv(cls, n, ref), empty_cont(sh))
        elif sh.k == "mutex":
            st_lv = self.field_lv(cls, n, ref); self.setleaf(st, st_lv, ("held",), (), z3.BoolVal(False))
        elif sh.k == "ptr" and "*" not in str(sh.cls):
            self.write(st, self.field_lv(cls, n, ref), P(Null, sh.cls))
        # scalars stay indeterminate
    # ------------------------------------------------------------ functions
    def sub_frames(self, st): return st.frames[-1]
    def resolve(self, mangled):
        f = self.prog.funcs.get(mangled)
        if f is None: raise Unsupported("unknown function " + str(mangled))
        return f
    def dispatch(self, f, dyn):
        """final overrider of virtual f in class dyn"""
        if dyn is None: return f
        for c in self.ty.mro(dyn):
            for g in self.prog.byq.get(c + "::" + f.name, []):
                if len(g.params) == len(f.params) and not g.pure and self.same_sig(f, g): return g
        return f
    def same_sig(self, f, g):
        return [p["type"].get("desugaredQualType") or p["type"]["qualType"] for p in f.params] == \
               [p["type"].get("desugaredQualType") or p["type"]["qualType"] for p in g.params] or f.name == g.name
    def call(self, st, f, this, args, node, ctor=None, virtual=False, forward=False):
        """returns [(st, value)] ; throws propagate through Throw states"""
        sm = self.summaries.get(f.qname)
        if sm is not None and not getattr(self, "_bypass", None) == f.qname:
            r = sm(self, st, this, args, node)
            if r is not None: return r
        if f.body is None and not f.inits and f.kind != "CXXConstructorDecl":
            raise Unsupported("no body for " + f.qname)
        if self.depth > 40: raise Unsupported("call depth")
        self._bypass = None
        self.called.add(f.qname)
        self.depth += 1
        self.where.append(f.qname)
        exact = None
        if ctor: exact = ctor
        fr = Frame(f, this.t if this is not None else None, this.cls if this is not None else f.cls, next(self.cnt), f.tu, exact)
        if not ctor and st.frames and st.frames[-1].exact and this is not None and st.frames[-1].this is not None and this.t.eq(st.frames[-1].this):
            fr.exact = st.frames[-1].exact
        st.frames.append(fr)
        depth = len(st.frames)
        # bind parameters
        for i, p in enumerate(f.params):
            sts = None
            if i < len(args) and not (isinstance(args[i], str) and args[i] == "default"): a = args[i]
            else:
                ini = p.get("inner", [])
                if not ini: raise Unsupported("missing argument of " + f.qname)
                r = self.ev(st, ini[0])
                if len(r) != 1: raise Unsupported("forking default argument")
                st, a = r[0]
            self.bind(st, fr, p, a)
        outs = []
        sts = [(st, N_)]
        if f.kind == "CXXConstructorDecl":
            sts = self.run_inits(st, f, this)
        for s, sig in sts:
            if sig.k == THROW: outs.append((s, sig)); continue
            if f.body is not None: outs += self.ex(s, f.body)
            else: outs.append((s, N_))
        self.where.pop(); self.depth -= 1
        res = []
        isref = f.rtype.split("(")[0].strip().endswith("&")
        for s, sig in outs:
            if sig.k == RET:
                v = sig.v
                if v is None: v = VOIDV
                if not isref: v = self.rv(s, v)
            elif sig.k == NORMAL: v = VOIDV
            elif sig.k == THROW:
                s.frames.pop()
                self.throwq.append((s, sig)); continue
            else: raise Unsupported("signal " + sig.k)
            s.frames.pop()
            res.append((s, v))
        return self.merge(res)
    throwq = None
    def bind(self, st, fr, p, a):
        t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        sh = self.ty.shape(p["type"])
        isref = t.rstrip().endswith("&")
        vid = p["id"]
        if sh.k == "obj" or isinstance(a, ObjL):
            if isinstance(a, P): a = ObjL(a.t, a.cls)
            if isref or isinstance(a, ObjL):
                fr.vars[vid] = a; return
        if isref and isinstance(a, (Lv, PairL)):
            fr.vars[vid] = a; return
        if sh.k in ("opaque", "stream", "guard", "mutex", "iter") :
            fr.vars[vid] = a; return
        v = self.rv(st, a)
        if isinstance(v, Opq) or isinstance(v, FnV) and sh.k != "fn":
            fr.vars[vid] = v; return
        if isinstance(v, Cont) and sh.k != v.sh.k: sh = v.sh
        lv = self.var_lv(st, p.get("name", "arg"), sh, fr.serial)
        self.write(st, lv, v)
        fr.vars[vid] = lv
    def run_inits(self, st, f, this):
        """constructor initialisers, in member order as clang lists them"""
        sts = [(st, N_)]
        seen = set()
        cls = f.cls
        for ini in f.inits:
            nxt = []
            for s, sig in sts:
                if sig.k != NORMAL: nxt.append((s, sig)); continue
                e = ini.get("inner", [None])[0]
                if "anyInit" in ini:
                    fld = ini["anyInit"]; nm = fld["name"]; seen.add(nm)
                    lv = self.field_lv(cls, nm, this.t)
                    t = self.fieldtype(cls, nm)
                    n2 = self.evq(s, e) if lv.sh.k not in ("opaque", "stream") else [(s, None)]
                    for s2, v in n2:
                        if v is not None: self.init_field(s2, cls, nm, lv, v, t)
                        nxt.append((s2, N_))
                else:
                    b = self.ty.cname(ini["baseInit"].get("desugaredQualType") or ini["baseInit"]["qualType"])
                    if b.startswith("enable_shared_from_this") or b not in self.prog.classes:
                        nxt.append((s, N_)); continue
                    x = deref_casts(e)
                    for s2, args in self.evlist(s, [c for c in x.get("inner", ())]):
                        for s3 in self.construct(s2, this.t, b, args, x): nxt.append((s3, N_))
            sts = nxt
        for n, t, node in self.prog.classes[cls]["fields"]:
            if n not in seen:
                for s, sig in sts:
                    if sig.k == NORMAL: self.default_field(s, this.t, cls, n, self.ty.shape(t))
        return sts
    def fieldtype(self, cls, nm):
        for n, t, _ in self.prog.classes[cls]["fields"]:
            if n == nm: return t["qualType"]
    def init_field(self, st, cls, nm, lv, v, t):
        if lv.sh.k == "obj":
            if isinstance(v, (ObjL, P)): self.write(st, lv, P(v.t, v.cls)); return
            raise Unsupported("embedded object field")
        if lv.sh.k == "mutex": self.setleaf(st, lv, ("held",), (), z3.BoolVal(False)); return
        if isinstance(v, Opq): return
        self.write(st, lv, self.rv(st, v))
    # ------------------------------------------------------------ expressions
    def evq(self, st, n): return self.ev(st, n)
    def evlist(self, st, ns):
        res = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(s, n): nxt.append((s2, vs + [v]))
            res = nxt
        return res
    def evt(self, st, n):
        """evaluate to a scalar term"""
        return [(s, self.t(self.rv(s, v))) for s, v in self.ev(st, n)]
    def ev(self, st, n):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None: raise Unsupported("expression " + n["kind"])
        return m(st, n)
    def _pass(self, st, n): return self.ev(st, n["inner"][0])
    e_ExprWithCleanups = e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_MaterializeTemporaryExpr = e_SubstNonTypeTemplateParmExpr = _pass
    def e_CXXRewrittenBinaryOperator(self, st, n): return self.ev(st, n["inner"][0])
    def e_IntegerLiteral(self, st, n): return [(st, z3.IntVal(int(n["value"])))]
    def e_CharacterLiteral(self, st, n): return [(st, z3.IntVal(int(n["value"])))]
    def e_FloatingLiteral(self, st, n):
        from fractions import Fraction
        f = Fraction(repr(float(n["value"])))      # the decimal as written (clang prints 17 digits)
        return [(st, z3.RealVal(str(f)))]
    def e_CXXBoolLiteralExpr(self, st, n): return [(st, z3.BoolVal(bool(n["value"])))]
    def e_StringLiteral(self, st, n): return [(st, Opq("str", n["value"]))]
    def e_CXXNullPtrLiteralExpr(self, st, n): return [(st, P(Null, "null"))]
    def e_GNUNullExpr(self, st, n): return [(st, P(Null, "null"))]
    def e_CXXThisExpr(self, st, n):
        f = st.frames[-1]
        return [(st, P(f.this, f.thiscls))]
    def e_CXXDefaultArgExpr(self, st, n): return [(st, "default")]
    def e_CXXDefaultInitExpr(self, st, n):
        raise Unsupported("default member init")
    def e_ImplicitValueInitExpr(self, st, n):
        return [(st, sort_default(leaf_sort(self.ty.shape(n["type"]))))]
    def e_CXXScalarValueInitExpr(self, st, n):
        return [(st, sort_default(leaf_sort(self.ty.shape(n["type"]))))]
    def cast(self, st, n):
        ck = n.get("castKind"); e = n["inner"][0]
        if ck == "LValueToRValue": return [(s, self.rv(s, v)) for s, v in self.ev(st, e)]
        if ck in ("IntegralToFloating", "IntegralCast", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral"):
            sh = self.ty.shape(n["type"])
            out = []
            for s, v in self.ev(st, e):
                v = self.rv(s, v)
                t = self.t(v)
                if ck == "IntegralCast" or sh.k not in ("int", "real", "bool"): out.append((s, self.coerce(t, Int) if t.sort() == Bool else t))
                else: out.append((s, self.coerce(t, leaf_sort(sh))))
            return out
        if ck == "PointerToBoolean":
            nz = lambda t: t != Null if t.sort() == Ref else t != 0
            return [(s, nz(self.t(self.rv(s, v))) if not isinstance(v, FnV) else z3.BoolVal(True)) for s, v in self.ev(st, e)]
        if ck == "NullToPointer": return [(st, P(Null, "null"))]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(st, e)
        if ck in ("BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase", "NoOp", "ConstructorConversion", "UserDefinedConversion", "ArrayToPointerDecay", "BitCast", "Dynamic", "ToVoid"):
            r = self.ev(st, e)
            if ck in ("BaseToDerived", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "Dynamic"):
                c = self.ty.cname(n["type"].get("desugaredQualType") or n["type"]["qualType"]).rstrip(" *").strip()
                c = self.ty.cname(c)
                if c in self.prog.classes:
                    r = [(s, (P(v.t, c) if isinstance(v, P) else ObjL(v.t, c) if isinstance(v, ObjL) else v)) for s, v in r]
            return r
        raise Unsupported("cast " + str(ck))
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = cast
    def e_CXXFunctionalCastExpr(self, st, n): return self.cast(st, n)
    def isa(self, o, cls):
        """the object's dynamic class is cls or derived from it"""
        d = self.uf("dyncls", Ref, Int)(o)
        return z3.Or(*[d == self.clsid(k) for k in sorted(self.prog.classes) if self.ty.is_sub(k, cls)])
    def e_CXXDynamicCastExpr(self, st, n):
        if not self.hooks.get("dyncast"): return self.cast(st, n)
        out = []
        for s, v in self.cast(st, n):
            if isinstance(v, ObjL):
                for s2, ok in self.split(s, self.isa(v.t, v.cls)):
                    if ok: out.append((s2, v))
                    else: self.throwq.append((s2, Sig(THROW, "bad_cast")))
            elif isinstance(v, P): out.append((s, P(z3.If(self.isa(v.t, v.cls), v.t, Null), v.cls)))
            else: raise Unsupported("dynamic_cast of %r" % (v,))
        return out
    def e_DeclRefExpr(self, st, n):
        r = n["referencedDecl"]
        if r["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl", "DecompositionDecl"):
            for f in reversed(st.frames):
                if r["id"] in f.vars:
                    return [(st, f.vars[r["id"]])]
                break
            # lambda-captured / outer frames are not visible; globals
            return [(st, self.global_var(st, r))]
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            k = self.prog.idmap.get((st.frames[-1].tu, r["id"]))
            if k and k[0] == "func": return [(st, FnV(self.prog.funcs[k[1]].qname if k[1] in self.prog.funcs else r["name"], k[1]))]
            return [(st, FnV(r["name"]))]
        if r["kind"] == "EnumConstantDecl": return [(st, z3.Int("enum_" + r["name"]))]
        raise Unsupported("reference to " + r["kind"])
    def global_var(self, st, r):
        tu = st.frames[-1].tu
        nm = r["name"]
        ck = (tu, r["id"])
        if ck in self.globcache: return self.globcache[ck]
        node = None; scope_tu = tu
        k = self.prog.idmap.get((tu, r["id"]))
        if k and k[0] == "var": scope_tu, node = k[1]
        if node is None or not node.get("inner"):
            # static data member definitions / file statics outside namespace thts
            cands = [v for q, v in self.prog.statics.items() if q.split("::")[-1] == nm and v[1].get("inner")]
            same = [v for v in cands if v[0] == tu]
            if k is None:
                # not a declaration of namespace thts: a file static of this translation unit
                ds = [d for d in astload.parse_docs(astload.dump(tu, nm)) if d.get("kind") == "VarDecl" and d.get("name") == nm and d.get("inner")]
                main = [d for d in ds if "includedFrom" not in d.get("loc", {})]
                if len(main) == 1: node, scope_tu = main[0], tu
                elif len(ds) == 1: node, scope_tu = ds[0], tu
            if node is None or not node.get("inner"):
                if len(same) == 1 or (not same and len(cands) == 1): scope_tu, node = (same or cands)[0]
        if node is None: raise Unsupported("global " + nm)
        sh = self.ty.shape(node["type"])
        if not node.get("inner"):
            v = z3.Const("glob_" + nm, leaf_sort(sh))
        else:
            fr = Frame(None, None, None, 0, scope_tu)
            st.frames.append(fr)
            rs = self.ev(st, [c for c in node["inner"] if c.get("kind")][0])
            st.frames.pop()
            if len(rs) != 1: raise Unsupported("global initialiser")
            v = self.rv(rs[0][0], rs[0][1])
            if isinstance(v, z3.ExprRef): v = self.coerce(v, leaf_sort(sh))
        self.globcache[ck] = v
        return v
    def e_MemberExpr(self, st, n):
        mid = n.get("referencedMemberDecl")
        nm = n.get("name")
        k = self.prog.idmap.get((st.frames[-1].tu, mid))
        out = []
        if not n.get("inner"):
            raise Unsupported("member without base")
        for s, b in self.ev(st, n["inner"][0]):
            if k and k[0] == "func":
                out.append((s, ("bound", b, k[1]))); continue
            if k and k[0] == "var":
                out.append((s, self.global_var(s, {"id": mid, "name": nm}))); continue
            if k and k[0] == "field":
                _, cls, fn = k
                if isinstance(b, Lv) and b.sh.k == "struct" or isinstance(b, tuple):
                    if isinstance(b, tuple):
                        raise Unsupported("struct rvalue member")
                    fl = self.ty.allfields(b.sh.cls)
                    i = [x[1] for x in fl].index(fn)
                    out.append((s, b.sub((i,), b.sh.args[i]))); continue
                o = self.objterm(s, b)
                if o is None:   # pointer to struct element
                    raise Unsupported("field base")
                lv = self.field_lv(cls, fn, o)
                if lv.sh.k == "obj":      # reference member or embedded object
                    out.append((s, ObjL(self.cell(s, lv.root, ()).sel((o,)), lv.sh.cls)))
                else: out.append((s, lv))
                continue
            # std members: pair.first / second
            if nm in ("first", "second"):
                i = 0 if nm == "first" else 1
                if isinstance(b, IterV): b = self.iter_deref(s, b)
                if isinstance(b, P): raise Unsupported("pointer to pair")
                if isinstance(b, PairL): out.append((s, b.k if i == 0 else b.v)); continue
                if isinstance(b, Lv) and b.sh.k == "tup": out.append((s, b.sub((i,), b.sh.args[i]))); continue
                if isinstance(b, tuple): out.append((s, b[i])); continue
            if st.frames[-1].tu.endswith("#eq") and isinstance(b, (P, ObjL)) and b.cls in self.prog.classes:       # declarations of a separate dump: by name
                fs = [f for k in self.ty.mro(b.cls) for f in self.prog.byq.get(k + "::" + nm, [])]
                if fs: out.append((s, ("bound", b, fs[0].mangled))); continue
            out.append((s, ("stdbound", b, nm)))
        return out
    def objterm(self, st, b):
        if isinstance(b, (P, ObjL)): return b.t
        if isinstance(b, Lv):
            v = self.rv(st, b)
            if isinstance(v, P): return v.t
        return None
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]; e = n["inner"][0]
        if op in ("++", "--"):
            out = []
            for s, lv in self.ev(st, e):
                old = self.rv(s, lv)
                if isinstance(old, IterV): new = IterV(old.c, old.pos + (1 if op == "++" else -1), old.rev)
                else:
                    t = self.t(old); one = z3.RealVal(1) if t.sort() == Real else z3.IntVal(1)
                    new = z3.simplify(t + one) if op == "++" else z3.simplify(t - one)
                self.assign(s, lv, new)
                out.append((s, old if n.get("isPostfix") else lv))
            return out
        if op == "!":
            return [(s, z3.Not(self.asbool(s, v))) for s, v in self.ev(st, e)]
        if op == "-": return [(s, z3.simplify(-self.t(self.rv(s, v)))) for s, v in self.ev(st, e)]
        if op == "+": return self.ev(st, e)
        if op == "*":
            return [(s, self.deref(s, v)) for s, v in self.ev(st, e)]
        if op == "&":
            out = []
            for s, v in self.ev(st, e):
                if isinstance(v, ObjL): out.append((s, P(v.t, v.cls)))
                elif isinstance(v, Lv) and v.root[0] == "heap" and not v.path and len(v.idx) == 1: out.append((s, P(v.idx[0], v.sh)))
                elif isinstance(v, FnV): out.append((s, v))
                elif isinstance(v, (P, z3.ExprRef)): out.append((s, self.box(s, v)))
                else: out.append((s, Opq("addr", v)))
            return out
        if op == "~":
            f = self.uf("bitnot", Int, Int)
            return [(s, f(t)) for s, t in self.evt(st, e)]
        raise Unsupported("unary " + op)
    def box(self, st, v):
        """address of an immutable element holding value v (a map key)"""
        sh = PTR(v.cls) if isinstance(v, P) else {Int: INT, Real: REAL, Bool: BOOL}.get(v.sort())
        if sh is None: raise Unsupported("address of a value")
        t = self.t(v)
        b = self.uf("box_" + str(t.sort()), t.sort(), Ref)
        root = self.heap_lv(sh, Null)
        a = self.init_cell((root.root, ()))
        self.pv.gens.setdefault(b.name(), [])
        if not any(getattr(g, "is_box", False) for g in self.pv.gens[b.name()]):
            def g(args, b=b, a=a): return [z3.And(b(args[0]) != Null, a.sel((b(args[0]),)) == args[0])]
            g.is_box = True
            self.pv.gens[b.name()].append(g)
        return P(b(t), sh)
    def asbool(self, st, v):
        v = self.rv(st, v)
        if isinstance(v, P): return v.t != Null
        t = self.t(v)
        if t.sort() == Bool: return t
        return t != 0
    def deref(self, st, v):
        v = self.rv(st, v) if not isinstance(v, P) else v
        if isinstance(v, IterV): return self.iter_deref(st, v)
        if isinstance(v, Opq) and v.what == "addr": return v.args[0]
        if not isinstance(v, P): raise Unsupported("dereference of %r" % (v,))
        if isinstance(v.cls, Shape): return self.heap_lv(v.cls, v.t)
        return ObjL(v.t, v.cls)
    def iter_deref(self, st, it):
        lv = it.c
        if lv.sh.k == "vec":
            return self.vec_elem(st, lv, it.pos if not it.rev else self.vec_len(st, lv) - 1 - it.pos, what="iterator dereference in bounds")
        if lv.sh.k == "mmap": return self.mm_deref(st, it)
        ordA, idxA, domv, n = self.map_order(st, lv)
        k = ordA.sel((it.pos,))
        self.oblige(st, z3.And(0 <= it.pos, it.pos < n), "iterator dereference in bounds")
        if self.access_check: self.access_check(self, st, lv, False)
        # value read through the position: find(k) then ->second is val(k)
        if z3.is_app(it.pos) and it.pos.decl().kind() == z3.Z3_OP_ITE:
            kk = st.meta.get(("findkey", it.pos.get_id()))
            if kk is not None: k = kk
        return PairL(self.keyval(lv.sh.args[0], k), self.map_val(lv, k))
    def arith(self, op, a, b, st):
        if op in ("+", "-", "*", "/", "%") and (a.sort() == Real or b.sort() == Real):
            a, b = self.coerce(a, Real), self.coerce(b, Real)
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/":
            if a.sort() == Int:
                self.oblige(st, b != 0, "integer division by a non-zero value")
                return z3.If(a >= 0, a / b, -((-a) / b))      # truncation towards zero (SMT division by b floors for a >= 0, either sign of b)
            return a / b
        if op == "%":
            self.oblige(st, b != 0, "integer modulus by a non-zero value")
            return z3.If(a >= 0, a % b, -((-a) % b))
        if op == "&":
            if z3.is_int_value(b) and b.as_long() == 1: return a % 2
            return self.uf("bitand", Int, Int, Int)(a, b)
        if op in ("^", "|", "<<", ">>"):
            return self.uf({"^": "bitxor", "|": "bitor", "<<": "shl", ">>": "shr"}[op], Int, Int, Int)(a, b)
        raise Unsupported("operator " + op)
    def compare(self, op, a, b):
        if a.sort() != b.sort():
            if Real in (a.sort(), b.sort()): a, b = self.coerce(a, Real), self.coerce(b, Real)
            elif Bool in (a.sort(), b.sort()): a, b = self.coerce(a, Int), self.coerce(b, Int)
        if op == "==": return a == b
        if op == "!=": return a != b
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    def pure(self, n):
        """no calls, no assignments: safe to evaluate as a term without forking"""
        k = n.get("kind")
        if k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr", "CompoundAssignOperator", "CXXConstructExpr"): return False
        if k == "BinaryOperator" and n["opcode"] in ("=", ",") or k == "UnaryOperator" and n["opcode"] in ("++", "--"): return False
        return all(self.pure(c) for c in n.get("inner", ()) if c)
    def e_BinaryOperator(self, st, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            out = []
            for s, v in self.ev(st, b):
                v = self.rv(s, v)
                for s2, lv in self.ev(s, a):
                    self.assign(s2, lv, v); out.append((s2, lv))
            return out
        if op == ",":
            return [r for s, _ in self.ev(st, a) for r in self.ev(s, b)]
        if op in ("&&", "||"):
            out = []
            for s, v in self.ev(st, a):
                c = self.asbool(s, v)
                if self.pure(b):
                    for s2, w in self.ev(s, b):
                        d = self.asbool(s2, w)
                        out.append((s2, z3.And(c, d) if op == "&&" else z3.Or(c, d)))
                    continue
                for s2, br in self.split(s, c):
                    if br == (op == "&&"):
                        out += [(s3, self.asbool(s3, w)) for s3, w in self.ev(s2, b)]
                    else: out.append((s2, z3.BoolVal(br)))
            return self.merge(out)
        out = []
        for s, x in self.ev(st, a):
            x = self.rv(s, x)
            for s2, y in self.ev(s, b):
                y = self.rv(s2, y)
                out.append((s2, self.binop(s2, op, x, y)))
        return out
    def binop(self, st, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op == "==": return x.pos == y.pos
            if op == "!=": return x.pos != y.pos
            if op == "-": return x.pos - y.pos
            raise Unsupported("iterator " + op)
        if isinstance(x, IterV): 
            return IterV(x.c, x.pos + self.t(y) if op == "+" else x.pos - self.t(y), x.rev)
        if isinstance(x, tuple) and isinstance(y, tuple) and op in ("==", "!=") and len(x) == len(y):
            if self.hooks.get("value_eq") and any(isinstance(v, P) for v in x): raise Unsupported("comparison of tuples of pointers")
            c = z3.And(*[self.binop(st, "==", u, v) for u, v in zip(x, y)])
            return c if op == "==" else z3.Not(c)
        if isinstance(x, Opq) and x.what in ("partord",):
            raise Unsupported("three-way comparison")
        if isinstance(x, FnV) or isinstance(y, FnV) or (isinstance(x, z3.ExprRef) and isinstance(y, P)) or (isinstance(x, P) and isinstance(y, z3.ExprRef)):
            f = x if not isinstance(x, P) else y
            o = y if f is x else x
            if isinstance(o, P):
                c = z3.BoolVal(False) if isinstance(f, FnV) else self.t(f) == 0
                return c if op == "==" else z3.Not(c)
        a, b = self.t(x), self.t(y)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, st)
    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]; a, b = n["inner"]
        out = []
        for s, v in self.ev(st, b):
            v = self.rv(s, v)
            for s2, lv in self.ev(s, a):
                old = self.rv(s2, lv)
                self.assign(s2, lv, self.binop(s2, op, old, v)); out.append((s2, lv))
        return out
    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        out = []
        for s, v in self.ev(st, c):
            cond = self.asbool(s, v)
            if self.pure(a) and self.pure(b):
                (sa, x), = self.ev(s, a)
                (sb, y), = self.ev(sa, b)
                x, y = self.rv(sb, x), self.rv(sb, y)
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    if x.sort() != y.sort(): x, y = self.coerce(x, Real), self.coerce(y, Real)
                    out.append((sb, _ite(cond, x, y))); continue
                if isinstance(x, P) and isinstance(y, P):
                    out.append((sb, P(_ite(cond, x.t, y.t), x.cls if x.cls != "null" else y.cls))); continue
            o2 = []
            for s2, br in self.split(s, cond):
                for s3, w in self.ev(s2, a if br else b):
                    x = self.rv(s3, w)
                    if n.get("valueCategory") == "lvalue" and isinstance(w, Lv) and isinstance(x, Cont): out.append((s3, w)) # names one of two containers
                    else: o2.append((s3, x))
            out += self.merge(o2)
        return out
    def e_CXXThrowExpr(self, st, n):
        raise _Throw(st)
    def split(self, st, c):
        """fork on condition c -> [(state, bool)]"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        a, b = st, st.copy()
        out = []
        for s, f, br in ((a, c, True), (b, z3.Not(c), False)):
            s.pc.append(f)
            if self.prune and self.infeasible(s): continue
            out.append((s, br))
        return out
    # ------------------------------------------------------------ joining control-flow paths
    def merge(self, items):
        """[(state, value or None)] -> fewer items, states that agree on everything structural are joined"""
        if len(items) < 2 or not self.merging: return items
        out = []
        for it in items:
            for i, o in enumerate(out):
                m = self.merge2(o, it)
                if m is not None: out[i] = m; break
            else: out.append(it)
        return out
    def mergeval(self, c, x, y):
        if x is y: return x
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if x.sort() != y.sort():
                if {x.sort(), y.sort()} == {Int, Real}: x, y = self.coerce(x, Real), self.coerce(y, Real)
                else: return None
            return _ite(c, x, y)
        if isinstance(x, P) and isinstance(y, P):
            cx = x.cls if x.cls != "null" else y.cls
            if not (x.cls == y.cls or "null" in (x.cls, y.cls) or (isinstance(x.cls, Shape) and isinstance(y.cls, Shape) and x.cls.key() == y.cls.key())): return None
            return P(_ite(c, x.t, y.t), cx)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            r = [self.mergeval(c, a, b) for a, b in zip(x, y)]
            return None if any(v is None for v in r) else tuple(r)
        if isinstance(x, Cont) and isinstance(y, Cont) and x.sh.key() == y.sh.key():
            return Cont(x.sh, {p: (a if a is y.leaf[p] else IteA(c, a, y.leaf[p])) for p, a in x.leaf.items()})
        if isinstance(x, Opq) and isinstance(y, Opq) and x.what == y.what and x.what in ("void", "str"): return x
        if isinstance(x, IterV) and isinstance(y, IterV) and self.samelv(x.c, y.c) and x.rev == y.rev:
            return IterV(x.c, _ite(c, x.pos, y.pos), x.rev)
        if isinstance(x, ObjL) and isinstance(y, ObjL) and x.cls == y.cls: return ObjL(_ite(c, x.t, y.t), x.cls)
        if isinstance(x, Lv) and isinstance(y, Lv) and self.samelv(x, y): return x
        return None
    def samelv(self, a, b):
        return isinstance(a, Lv) and isinstance(b, Lv) and a.root == b.root and a.path == b.path and len(a.idx) == len(b.idx) and all(i.eq(j) for i, j in zip(a.idx, b.idx))
    def samebind(self, x, y):
        if x is y: return True
        if isinstance(x, Lv) and isinstance(y, Lv): return self.samelv(x, y)
        if isinstance(x, ObjL) and isinstance(y, ObjL): return x.cls == y.cls and x.t.eq(y.t)
        if isinstance(x, PairL) and isinstance(y, PairL): return isinstance(x.k, P) and isinstance(y.k, P) and x.k.t.eq(y.k.t) and self.samelv(x.v, y.v)
        if isinstance(x, Opq) and isinstance(y, Opq): return x.what == y.what
        if isinstance(x, FnV) and isinstance(y, FnV): return x.name == y.name
        return False
    def merge2(self, A, B):
        s, x = A; t, y = B
        if len(s.frames) != len(t.frames) or len(s.js) != len(t.js): return None
        for k in set(s.ghost) | set(t.ghost):
            if s.ghost.get(k) is not t.ghost.get(k) and s.ghost.get(k) != t.ghost.get(k): return None
        for f, g in zip(s.frames, t.frames):
            if f.serial != g.serial: return None
            for k in f.vars:
                if k in g.vars and not self.samebind(f.vars[k], g.vars[k]): return None
        for k in set(s.meta) | set(t.meta):
            if isinstance(k, tuple) and k[0] == "guards":
                a, b = s.meta.get(k, ()), t.meta.get(k, ())
                if len(a) != len(b) or any(not self.samelv(u, v) for u, v in zip(a, b)): return None
        n = 0
        while n < len(s.pc) and n < len(t.pc) and s.pc[n].eq(t.pc[n]): n += 1
        ca = z3.And(*s.pc[n:]) if len(s.pc) - n > 1 else (s.pc[n] if len(s.pc) > n else z3.BoolVal(True))
        cb = z3.And(*t.pc[n:]) if len(t.pc) - n > 1 else (t.pc[n] if len(t.pc) > n else z3.BoolVal(True))
        if not self.disjoint(s.pc[n:], t.pc[n:]):
            # the two path conditions may overlap (a loop's early exits against its normal one, an unspecified choice):
            # which of the two states the run is in is a choice of its own, so neither state's facts leak into the other
            sel = z3.FreshConst(z3.BoolSort(), "sel")
            ca, cb = z3.And(sel, ca), z3.And(z3.Not(sel), cb)
        v = None
        if x is not None or y is not None:
            if x is None or y is None: return None
            v = self.mergeval(ca, x, y)
            if v is None: return None
        itm = {}
        for k in set(s.meta) | set(t.meta):
            if isinstance(k, tuple) and k[0] == "iter":
                a, b = s.meta.get(k), t.meta.get(k)
                if a is None or b is None: itm[k] = a or b; continue
                m = self.mergeval(ca, a, b)
                if m is None: return None
                itm[k] = m
        r = State(); r.js = s.js; r.ghost = s.ghost
        r.pc = s.pc[:n]
        orc = z3.simplify(z3.Or(ca, cb))
        if not z3.is_true(orc): r.pc.append(orc)
        m = 0
        while m < len(s.facts) and m < len(t.facts) and s.facts[m].eq(t.facts[m]): m += 1
        r.facts = s.facts[:m]
        ids = {f.get_id() for f in t.facts[m:]}
        ids2 = {f.get_id() for f in s.facts[m:]}
        for f in s.facts[m:]: r.facts.append(f if f.get_id() in ids else z3.Implies(ca, f))
        for f in t.facts[m:]:
            if f.get_id() not in ids2: r.facts.append(z3.Implies(cb, f))
        r.gens = {k: list(l) for k, l in s.gens.items()}
        for k, l in t.gens.items():
            o = r.gens.setdefault(k, [])
            for g in l:
                if g not in o: o.append(g)
        for k in set(s.mem) | set(t.mem):
            a, b = s.mem.get(k), t.mem.get(k)
            if a is None or b is None:
                root = k[0]
                if root[0] == "var": r.mem[k] = a or b; continue
                i = self.init_cell(k)
                a = a or i; b = b or i
            if a is b: r.mem[k] = a
            elif isinstance(a, ConstA) and isinstance(b, ConstA): r.mem[k] = ConstA(_ite(ca, a.v, b.v))
            else: r.mem[k] = IteA(ca, a, b)
        for k in set(s.meta) | set(t.meta):
            if k == "fresh":
                r.meta[k] = s.meta.get(k, ()) + tuple(x for x in t.meta.get(k, ()) if x not in s.meta.get(k, ())); continue
            if k in itm: r.meta[k] = itm[k]; continue
            a, b = s.meta.get(k), t.meta.get(k)
            if isinstance(k, tuple) and k[0] == "order":
                o = a or b
                if o is not None and r.mem.get((k[1][0], k[1][1] + ("dom",))) is o[0] and (a is None or b is None or a is b): r.meta[k] = o
                continue
            r.meta[k] = a if a is not None else b
        for f, g in zip(s.frames, t.frames):
            h = f.copy()
            for k, w in g.vars.items(): h.vars.setdefault(k, w)
            r.frames.append(h)
        return (r, v)
    merging = True
    def disjoint(self, a, b):
        neg = {z3.simplify(z3.Not(x)).get_id() for x in b}
        if any(z3.simplify(x).get_id() in neg for x in a): return True
        neg = {x.arg(0).get_id() for x in list(a) + list(b) if z3.is_not(x)}
        if any(x.get_id() in neg for x in list(a) + list(b)): return True
        sol = z3.Solver(); sol.set("timeout", 50)
        sol.add(*a); sol.add(*b)
        return str(sol.check()) == "unsat"
    def infeasible(self, s):
        sol = z3.Solver(); sol.set("timeout", 150)
        for f in s.pc: sol.add(f)
        for f in s.facts[-60:]: sol.add(f)
        return str(sol.check()) == "unsat"
    # ------------------------------------------------------------ construct expressions
    def e_CXXConstructExpr(self, st, n):
        sh = self.ty.shape(n["type"])
        args = [c for c in n.get("inner", ()) if c.get("kind") and c["kind"] != "CXXDefaultArgExpr"]
        if sh.cls == "thread" and args and self.ty.shape(args[0]["type"]).cls != "thread":
            h = self.hooks.get("spawn")
            if h is None: raise Unsupported("thread creation")
            return [(s, h(self, s, vs)) for s, vs in self.evlist(st, args)]
        if sh.k == "opaque" or sh.k in ("stream", "guard", "mutex"):
            r = self.evlist(st, args)
            return [(s, Opq(sh.cls or sh.k, *vs)) for s, vs in r]
        out = []
        for s, vs in self.evlist(st, args):
            out += self.build(s, sh, vs, n)
        return out
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def build(self, st, sh, vs, n):
        if sh.k == "obj":
            if len(vs) == 1 and isinstance(vs[0], (ObjL, P)) and self.ty.is_sub(getattr(vs[0], "cls", None) or "", sh.cls):
                # copy construction of an object
                if not [f for f in self.prog.byq.get(sh.cls + "::" + sh.cls.split("::")[-1], []) if len(f.params) == 1]:
                    return [(st, ObjL(vs[0].t, sh.cls))]
            return [(s, ObjL(p.t, p.cls)) for s, p in self.alloc(st, sh, vs, n)]
        if sh.k == "struct":
            if len(vs) == 1:
                v = self.rv(st, vs[0])
                if isinstance(v, tuple) and (len(v) == len(sh.args)): return [(st, v)]
                if isinstance(v, tuple) and len(v) > len(sh.args):
                    return [(st, v[:len(sh.args)])]     # slicing copy of a derived entry
            return self.build_struct(st, sh, vs, n)
        if sh.k == "iter":
            return [(st, self.rv(st, vs[0]))]
        if sh.k == "str":
            if not vs: return [(st, z3.Const("emptystr", Str))]
            v = self.rv(st, vs[0]); return [(st, v)]
        if sh.k in ("vec", "map", "mmap"):
            return [(st, self.cont_ctor(st, sh, vs))]
        if sh.k == "tup":
            if len(vs) == 1:
                v = self.rv(st, vs[0])
                if isinstance(v, tuple): return [(st, tuple(self.reshape(x, a) for x, a in zip(v, sh.args)))]
            if len(vs) == len(sh.args): return [(st, tuple(self.reshape(self.rv(st, v), a) for v, a in zip(vs, sh.args)))]
            if not vs: return [(st, tuple(self.wrap(a, sort_default(leaf_sort(a))) for a in sh.args))]
        if sh.k == "ptr":
            if not vs: return [(st, P(Null, sh.cls))]
            v = self.rv(st, vs[0])
            if isinstance(v, P): return [(st, P(v.t, sh.cls if sh.cls != "void" else v.cls))]
            if isinstance(v, Opq): raise Unsupported("pointer from " + v.what)
        if scalar(sh):
            if not vs: return [(st, sort_default(leaf_sort(sh)))]
            v = self.rv(st, vs[0])
            return [(st, self.coerce(self.t(v), leaf_sort(sh)) if not isinstance(v, P) else v)]
        raise Unsupported("construct %r with %d args" % (sh, len(vs)))
    def reshape(self, v, sh):
        if isinstance(v, P) and sh.k == "ptr": return P(v.t, sh.cls)
        return v
    def build_struct(self, st, sh, vs, n):
        """run the real constructor of a value struct on a temporary"""
        cls = sh.cls
        lv = self.var_lv(st, "tmp_" + cls.split("::")[-1], sh)
        for p, ix, s in leaves(sh): st.mem[(lv.root, p)] = ConstA(self.fresh(st, "uninit", s))
        outs = self.struct_ctor(st, lv, cls, vs)
        return [(s, self.read(s, lv)) for s in outs]
    def struct_ctor(self, st, lv, cls, vs):
        base = cls.split("::")[-1].split("<")[0]
        fs = [f for q, l in self.prog.byq.items() if q.split("::")[-1] == base and (q.startswith(cls + "::")) for f in l if f.kind == "CXXConstructorDecl" and len(f.params) == len(vs) and (f.body is not None)]
        if not fs: raise Unsupported("struct constructor " + cls)
        f = fs[0]
        self.called.add(f.qname)
        fr = Frame(f, None, cls, next(self.cnt), f.tu)
        st.frames.append(fr)
        for p, a in zip(f.params, vs): self.bind(st, fr, p, a)
        fl = [x[1] for x in self.ty.allfields(lv.sh.cls)]
        sts = [st]
        for ini in f.inits:
            nxt = []
            for s in sts:
                e = ini["inner"][0]
                if "anyInit" in ini:
                    i = fl.index(ini["anyInit"]["name"])
                    for s2, v in self.ev(s, e):
                        self.write(s2, lv.sub((i,), lv.sh.args[i]), self.rv(s2, v)); nxt.append(s2)
                else:
                    b = self.ty.cname(ini["baseInit"].get("desugaredQualType") or ini["baseInit"]["qualType"])
                    for s2, args in self.evlist(s, deref_casts(e).get("inner", [])):
                        nxt += self.struct_ctor(s2, lv, b, args)
            sts = nxt
        out = []
        for s in sts:
            for s2, sig in self.ex(s, f.body):
                s2.frames.pop(); out.append(s2)
        return out
    def e_InitListExpr(self, st, n):
        sh = self.ty.shape(n["type"])
        out = []
        for s, vs in self.evlist(st, [c for c in n.get("inner", ()) if c.get("kind")]):
            if not vs and sh.k in ("vec", "map"): out.append((s, empty_cont(sh)))
            elif len(vs) == 1 and scalar(sh): out.append((s, self.rv(s, vs[0])))
            else: out += self.build(s, sh, vs, n)
        return out
    def e_CXXStdInitializerListExpr(self, st, n): raise Unsupported("initializer list")
    def e_LambdaExpr(self, st, n):
        rec = n["inner"][0]
        op = next(c for c in rec["inner"] if c.get("kind") in ("CXXMethodDecl", "FunctionTemplateDecl") and c.get("name") == "operator()")
        if op["kind"] != "CXXMethodDecl": raise Unsupported("generic lambda")
        body = [c for c in op.get("inner", ()) if c.get("kind") == "CompoundStmt"]
        params = [c for c in op.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        fr = st.frames[-1]; vs = dict(fr.vars)
        for fld in (c for c in rec["inner"] if c.get("kind") == "FieldDecl"):
            # a copy capture freezes the value: the captured variables are found by name
            t = fld["type"].get("desugaredQualType") or fld["type"]["qualType"]
            if not t.rstrip().endswith(("&", "*")) and not self.ty.shape(fld["type"]).k in ("obj", "opaque"): raise Unsupported("lambda capturing by copy")
        return [(st, LamV(params, body[0], vs, fr.this, fr.thiscls, fr.tu))]
    def call_lam(self, st, l, args):
        fr = Frame(None, l.this, l.thiscls, next(self.cnt), l.tu); fr.vars = dict(l.vars)
        st.frames.append(fr); base = len(st.frames)
        for p, a in zip(l.params, args): self.bind(st, fr, p, a)
        res = []
        for s, sig in self.ex(st, l.body):
            s.frames.pop()
            if sig.k == RET: res.append((s, self.rv(s, sig.v) if sig.v is not None else VOIDV))
            elif sig.k == NORMAL: res.append((s, VOIDV))
            else: self.throwq.append((s, sig))
        return self.merge(res)
    # ------------------------------------------------------------ calls
    def args_of(self, st, ns, f=None):
        return self.evlist(st, [a for a in ns if a.get("kind") != "CXXDefaultArgExpr"])
    def e_CXXMemberCallExpr(self, st, n):
        callee = n["inner"][0]; argn = n["inner"][1:]
        out = []
        for s, b in self.ev(st, deref_casts(callee) if callee["kind"] == "ParenExpr" else callee):
            for s2, args in self.args_of(s, argn):
                if isinstance(b, tuple) and b and b[0] == "bound":
                    out += self.member_call(s2, b[1], b[2], args, n, callee)
                elif isinstance(b, tuple) and b and b[0] == "stdbound":
                    out += self.std_method(s2, b[1], b[2], args, n)
                else: raise Unsupported("call of %r" % (b,))
        return out
    def member_call(self, st, base, mangled, args, n, callee):
        f = self.resolve(mangled)
        o = self.objterm(st, base)
        if isinstance(base, Lv) and base.sh.k == "struct":
            return self.struct_call(st, base, f, args, n)
        if o is None: raise Unsupported("object of call to " + f.qname)
        cls = base.cls if isinstance(base, (P, ObjL)) else f.cls
        explicit = self.is_qualified(callee)
        if f.virtual and not explicit:
            dyn = None
            fr = st.frames[-1]
            if fr.exact and fr.this is not None and o.eq(fr.this): dyn = fr.exact
            else: dyn = self.dyn_of(o, cls, f.cls)
            g = self.dispatch(f, dyn)
            # a summary registered for the static (interface) name stands for any overrider
            if f.qname in self.summaries and g.qname not in self.summaries and f.pure:
                g = f
            f = g
            if f.pure and f.qname not in self.summaries: raise Unsupported("pure virtual " + f.qname)
        return self.call(st, f, P(o, f.cls if not f.virtual else (self.dyn_of(o, cls, f.cls) or f.cls)), args, n)
    def dyn_of(self, o, cls, scls):
        for c in (cls, scls):
            if c in self.family: return self.family[c]
        for c in (cls, scls):
            if not isinstance(c, str) or c not in self.prog.classes: continue
            for K, V in self.family.items():
                if V in self.prog.classes and self.ty.is_sub(V, c) and self.ty.is_sub(c, K): return V
        return cls if isinstance(cls, str) and cls in self.prog.classes else scls
    def is_qualified(self, callee):
        c = callee
        while c["kind"] != "MemberExpr": c = c["inner"][0]
        # clang JSON has no qualifier; a qualified call to a virtual is not 'virtual' dispatched.  Recover from the source text.
        r = c.get("range", {})
        b, e = r.get("begin", {}), r.get("end", {})
        ln = c.get("_line"); 
        f = c.get("_file")
        off_b = (b.get("expansionLoc") or b).get("offset"); off_e = (e.get("expansionLoc") or e).get("offset"); tl = (e.get("expansionLoc") or e).get("tokLen", 0)
        txt = self.text(f, off_b, off_e, tl)
        if txt is None: return False
        return re.search(r"::\s*(template\s+)?~?\w+\s*(<.*>)?$", txt) is not None
    filecache = {}
    def text(self, f, b, e, tl):
        if f is None or b is None or e is None: return None
        if f not in self.filecache:
            try: self.filecache[f] = open(f if f.startswith("/") else astload.REPO + "/" + f, "rb").read()
            except OSError: self.filecache[f] = b""
        return self.filecache[f][b:e + tl].decode("utf8", "replace")
    def struct_call(self, st, lv, f, args, n):
        raise Unsupported("method on value struct " + f.qname)
    def e_CallExpr(self, st, n):
        callee = n["inner"][0]; argn = n["inner"][1:]
        out = []
        c = deref_casts(callee)
        for s, b in self.ev(st, callee):
            for s2, args in self.args_of(s, argn):
                bb = b
                if isinstance(bb, Lv): bb = self.rv(s2, bb)
                if isinstance(bb, FnV):
                    if bb.mangled and bb.mangled in self.prog.funcs and self.prog.funcs[bb.mangled].body is not None or bb.name in self.summaries:
                        if bb.mangled and bb.mangled in self.prog.funcs: out += self.call(s2, self.prog.funcs[bb.mangled], None, args, n)
                        else: out += self.summaries[bb.name](self, s2, None, args, n)
                    else: out += self.std_call(s2, bb.name, args, n)
                elif isinstance(bb, z3.ExprRef): out += self.fnptr_call(s2, bb, args, n)
                else: raise Unsupported("callee %r" % (bb,))
        return out
    def fnptr_call(self, st, f, args, n):
        sh = self.ty.shape(n["type"])
        ts = [self.t(self.rv(st, a)) if not isinstance(a, ObjL) else a.t for a in args]
        u = self.uf("apply_%s" % sh.key(), *([Int] + [t.sort() for t in ts] + [leaf_sort(sh)]))
        r = u(f, *ts)
        if sh.k == "ptr":
            self.assume(st, z3.And(r != Null, self.uf("born", Ref, Int)(r) <= 0))
        return [(st, self.wrap(sh, r))]
    # std library -------------------------------------------------
    def std_call(self, st, nm, args, n):
        R = lambda i: self.t(self.rv(st, args[i]))
        rr = lambda i: self.coerce(R(i), Real)
        if nm in ("make_shared", "make_unique"):
            sh = self.ty.shape(n["type"])
            p = sh.cls
            if isinstance(p, str):
                return self.alloc(st, Shape("obj", (), p), args, n)
            return self.alloc(st, p, args, n)
        if nm in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "reinterpret_pointer_cast"):
            sh = self.ty.shape(n["type"]); v = self.rv(st, args[0])
            return [(st, P(self.t(v), sh.cls if sh.cls != "void" else v.cls))]
        if nm in ("make_pair", "make_tuple"):
            return [(st, tuple(self.rv(st, a) for a in args))]
        if nm in ("move", "forward", "as_const", "ref", "cref"): return [(st, args[0])]
        if nm == "exp": return [(st, exp_(rr(0)))]
        if nm in ("log",): return [(st, log_(rr(0)))]
        if nm == "log1p": return [(st, log_(1 + rr(0)))]
        if nm == "sqrt": return [(st, sqrt_(rr(0)))]
        if nm == "pow":
            b = z3.simplify(rr(1))
            if z3.is_rational_value(b) and b.as_fraction() in (1, 2): return [(st, rr(0) if b.as_fraction() == 1 else rr(0) * rr(0))]
            return [(st, pow_(rr(0), rr(1)))]
        if nm in ("abs", "fabs"):
            t = R(0)
            if t.sort() == Real: return [(st, abs_(t))]
            return [(st, z3.If(t >= 0, t, -t))]
        if nm in ("max", "min", "fmax", "fmin") and len(args) == 2:
            a, b = R(0), R(1)
            if a.sort() != b.sort(): a, b = self.coerce(a, Real), self.coerce(b, Real)
            return [(st, z3.If(a < b, b, a) if nm.endswith("max") else z3.If(b < a, b, a))]
        if nm == "clamp":
            a, l, h = R(0), R(1), R(2)
            return [(st, z3.If(a < l, l, z3.If(h < a, h, a)))]
        if nm == "swap":
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            self.assign(st, args[0], b); self.assign(st, args[1], a)
            return [(st, VOIDV)]
        if nm in ("infinity", "lowest", "max", "min", "epsilon", "quiet_NaN"):
            sh = self.ty.shape(n["type"])
            if sh.k == "real":
                v = {"infinity": INF, "lowest": LOWEST, "max": -LOWEST, "epsilon": z3.RealVal("1/4503599627370496")}.get(nm)
                if v is None: v = z3.Real("lim_" + nm)
                return [(st, v)]
            return [(st, z3.IntVal({"lowest": INT_LOWEST, "min": INT_LOWEST, "max": INT_MAX}.get(nm, 0)))]
        if nm == "now":
            t = self.fresh(st, "now", Real)
            h = self.hooks.get("now")
            if h: h(self, st, t)
            return [(st, t)]
        if nm == "zero": return [(st, z3.RealVal(0))]
        if nm == "get":
            return self.std_get(st, args, n)
        if nm in ("begin", "end", "cbegin", "cend"): return self.std_method(st, args[0], nm, [], n)
        if nm == "size": return self.std_method(st, args[0], nm, [], n)
        if nm in ("isnan", "isinf"): return [(st, z3.BoolVal(False))]
        if nm in ("next", "prev", "advance"):
            it = self.rv(st, args[0]); k = R(1) if len(args) > 1 else z3.IntVal(1)
            if isinstance(it, IterV): return [(st, IterV(it.c, it.pos + k if nm != "prev" else it.pos - k, it.rev))]
        if nm in ("to_string", "flush", "endl", "sleep_for", "this_thread"):
            return [(st, Opq("str"))]
        raise Unsupported("std function " + nm)
    def std_get(self, st, args, n):
        f = deref_casts(n["inner"][0]); t = f.get("type", {})
        m = re.search(r"tuple_element(?:_t)?<(\d+)", (t.get("qualType") or "") + " " + (t.get("desugaredQualType") or ""))
        if not m: raise Unsupported("std::get")
        i = int(m.group(1)); v = args[0]
        if isinstance(v, PairL): return [(st, (v.k, v.v)[i])]
        if isinstance(v, Lv) and v.sh.k == "tup": return [(st, v.sub((i,), v.sh.args[i]))]
        if isinstance(v, tuple): return [(st, v[i])]
        raise Unsupported("std::get")
    def e_CXXOperatorCallExpr(self, st, n):
        f = n["inner"][0]; argn = n["inner"][1:]
        r = deref_casts(f).get("referencedDecl", {})
        nm = r.get("name", "")
        k = self.prog.idmap.get((st.frames[-1].tu, r.get("id")))
        out = []
        if nm == "operator=" and len(argn) == 2:
            for s, v in self.ev(st, argn[1]):
                v = self.rv(s, v)
                for s2, lv in self.ev(s, argn[0]):
                    if isinstance(lv, Lv) and isinstance(v, P) and lv.sh.k == "ptr": v = P(v.t, lv.sh.cls)
                    if isinstance(v, Opq) or isinstance(lv, Opq):
                        if isinstance(lv, Lv) and lv.sh.k == "str": v = self.fresh(s2, "str", Str)
                        else: out.append((s2, lv)); continue
                    self.assign(s2, lv, v); out.append((s2, lv))
            return out
        for s, args in self.evlist(st, argn):
            if k is None and nm == "operator==" and self.hooks.get("value_eq"):
                g = [f for t, f in self.prog.free_eq if t.replace("thts::", "").replace("std::", "") == r.get("type", {}).get("qualType", "").replace("thts::", "").replace("std::", "")]
                if len(g) == 1: out += self.call(s, g[0], None, args, n); continue
            if k and k[0] == "func" and k[1] in self.prog.funcs and self.prog.funcs[k[1]].body is not None and self.prog.funcs[k[1]].cls is None and nm == "operator()":
                out += self.call(s, self.prog.funcs[k[1]], None, args[1:], n); continue       # functor specialisation
            if k and k[0] == "func" and k[1] in self.prog.funcs and self.prog.funcs[k[1]].body is not None and nm not in ("operator<<",):
                g = self.prog.funcs[k[1]]
                if g.kind == "CXXMethodDecl":
                    b = args[0]
                    out += self.member_call(s, b, k[1], args[1:], n, n)
                else: out += self.call(s, g, None, args, n)
                continue
            out += self.std_op(s, nm[8:], args, n)
        return out
    def std_op(self, st, op, args, n):
        a = args[0]
        if op == "->":
            v = self.rv(st, a)
            if isinstance(v, IterV): return [(st, v)]
            if isinstance(v, P):
                if isinstance(v.cls, Shape): return [(st, self.heap_lv(v.cls, v.t))]
                return [(st, v)]
            raise Unsupported("operator-> on %r" % (v,))
        if op == "*" and len(args) == 1: return [(st, self.deref(st, a))]
        if op == "[]":
            if not isinstance(a, Lv): raise Unsupported("subscript of rvalue")
            if a.sh.k == "vec":
                i = self.t(self.rv(st, args[1]))
                if self.access_check: self.access_check(self, st, a, False)
                return [(st, self.vec_elem(st, a, i))]
            if a.sh.k == "map":
                kx = self.keyterm(a.sh.args[0], self.rv(st, args[1]))
                if self.access_check: self.access_check(self, st, a, True)
                self.map_dom_fact(st, a, kx)
                self.map_touch(st, a, kx)
                return [(st, self.map_val(a, kx))]
            raise Unsupported("subscript of " + repr(a.sh))
        if op == "<=>": return [(st, Opq("cmp", self.rv(st, args[0]), self.rv(st, args[1])))]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(args[0], Opq) and args[0].what == "cmp": return [(st, self.binop(st, op, *args[0].args))]
            if isinstance(args[1], Opq) and args[1].what == "cmp": return [(st, self.binop(st, op, *reversed(args[1].args)))]
            x, y = self.rv(st, args[0]), self.rv(st, args[1])
            return [(st, self.binop(st, op, x, y))]
        if op in ("++", "--"):
            it = self.rv(st, a)
            if isinstance(it, IterV):
                new = IterV(it.c, z3.simplify(it.pos + 1) if op == "++" else z3.simplify(it.pos - 1), it.rev)
                self.write(st, a, new)
                return [(st, it if len(args) > 1 else a)]
            t = self.t(it)
            one = z3.RealVal(1) if t.sort() == Real else z3.IntVal(1)
            self.assign(st, a, t + one if op == "++" else t - one)
            return [(st, a)]
        if op in ("+=", "-=", "*=", "/=") :
            if isinstance(a, Opq): return [(st, a)]
            old = self.rv(st, a)
            v = self.rv(st, args[1])
            if isinstance(v, Opq) or isinstance(old, Opq): return [(st, a)]
            self.assign(st, a, self.binop(st, op[0], old, v))
            return [(st, a)]
        if op in ("+", "-", "*", "/"):
            x, y = self.rv(st, args[0]), self.rv(st, args[1])
            if isinstance(x, Opq) or isinstance(y, Opq): return [(st, Opq("str"))]
            return [(st, self.binop(st, op, x, y))]
        if op in ("<<", ">>"):
            h = self.hooks.get("out")
            if h and op == "<<" and (isinstance(a, Opq) and a.what in ("stream", "os") or isinstance(a, Lv) and a.sh.k == "stream"):
                h(self, st, a, args[1]); return [(st, a)]
            return [(st, a if not isinstance(a, (z3.ExprRef,)) else Opq("stream"))]
        if op == "()" :
            if isinstance(a, Lv) and a.sh.k == "tup" and str(a.sh.cls).startswith("uniform_"):
                lo, hi = self.rv(st, a)
                h = self.hooks.get("draw")
                if a.sh.cls == "uniform_int":
                    self.oblige(st, lo <= hi, "uniform integer distribution has a non-empty range")
                    r = self.fresh(st, "draw", Int); self.assume(st, z3.And(lo <= r, r <= hi))
                else:
                    self.oblige(st, lo < hi, "uniform real distribution has a non-empty range")
                    r = self.fresh(st, "draw", Real); self.assume(st, z3.And(lo <= r, r < hi))
                if h: h(self, st, a.sh.cls, r)
                return [(st, r)]
            if isinstance(a, LamV): return self.call_lam(st, a, args[1:])
            what = a.what if isinstance(a, Opq) else a.sh.cls if isinstance(a, Lv) and a.sh.k == "opaque" else None
            if what == "hash" and len(args) == 2:
                x = self.rv(st, args[1])
                if isinstance(x, P): return [(st, self.uf("std_hash_address", Ref, Int)(x.t))]      # no specialisation applies: hashes the address
                if isinstance(x, (Opq, tuple)): raise Unsupported("std::hash of %r" % (x,))
                return [(st, self.uf("std_hash_%s" % x.sort(), x.sort(), Int)(x))]
            raise Unsupported("call operator")
        raise Unsupported("operator" + op)
    def std_method(self, st, b, nm, args, n):
        if isinstance(b, ObjL) or isinstance(b, P):
            if nm in ("shared_from_this", "weak_from_this"):
                return [(st, P(b.t, b.cls))]
            if nm in ("get",): return [(st, P(self.t(b), b.cls))]
            if nm == "operator bool": return [(st, self.t(b) != Null)]
            if isinstance(b, P) and isinstance(b.cls, Shape): b = self.heap_lv(b.cls, b.t)
            elif nm in ("lock",) : return [(st, P(z3.If(self.uf("expired", Ref, Bool)(b.t), Null, b.t), b.cls))]      # only a weak_ptr has lock()
            else: raise Unsupported("method %s on object" % nm)
        if isinstance(b, Opq):
            return self.opq_method(st, b, nm, args, n)
        if isinstance(b, z3.ExprRef):
            if nm == "count": return [(st, b)]
            raise Unsupported("method %s on scalar" % nm)
        if isinstance(b, Cont):
            lv = self.var_lv(st, "tmp", b.sh); self.write(st, lv, b); b = lv
        if not isinstance(b, Lv): raise Unsupported("method %s on %r" % (nm, b))
        k = b.sh.k
        if k == "real" and nm == "count": return [(st, self.rv(st, b))]
        if b.sh.cls == "thread":
            h = self.hooks.get(("thread", nm))
            if h is None: raise Unsupported("thread." + nm)
            return h(self, st, b, args)
        if k == "ptr":
            v = self.rv(st, b)
            if nm == "get": return [(st, v)]
            if nm == "lock": return [(st, P(z3.If(self.uf("expired", Ref, Bool)(v.t), Null, v.t), v.cls))]
            if nm == "expired": return [(st, z3.Or(v.t == Null, self.uf("expired", Ref, Bool)(v.t)))]
            if nm == "operator bool": return [(st, v.t != Null)]
            if nm == "reset":
                self.assign(st, b, P(Null, v.cls) if not args else self.rv(st, args[0])); return [(st, VOIDV)]
            raise Unsupported("method %s on pointer" % nm)
        if k == "mutex":
            h = self.hooks.get(nm)
            if nm == "lock": self.mutex_lock(st, b); return [(st, VOIDV)]
            if nm == "unlock": self.mutex_unlock(st, b); return [(st, VOIDV)]
            raise Unsupported("mutex." + nm)
        if k in ("opaque", "stream", "str", "guard"):
            return self.opq_method(st, Opq(b.sh.cls or k, b), nm, args, n)
        if self.access_check:
            self.access_check(self, st, b, nm in ("push_back", "pop_back", "insert", "insert_or_assign", "erase", "clear", "emplace_back", "emplace"))
        if k == "vec": return self.vec_method(st, b, nm, args, n)
        if k == "map": return self.map_method(st, b, nm, args, n)
        if k == "mmap": return self.mmap_method(st, b, nm, args, n)
        raise Unsupported("method %s on %s" % (nm, k))
    def mmap_method(self, st, b, nm, args, n):
        """multimap whose mapped values are pairwise distinct (obliged): mapped value -> key"""
        if nm in ("insert", "emplace"):
            v = self.rv(st, args[0])
            q, a = v if len(args) == 1 else (v, self.rv(st, args[1]))
            if len(args) == 1 and not isinstance(v, tuple): raise Unsupported("multimap insert of %r" % (v,))
            a = self.coerce(self.t(a), leaf_sort(b.sh.args[1]))
            self.oblige(st, z3.Not(self.leafat(st, b, ("dom",), (a,))), "an entry is inserted into a multimap once")
            self.setleaf(st, b, ("dom",), (a,), z3.BoolVal(True))
            self.setleaf(st, b, ("val",), (a,), self.coerce(self.t(q), leaf_sort(b.sh.args[0])))
            self.setleaf(st, b, ("n",), (), self.leafat(st, b, ("n",)) + 1)
            return [(st, Opq("iterator"))]
        if nm in ("size", "empty"):
            self.map_order(st, b); sz = self.leafat(st, b, ("n",))
            return [(st, sz if nm == "size" else sz == 0)]
        if nm in ("begin", "cbegin", "rbegin", "crbegin"): self.map_order(st, b); return [(st, IterV(b, z3.IntVal(0), "r" in nm[:2]))]
        if nm in ("end", "cend", "rend", "crend"): self.map_order(st, b); return [(st, IterV(b, self.leafat(st, b, ("n",)), "r" in nm[:2]))]
        if nm in ("find", "lower_bound"):
            q = self.coerce(self.t(self.rv(st, args[0])), leaf_sort(b.sh.args[0]))
            ordA, idxA, domv, sz = self.map_order(st, b)
            val = self.cell(st, b.root, b.path + ("val",)).curry(b.idx)
            p = self.fresh(st, "found", Int); v0 = val.sel((ordA.sel((p,)),))
            self.assume(st, z3.And(0 <= p, p <= sz))
            if nm == "find": self.assume(st, z3.Implies(p < sz, v0 == q))
            else: self.assume(st, z3.Implies(p < sz, v0 >= q))
            def g(a, p=p, q=q, nm=nm):          # libstdc++: the first of the entries with that key
                x = a[-1]; i = idxA.sel((x,))
                if nm == "find": return [z3.Implies(z3.And(domv.sel((x,)), val.sel((x,)) == q), p <= i)]
                return [z3.Implies(domv.sel((x,)), (val.sel((x,)) >= q) == (p <= i))]
            if not st.js: st.gens.setdefault(idxA.decl.name(), []).append(g)
            self.mm_anchor(st, b, p)
            return [(st, IterV(b, p))]
        if nm == "erase":
            v = self.rv(st, args[0])
            if isinstance(v, IterV) and not v.rev:
                ordA, idxA, domv, sz = self.map_order(st, b)
                self.oblige(st, z3.And(0 <= v.pos, v.pos < sz), "erase of a valid iterator")
                self.map_erase(st, b, ordA.sel((v.pos,))); return [(st, VOIDV)]
        if nm == "clear": self.write(st, b, empty_cont(b.sh)); return [(st, VOIDV)]
        raise Unsupported("multimap.%s" % nm)
    def opq_method(self, st, b, nm, args, n):
        h = self.hooks.get(("method", b.what, nm))
        if h: return h(self, st, b, args, n)
        if b.what == "guard" or b.what in ("unique_lock", "lock_guard"):
            lv = self.guard_mutex(b)
            if nm == "lock": self.mutex_lock(st, lv); return [(st, VOIDV)]
            if nm == "unlock": self.mutex_unlock(st, lv); return [(st, VOIDV)]
            if nm in ("owns_lock", "operator bool"): return [(st, self.leafat(st, lv, ("held",)))]
        if b.what in ("condition_variable_any", "condition_variable"):
            if nm in ("notify_all", "notify_one"):
                h = self.hooks.get("notify")
                if h is None: raise Unsupported("notify")
                h(self, st, b.args[0], nm); return [(st, VOIDV)]
            if nm == "wait": return self.cv_wait(st, b.args[0], args)
        if nm in ("str",): return [(st, Opq("str"))]
        if nm in ("flush", "precision", "reserve"): return [(st, VOIDV)]
        raise Unsupported("method %s on %s" % (nm, b.what))
    def vec_method(self, st, b, nm, args, n):
        if nm in ("size", "empty") and b.sh.args[0].k in ("ptr", "int"):
            for x in self.skolems:
                if x.sort() == leaf_sort(b.sh.args[0]): self.assume(st, self.vec_wf_mem(st, b, x))
        if nm == "size": return [(st, self.vec_len(st, b))]
        if nm == "empty": return [(st, self.vec_len(st, b) == 0)]
        if nm in ("push_back",): self.vec_push(st, b, self.rv(st, args[0])); return [(st, VOIDV)]
        if nm == "emplace_back":
            e = b.sh.args[0]
            out = []
            for s, v in self.build(st, e, args, n):
                self.vec_push(s, b, v); out.append((s, VOIDV))
            return out
        if nm == "pop_back": self.vec_pop(st, b); return [(st, VOIDV)]
        if nm in ("reserve", "shrink_to_fit"): return [(st, VOIDV)]
        if nm == "back":
            l = self.vec_len(st, b)
            return [(st, self.vec_elem(st, b, z3.simplify(l - 1), what="back() of a non-empty vector"))]
        if nm == "front": return [(st, self.vec_elem(st, b, z3.IntVal(0), what="front() of a non-empty vector"))]
        if nm == "at":
            i = self.t(self.rv(st, args[0])); l = self.vec_len(st, b)
            out = []
            for s, ok in self.split(st, z3.And(0 <= i, i < l)):
                if ok: out.append((s, self.vec_elem(s, b, i, check=False)))
                else: self.throwq.append((s, Sig(THROW, "out_of_range")))
            return out
        if nm == "clear": self.write(st, b, empty_cont(b.sh)); return [(st, VOIDV)]
        if nm in ("begin", "cbegin"): return [(st, IterV(b, z3.IntVal(0)))]
        if nm in ("end", "cend"): return [(st, IterV(b, self.vec_len(st, b)))]
        if nm in ("rbegin", "crbegin"): return [(st, IterV(b, z3.IntVal(0), True))]
        if nm in ("rend", "crend"): return [(st, IterV(b, self.vec_len(st, b), True))]
        raise Unsupported("vector." + nm)
    def map_method(self, st, b, nm, args, n):
        ksh = b.sh.args[0]
        K = lambda i=0: self.keyterm(ksh, self.rv(st, args[i]))
        if nm in ("size", "empty"):
            for x in self.skolems:
                if x.sort() == leaf_sort(ksh): self.map_dom_fact(st, b, x)
        if nm == "size":
            self.map_order(st, b)
            return [(st, self.leafat(st, b, ("n",)))]
        if nm == "empty":
            self.map_order(st, b)
            return [(st, self.leafat(st, b, ("n",)) == 0)]
        if nm in ("begin", "cbegin"): self.map_order(st, b); return [(st, IterV(b, z3.IntVal(0)))]
        if nm in ("end", "cend"): self.map_order(st, b); return [(st, IterV(b, self.leafat(st, b, ("n",))))]
        if nm == "find":
            k = K(); ordA, idxA, domv, sz = self.map_order(st, b)
            p = z3.If(domv.sel((k,)), idxA.sel((k,)), sz)
            self.map_dom_fact(st, b, k)
            st.meta[("findkey", p.get_id())] = k; st.meta[("keep", p.get_id())] = p
            it = IterV(b, p)
            return [(st, it)]
        if nm in ("count", "contains"):
            k = K(); self.map_dom_fact(st, b, k)
            d = self.map_dom(st, b, k)
            return [(st, d if nm == "contains" else z3.If(d, z3.IntVal(1), z3.IntVal(0)))]
        if nm == "at":
            k = K(); self.map_dom_fact(st, b, k)
            d = self.map_dom(st, b, k)
            out = []
            for s, ok in self.split(st, d):
                if ok: out.append((s, self.map_val(b, k)))
                else: self.throwq.append((s, Sig(THROW, "out_of_range")))
            return out
        if nm in ("insert_or_assign",):
            self.map_put(st, b, K(), self.reshape(self.rv(st, args[1]), b.sh.args[1])); return [(st, VOIDV)]
        if nm in ("emplace", "try_emplace") and len(args) == 2:
            self.map_put(st, b, K(), self.rv(st, args[1]), overwrite=False); return [(st, VOIDV)]
        if nm in ("insert", "emplace") and len(args) == 1:
            v = self.rv(st, args[0])
            if b.sh.cls in ("set", "oset"):
                self.map_put(st, b, self.keyterm(ksh, v), z3.BoolVal(True)); return [(st, VOIDV)]
            if isinstance(v, tuple):
                self.map_put(st, b, self.keyterm(ksh, v[0]), v[1], overwrite=False); return [(st, VOIDV)]
        if nm == "erase":
            v = self.rv(st, args[0])
            if isinstance(v, IterV):
                ordA, idxA, domv, sz = self.map_order(st, b)
                k = st.meta.get(("findkey", v.pos.get_id())) 
                if k is None: k = ordA.sel((v.pos,))
                self.oblige(st, z3.And(0 <= v.pos, v.pos < sz), "erase of a valid iterator")
            else: k = self.keyterm(ksh, v)
            self.map_erase(st, b, k); return [(st, VOIDV)]
        if nm == "clear": self.write(st, b, empty_cont(b.sh)); return [(st, VOIDV)]
        if nm in ("reserve", "rehash"): return [(st, VOIDV)]
        raise Unsupported("unordered_map." + nm)
    # ------------------------------------------------------------ locks
    def mutex_lock(self, st, lv):
        h = self.hooks.get("prelock")
        if h: h(self, st, lv)
        held = self.leafat(st, lv, ("held",))
        self.oblige(st, z3.Not(held), "lock not already held by this thread", kind="lock", props=("C05", "C06"))
        self.setleaf(st, lv, ("held",), (), z3.BoolVal(True))
        h = self.hooks.get("acquire")
        if h: h(self, st, lv)
    def mutex_unlock(self, st, lv):
        h = self.hooks.get("release")
        if h: h(self, st, lv)
        held = self.leafat(st, lv, ("held",))
        self.oblige(st, held, "unlock of a held lock", kind="lock", props=("C05",))
        self.setleaf(st, lv, ("held",), (), z3.BoolVal(False))
    def guard_mutex(self, v):
        while isinstance(v, Opq) and v.args: v = v.args[0]
        if isinstance(v, Lv) and v.sh.k == "mutex": return v
        raise Unsupported("guard argument")
    def cv_wait(self, st, cv, args):
        """one wake-up of wait(); with a predicate: while (!pred) wait"""
        h = self.hooks.get("wait")
        if h is None: raise Unsupported("condition variable wait")
        m = self.guard_mutex(args[0])
        def once(s):
            self.oblige(s, self.leafat(s, m, ("held",)), "a condition is waited for with its mutex held", kind="lock", props=("C05",))
            h(self, s, cv, m, 0)
            h2 = self.hooks.get("release")
            if h2: h2(self, s, m)
            h2 = self.hooks.get("acquire")
            if h2: h2(self, s, m)
            h(self, s, cv, m, 1)
        if len(args) == 1: once(st); return [(st, VOIDV)]
        if not isinstance(args[1], LamV): raise Unsupported("wait predicate")
        from . import loops
        def body_fn(s, j, L):
            res = []
            for s2, v in self.call_lam(s, args[1], []):
                for s3, br in self.split(s2, self.asbool(s2, v)):
                    if br: res.append((s3, Sig("exit")))
                    else: once(s3); res.append((s3, N_))
            return res
        out = loops.run_loop(self, st, "wait", body_fn, space=None, exit_fn=True)
        if any(sig.k != NORMAL for _, sig in out): raise Unsupported("wait predicate throws")
        return [(s, VOIDV) for s, _ in out]
    # ------------------------------------------------------------ statements
    def ex(self, st, n):
        """execute a statement -> [(state, signal)]; throws raised below are collected"""
        saved, self.throwq = self.throwq, []
        base = len(st.frames)
        try:
            try:
                m = getattr(self, "s_" + n["kind"], None)
                if m is not None: r = m(st, n)
                else: r = [(s, N_) for s, _ in self.ev(st, n)]
            except _Throw as t:
                # a throw expression: the state at the throw
                while len(t.st.frames) > base: t.st.frames.pop()
                r = [(t.st, Sig(THROW, "throw"))]
            for s, sig in self.throwq:
                while len(s.frames) > base: s.frames.pop()
            return r + self.throwq
        finally:
            self.throwq = saved
    def s_NullStmt(self, st, n): return [(st, N_)]
    def s_CXXThrowExpr(self, st, n): return [(st, Sig(THROW, "throw"))]
    def s_ExprWithCleanups(self, st, n):
        if deref_casts(n)["kind"] == "CXXThrowExpr": return [(st, Sig(THROW, "throw"))]
        return [(s, N_) for s, _ in self.ev(st, n)]
    def s_CompoundStmt(self, st, n):
        gk = ("guards", st.frames[-1].serial)
        depth0 = len(st.meta.get(gk, ()))
        cur = [(st, N_)]
        for c in n.get("inner", ()):
            nxt = []
            for s, sig in cur:
                if sig.k != NORMAL: nxt.append((s, sig))
                else: nxt += self.ex(s, c)
            cur = nxt
        # RAII: destructors of the guards declared in this scope
        for s, sig in cur:
            gs = s.meta.get(gk, ())
            if len(gs) > depth0:
                if sig.k == RET and sig.v is not None and not self.ret_is_ref(s):
                    sig.v = self.rv(s, sig.v)
                for lv, kind in reversed(gs[depth0:]):
                    if kind == "unique_lock":
                        hd = self.leafat(s, lv, ("held",))
                        if z3.is_false(z3.simplify(hd)): continue
                        if not z3.is_true(z3.simplify(hd)):
                            if self.pv.prove(s.facts + s.pc, s.gens, z3.Not(hd), 2000)[0] == "proved": continue
                            if self.pv.prove(s.facts + s.pc, s.gens, hd, 2000)[0] != "proved": raise Unsupported("unique_lock of unknown state at scope end")
                    self.mutex_unlock(s, lv)
                s.meta[gk] = gs[:depth0]
        return cur
    def ret_is_ref(self, st):
        f = st.frames[-1].fn
        return f is not None and f.rtype.split("(")[0].strip().endswith("&")
    def s_DeclStmt(self, st, n):
        cur = [(st, N_)]
        for d in n["inner"]:
            if d["kind"] in ("TypedefDecl", "UsingDecl", "TypeAliasDecl", "UsingDirectiveDecl", "StaticAssertDecl"): continue
            nxt = []
            if d["kind"] == "DecompositionDecl":
                from . import loops
                ini = [c for c in d["inner"] if c.get("kind") and c["kind"] != "BindingDecl"]
                for s, sig in cur:
                    if sig.k != NORMAL: nxt.append((s, sig)); continue
                    for s2, v in self.ev(s, ini[0]): loops.bind_var(self, s2, d, v); nxt.append((s2, N_))
                cur = nxt; continue
            if d["kind"] not in ("VarDecl",): raise Unsupported("declaration " + d["kind"])
            for s, sig in cur: nxt += self.decl(s, d)
            cur = nxt
        return cur
    def decl(self, st, d):
        fr = st.frames[-1]
        t = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        sh = self.ty.shape(d["type"])
        init = [c for c in d.get("inner", ()) if c.get("kind") and not c["kind"].endswith("Attr")]
        isref = t.rstrip().endswith("&")
        if sh.k == "guard":
            e = deref_casts(init[0])
            out = []
            for s, vs in self.evlist(st, [c for c in e.get("inner", ()) if c.get("kind") != "CXXDefaultArgExpr"]):
                if len(vs) != 1: raise Unsupported("guard with options")
                lv = self.guard_mutex(vs[0])
                self.mutex_lock(s, lv)
                gk = ("guards", s.frames[-1].serial)
                s.meta[gk] = s.meta.get(gk, ()) + ((lv, sh.cls),)
                s.frames[-1].vars[d["id"]] = Opq("guard", lv)
                out.append((s, N_))
            return out
        if sh.k in ("stream",) or (sh.k == "opaque" and not init):
            fr.vars[d["id"]] = Opq(sh.cls or sh.k, d.get("name")); return [(st, N_)]
        if not init:
            if sh.k == "obj":
                out = []
                for s, p in self.alloc(st, sh, []):
                    s.frames[-1].vars[d["id"]] = ObjL(p.t, p.cls); out.append((s, N_))
                return out
            lv = self.var_lv(st, d.get("name", "v"), sh, fr.serial)
            for p, ix, s in leaves(sh): st.mem[(lv.root, p)] = ConstA(self.fresh(st, "uninit_" + d.get("name", ""), s))
            fr.vars[d["id"]] = lv
            return [(st, N_)]
        out = []
        for s, v in self.ev(st, init[0]):
            f2 = s.frames[-1]
            if isref:
                if isinstance(v, P) and sh.k == "obj": v = ObjL(v.t, v.cls)
                if isinstance(v, ObjL) and sh.k == "obj": v = ObjL(v.t, sh.cls)
                if isinstance(v, (Lv, ObjL, PairL, Opq)): f2.vars[d["id"]] = v; out.append((s, N_)); continue
            if isinstance(v, ObjL): f2.vars[d["id"]] = v; out.append((s, N_)); continue
            v = self.rv(s, v)
            if isinstance(v, (Opq, FnV)) and sh.k not in ("str",): f2.vars[d["id"]] = v; out.append((s, N_)); continue
            if isinstance(v, IterV):
                lv = self.var_lv(s, d.get("name", "v"), Shape("iter"), f2.serial)
                s.meta[("iter", lv.root)] = v; f2.vars[d["id"]] = lv; out.append((s, N_)); continue
            if isinstance(v, P) and sh.k != "ptr": sh = PTR(v.cls)
            if isinstance(v, P) and sh.k == "ptr" and (sh.cls in ("void",) or isinstance(v.cls, Shape)): sh = PTR(v.cls)
            if isinstance(v, Cont): sh = v.sh
            if isinstance(v, tuple) and sh.k not in ("tup", "struct"): raise Unsupported("tuple into %r" % sh)
            lv = self.var_lv(s, d.get("name", "v"), sh, f2.serial)
            self.write(s, lv, v)
            f2.vars[d["id"]] = lv
            out.append((s, N_))
        return out
    def s_ReturnStmt(self, st, n):
        if not n.get("inner"): return [(st, Sig(RET))]
        out = []
        isref = self.ret_is_ref(st)
        for s, v in self.ev(st, n["inner"][0]):
            if not isref: v = self.rv(s, v)
            out.append((s, Sig(RET, v)))
        return out
    def s_IfStmt(self, st, n):
        parts = list(n["inner"])
        cur = [(st, N_)]
        if n.get("hasInit"):
            cur = self.ex(st, parts[0]); parts = parts[1:]
        if n.get("hasVar"): raise Unsupported("if with declaration")
        c, a = parts[0], parts[1]
        b = parts[2] if len(parts) > 2 else None
        out = []
        for s0, sig in cur:
            if sig.k != NORMAL: out.append((s0, sig)); continue
            for s, v in self.ev(s0, c):
                for s2, br in self.split(s, self.asbool(s, v)):
                    if br: out += self.ex(s2, a)
                    elif b is not None: out += self.ex(s2, b)
                    else: out.append((s2, N_))
        nrm = self.merge([(s, None) for s, g in out if g.k == NORMAL])
        return [(s, N_) for s, _ in nrm] + [(s, g) for s, g in out if g.k != NORMAL]
    def s_BreakStmt(self, st, n): return [(st, Sig(BREAK))]
    def s_ContinueStmt(self, st, n): return [(st, Sig(CONT))]
    def s_CXXTryStmt(self, st, n):
        out = []
        for s, sig in self.ex(st, n["inner"][0]):
            if sig.k == THROW:
                h = n["inner"][1]
                body = [c for c in h.get("inner", ()) if c.get("kind") == "CompoundStmt"]
                out += self.ex(s, body[0])
            else: out.append((s, sig))
        return out
    def s_CXXForRangeStmt(self, st, n):
        from . import loops
        return loops.range_for(self, st, n)
    def s_ForStmt(self, st, n):
        from . import loops
        return loops.for_stmt(self, st, n)
    def s_WhileStmt(self, st, n):
        from . import loops
        return loops.while_stmt(self, st, n)
    def s_DoStmt(self, st, n):
        from . import loops
        return loops.do_stmt(self, st, n)
    def s_SwitchStmt(self, st, n): raise Unsupported("switch")
    def mm_anchor(self, st, lv, p):
        """a position of a multimap to which all others are compared"""
        self.map_order(st, lv); st.meta[("order", (lv.root, lv.path), tuple(x.get_id() for x in lv.idx))][1][4].append(p)
    def mm_deref(self, st, it):
        lv = it.c
        ordA, idxA, domv, n = self.map_order(st, lv)
        self.oblige(st, z3.And(0 <= it.pos, it.pos < n), "iterator dereference in bounds")
        if self.access_check: self.access_check(self, st, lv, False)
        k = ordA.sel((z3.simplify(n - 1 - it.pos) if it.rev else it.pos,))
        return PairL(self.read(st, self.map_val(lv, k)), self.keyval(lv.sh.args[1], k))

class _Throw(Exception):
    def __init__(self, st): self.st = st
