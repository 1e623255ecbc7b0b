"""Shared preconditions: what a search node, its children, its manager and its environment look like."""
import z3
from cdv.types import *
from cdv.values import *

FIXED = {"thts_manager", "state", "action", "decision_depth", "decision_timestep", "parent", "heuristic_value", "actions", "policy_prior", "psuedo_q_value_offset",
         "local_reward", "next_state_distr", "_node_distr_key", "_parent_distr_key", "_selected_action_key"}
def node_class(e, cls):
    return cls in ("ThtsDNode", "ThtsCNode", "EmpNode", "DPDNode", "DPCNode", "EntDNode", "EntCNode") or e.ty.is_sub(cls, "ThtsDNode") or e.ty.is_sub(cls, "ThtsCNode")
def lock_base(e, cls):
    if cls in ("DPDNode", "EntDNode") or e.ty.is_sub(cls, "ThtsDNode"): return "ThtsDNode"
    if cls in ("DPCNode", "EntCNode") or e.ty.is_sub(cls, "ThtsCNode"): return "ThtsCNode"
    return None
def held_of(e, s, cls, o):
    h = lambda b: e.leafat(s, e.field_lv(b, "node_lock", o), ("held",))
    b = lock_base(e, cls)
    return h(b) if b else z3.Or(h("ThtsDNode"), h("ThtsCNode"))
def node_access(e, s, lv, write):
    """C05: mutable node data is accessed under the node's lock (or before the node is shared)"""
    if lv.root[0] != "fld" or not lv.idx or lv.sh.k == "mutex": return
    cls, name = lv.root[1], lv.root[2]
    if not node_class(e, cls): return
    o = lv.idx[0]
    new = e.uf("born", Ref, Int)(o) > 0
    if fixed_field(e, cls, name):
        if write: e.oblige(s, new, "data of a node that is read without a lock is not changed after construction (%s)" % name, kind="lock", props=("C05",))
        return
    e.oblige(s, z3.Or(held_of(e, s, cls, o), new), "a node's %s is accessed under the node's lock" % name, kind="lock", props=("C05",))
def fixed_field(e, cls, name): return name in FIXED
class Node:
    """symbolic decision/chance node with well-formed children"""
    def __init__(self, c, st, name, cls, child, manager, keycls, held=True, family=None, nonempty_actions=True):
        e = c.e
        self.c, self.e, self.cls, self.child, self.mgrcls = c, e, cls, child, manager
        self.t = c.ref(st, name)
        self.base = "ThtsDNode" if e.ty.is_sub(cls, "ThtsDNode") else "ThtsCNode"
        self.cbase = "ThtsCNode" if self.base == "ThtsDNode" else "ThtsDNode"
        e.family.update({self.base: cls, self.cbase: child, "ThtsManager": manager, "ThtsEnv": "ThtsEnv"})
        # manager
        mlv = e.field_lv(self.base, "thts_manager", self.t)
        self.mgr = e.read(st, mlv).t
        e.assume(st, self.mgr != Null)
        self.env = e.fld(st, self.mgr, "ThtsManager", "thts_env").t
        e.assume(st, self.env != Null)
        # children map
        lv = e.field_lv(self.base, "children", self.t)
        self.children = lv
        self.dom0 = e.cell(st, lv.root, ("dom",)); self.val0 = e.cell(st, lv.root, ("val",))
        self.n0 = e.leafat(st, lv, ("n",))
        dom0, val0, n = self.dom0, self.val0, self.t
        self.ckey = e.uf("childkey_" + name, Ref, Ref)
        self.ck = lambda r: self.ckey(r)
        def gen_val(args):
            o, k = args
            if not o.eq(n): return []
            if z3.is_app(k) and k.decl().name() == self.ckey.name(): return []
            ch = val0.sel((n, k))
            return [z3.Implies(dom0.sel((n, k)), z3.And(ch != Null, self.ckey(ch) == k, ch != n, ch != self.mgr))]
        st.gens.setdefault(val0.decl.name(), []).append(gen_val)
        self.isc = lambda r: z3.And(dom0.sel((n, self.ckey(r))), val0.sel((n, self.ckey(r))) == r)
        e.ckeys.append((self.ck, self.isc, Ref))
        e.map_order(st, lv)
        # locks: this thread holds the node's own lock and none of the children's
        nl = e.field_lv(self.base, "node_lock", self.t)
        e.assume(st, e.leafat(st, nl, ("held",)) == z3.BoolVal(bool(held)))
        cl = e.field_lv(self.cbase, "node_lock", Null)
        hc = e.cell(st, cl.root, ("held",))
        def gen_held(args):
            r, = args
            return [z3.Implies(self.isc(r), z3.Not(hc.sel((r,))))]
        st.gens.setdefault(hc.decl.name(), []).append(gen_held)
        self.held0 = hc
        # ... nor the random generator's or the transposition table's
        if "RandManager" in e.prog.classes and e.find_field("RandManager", "rng_lock"):
            rl = e.field_lv("RandManager", "rng_lock", self.mgr); e.assume(st, z3.Not(e.leafat(st, rl, ("held",))))
        mx = e.field_lv("ThtsManager", "dmap_mutexes", self.mgr); mh = e.cell(st, mx.root, ("el", "held"))
        st.gens.setdefault(mh.decl.name(), []).append(lambda a: [z3.Implies(a[0] == self.mgr, z3.Not(mh.sel(tuple(a))))])
        self.discipline()
    # ---------------------------------------------------------------- lock discipline (C05, C06)
    def held_of(self, s, cls, o):
        """this thread holds the lock of the node object o whose field belongs to class cls"""
        return held_of(self.e, s, cls, o)
    def children_locked(self, st):
        """precondition: the caller holds every child's lock"""
        e = self.e; lv = e.field_lv(self.cbase, "node_lock", Null); key = (lv.root, lv.path + ("held",))
        old = e.cell(st, *key)
        st.mem[key] = LamA(lambda r: z3.If(self.isc(r), z3.BoolVal(True), old.sel((r,))))
    def need_children_locked(self, s, what):
        e = self.e; x = e.fresh(s, "anychild", Ref)
        e.oblige(s, z3.Implies(self.isc(x), e.leafat(s, e.field_lv(self.cbase, "node_lock", x), ("held",))), "children are locked for " + what, kind="lock", props=("C05",))
    def need_children_free(self, s, what):
        e = self.e; x = e.fresh(s, "anychild", Ref)
        e.oblige(s, z3.Implies(self.isc(x), z3.Not(e.leafat(s, e.field_lv(self.cbase, "node_lock", x), ("held",)))), "children are not locked when entering " + what, kind="lock", props=("C05", "C06"))
    def need_own(self, s, what):
        self.e.oblige(s, self.held_of(s, self.base, self.t), "the node is locked for " + what, kind="lock", props=("C05",))
    def rng_held(self, s):
        e = self.e
        if "RandManager" not in e.prog.classes or not e.find_field("RandManager", "rng_lock"): return z3.BoolVal(False)
        return e.leafat(s, e.field_lv("RandManager", "rng_lock", self.mgr), ("held",))
    def may_lock_node(self, s):
        e = self.e; ob = lambda g, t: e.oblige(s, g, t, kind="lock", props=("C06",))
        ob(z3.Not(self.rng_held(s)), "a node is not locked while the random generator is")
        mx = e.field_lv("ThtsManager", "dmap_mutexes", self.mgr); i = e.fresh(s, "anymutex", Int)
        ob(z3.Not(e.leafat(s, mx, ("el", "held"), (i,))), "a node is not locked while the transposition table is")
    def discipline(self):
        e = self.e
        if e.only and not {"C05", "C06"} & set(e.only): return
        e.access_check = node_access
        def prelock(e, s, lv):
            ob = lambda g, t: e.oblige(s, g, t, kind="lock", props=("C06",))
            if lv.root[0] == "fld" and lv.root[2] == "node_lock":
                o = lv.idx[0]
                ob(z3.And(z3.BoolVal(lv.root[1] == self.cbase), self.isc(o)), "an operation of a node locks no node but its children")
                self.may_lock_node(s)
                if self.base == "ThtsCNode":        # decision nodes can have several parents: siblings are locked in one order
                    y = e.fresh(s, "anychild", Ref); ad = e.uf("addr", Ref, Int)
                    ob(z3.Implies(z3.And(self.isc(y), y != o, e.leafat(s, e.field_lv(self.cbase, "node_lock", y), ("held",))), ad(y) < ad(o)), "shared children are locked in the order of their addresses")
            elif lv.root[0] == "fld" and lv.root[2] == "dmap_mutexes": ob(z3.Not(self.rng_held(s)), "the transposition table is not locked while the random generator is")
        e.hooks["prelock"] = prelock
    def f(self, st, name, obj=None, cls=None):
        v = self.e.fld(st, obj if obj is not None else self.t, cls or self.cls, name)
        return v.t if isinstance(v, P) else v
    def m(self, st, name):
        v = self.e.fld(st, self.mgr, self.mgrcls, name)
        return v.t if isinstance(v, P) else v
    def has(self, k): return self.dom0.sel((self.t, k))
    def ch(self, k): return self.val0.sel((self.t, k))
    def cf(self, st, name, k):
        v = self.e.fld(st, self.ch(k), self.child, name)
        return v.t if isinstance(v, P) else v
    def actions(self, st, nonempty=True):
        """the action vector: non-empty, duplicate-free, holding every child key"""
        e = self.e
        cls = self.cls
        p = e.fld(st, self.t, cls, "actions")
        e.assume(st, p.t != Null)
        lv = e.heap_lv(Shape("vec", (PTR("Action"),)), p.t)
        self.alv = lv
        e.assume(st, e.leafat(st, lv, ("nd",)))
        if nonempty: e.assume(st, e.leafat(st, lv, ("len",)) > 0)
        mem = e.cell(st, lv.root, ("mem",)); pos = e.cell(st, lv.root, ("pos",)); el = e.cell(st, lv.root, ("el",))
        ln = e.leafat(st, lv, ("len",))
        def gen_mem(args):
            r, x = args
            q = pos.sel((p.t, x))
            if z3.is_app(x) and x.decl().name() == el.decl.name(): return []
            return [z3.Implies(z3.And(r == p.t, mem.sel((r, x))), z3.And(0 <= q, q < ln, el.sel((p.t, q)) == x))]
        def gen_el(args):
            r, i = args
            x = el.sel((p.t, i))
            if z3.is_app(i) and i.decl().name() == pos.decl.name(): return []
            return [z3.Implies(z3.And(r == p.t, 0 <= i, i < ln), z3.And(mem.sel((p.t, x)), pos.sel((p.t, x)) == i))]
        st.gens.setdefault(mem.decl.name(), []).append(gen_mem)
        st.gens.setdefault(el.decl.name(), []).append(gen_el)
        dom0, n = self.dom0, self.t
        def gen_dom(args):
            o, k = args
            if not o.eq(n): return []
            return [z3.Implies(dom0.sel((n, k)), mem.sel((p.t, k)))]
        st.gens.setdefault(dom0.decl.name(), []).append(gen_dom)
        self.isaction = lambda k: mem.sel((p.t, k))
        self.apos = lambda k: pos.sel((p.t, k))
        self.alen = ln
        self.ael = lambda i: el.sel((p.t, i))
        if nonempty: e.skolems = e.skolems + [self.ael(z3.IntVal(0))]
        return lv

def uct_node(c, st, name="n", cls="UctDNode", held=True):
    if cls.endswith("DNode"): child, key = cls.replace("DNode", "CNode"), "Action"
    else: child, key = cls.replace("CNode", "DNode"), "Observation"
    mgr = {"Uct": "UctManager", "Puct": "PuctManager"}.get(cls[:-5], "MentsManager")
    if cls[:-5] in ("Dents", "Est"): mgr = "DentsManager"
    return Node(c, st, name, cls, child, mgr, key, held)
