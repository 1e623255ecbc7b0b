"""C05, C06: lock discipline."""
from contracts.lib import *
from contracts.world import *

def lock_children(cls, fn, val):
    """lock_all_children / unlock_all_children / lock_all_nodes: exactly the children's locks change hands"""
    def f(c):
        e = c.e; st = c.state()
        n = uct_node(c, st, "n", cls)
        x = sk(c, "x")
        lv = e.field_lv(n.cbase, "node_lock", Null); key = (lv.root, lv.path + ("held",))
        if not val:
            old = e.cell(st, *key)
            st.mem[key] = LamA(lambda r: z3.If(n.isc(r), z3.BoolVal(True), old.sel((r,))))
        s0 = st.copy()
        q = own_fn(c, cls, fn)
        outs = c.run(st, q, n.t if fn != "lock_all_nodes" else None, [] if fn != "lock_all_nodes" else [n.children], cls=cls if fn != "lock_all_nodes" else None)
        h0, sself = e.cell(s0, *key), e.field_lv(n.base, "node_lock", x)
        for o in outs:
            s = o.st
            if o.kind == "throw": c.goal(s, z3.BoolVal(False), "locking children does not throw"); continue
            h1 = e.cell(s, *key)
            c.goal(s, h1.sel((x,)) == z3.If(n.isc(x), z3.BoolVal(val), h0.sel((x,))), "exactly the children's locks are %s" % ("taken" if val else "released"))
            c.goal(s, e.leafat(s, sself, ("held",)) == e.leafat(s0, sself, ("held",)), "no other lock changes hands")
        return [o.st for o in outs if o.kind == "ret"]
    return f
def own_fn(c, cls, fn):
    for k in c.e.ty.mro(cls):
        if any(f.body is not None for f in c.e.prog.byq.get(k + "::" + fn, [])): return k + "::" + fn
    raise Unsupported("no " + fn)
for _c in ("UctDNode", "UctCNode"):
    _b = "D" if _c.endswith("DNode") else "C"
    register("C05", "C06", name="lock_all_children_" + _b)(lock_children(_c, "lock_all_children", True))
    register("C05", "C06", name="unlock_all_children_" + _b)(lock_children(_c, "unlock_all_children", False))
register("C05", "C06", name="lock_all_nodes_C")(lock_children("UctCNode", "lock_all_nodes", True))
