"""Values, memory arrays and program states of the obligation generator."""
import z3
from .types import *

Null = z3.Const("null", Ref)
INF = z3.Real("INF")            # numeric_limits<double>::infinity()
LOWEST = z3.Real("LOWEST")      # numeric_limits<double>::lowest()
INT_LOWEST = -(2**31); INT_MAX = 2**31 - 1

class P:
    """pointer rvalue: object identity + static pointee (class name or Shape)"""
    __slots__ = ("t", "cls")
    def __init__(self, t, cls): self.t, self.cls = t, cls
    def __repr__(self): return "P(%s:%s)" % (self.t, self.cls)

class Lv:
    """lvalue: memory root + index vector + leaf path + shape"""
    __slots__ = ("root", "idx", "path", "sh")
    def __init__(self, root, idx, path, sh): self.root, self.idx, self.path, self.sh = root, tuple(idx), tuple(path), sh
    def sub(self, p, sh, ix=()): return Lv(self.root, self.idx + tuple(ix), self.path + tuple(p), sh)
    def __repr__(self): return "Lv(%s,%s,%s,%s)" % (self.root, self.idx, self.path, self.sh)

class ObjL:
    """lvalue of class type: identity of the object"""
    __slots__ = ("t", "cls")
    def __init__(self, t, cls): self.t, self.cls = t, cls

class PairL:
    """reference to a map element: key is a value, mapped part is an lvalue"""
    __slots__ = ("k", "v")
    def __init__(self, k, v): self.k, self.v = k, v

class IterV:
    """iterator: container lvalue + position in its current order (rev: reverse iterator)"""
    __slots__ = ("c", "pos", "rev")
    def __init__(self, c, pos, rev=False): self.c, self.pos, self.rev = c, pos, rev

class Cont:
    """container rvalue"""
    __slots__ = ("sh", "leaf")
    def __init__(self, sh, leaf): self.sh, self.leaf = sh, leaf

class FnV:
    __slots__ = ("name", "mangled")
    def __init__(self, name, mangled=None): self.name, self.mangled = name, mangled

class LamV:
    """a lambda: its body runs in the scope that created it"""
    __slots__ = ("params", "body", "vars", "this", "thiscls", "tu", "rtype")
    def __init__(self, params, body, vars_, this, thiscls, tu): self.params, self.body, self.vars, self.this, self.thiscls, self.tu = params, body, vars_, this, thiscls, tu

class Opq:
    """a value the generator does not interpret (streams, threads, engines, strings being printed)"""
    __slots__ = ("what", "args")
    def __init__(self, what, *a): self.what, self.args = what, a

VOIDV = Opq("void")

# ---------------------------------------------------------------- functional arrays
class Arr:
    __slots__ = ("cache",)
    def __init__(self): self.cache = {}
    def sel(self, idx):
        k = tuple(t.get_id() for t in idx)
        r = self.cache.get(k)
        if r is None:
            r = (self._sel(tuple(idx)), idx)
            self.cache[k] = r
        return r[0]
    def store(self, idx, v): return StoreA(self, tuple(idx), v)
    def slice(self, prefix, tail):
        prefix = tuple(prefix)
        return tail if not prefix else SliceA(self, prefix, tail)
    def curry(self, prefix):
        prefix = tuple(prefix)
        return self if not prefix else CurryA(self, prefix)

class BaseA(Arr):
    __slots__ = ("decl", "pre")
    def __init__(self, decl, pre=()):
        super().__init__(); self.decl, self.pre = decl, tuple(pre)
    def _sel(self, idx): return self.decl(*(self.pre + idx))

class LamA(Arr):
    __slots__ = ("fn",)
    def __init__(self, fn): super().__init__(); self.fn = fn
    def _sel(self, idx): return self.fn(*idx)

class ConstA(Arr):
    __slots__ = ("v",)
    def __init__(self, v): super().__init__(); self.v = v
    def _sel(self, idx): return self.v

class CurryA(Arr):
    __slots__ = ("p", "pre")
    def __init__(self, p, pre): super().__init__(); self.p, self.pre = p, pre
    def _sel(self, idx): return self.p.sel(self.pre + idx)

def eqt(a, b):
    """syntactic (dis)equality: True / False / None"""
    if a.eq(b): return True
    if z3.is_int_value(a) and z3.is_int_value(b): return a.as_long() == b.as_long()
    if z3.is_int(a):
        d = z3.simplify(a - b)
        if z3.is_int_value(d): return d.as_long() == 0
    return None

def eqs(xs, ys):
    cs = []
    for a, b in zip(xs, ys):
        r = eqt(a, b)
        if r is False: return z3.BoolVal(False)
        if r is None: cs.append(a == b)
    if not cs: return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

class StoreA(Arr):
    __slots__ = ("p", "ix", "v")
    def __init__(self, p, ix, v): super().__init__(); self.p, self.ix, self.v = p, ix, v
    def _sel(self, idx):
        c = eqs(self.ix, idx)
        if z3.is_true(c): return self.v
        if z3.is_false(c): return self.p.sel(idx)
        return ite(c, self.v, self.p.sel(idx))

class SliceA(Arr):
    __slots__ = ("p", "pre", "tail")
    def __init__(self, p, pre, tail): super().__init__(); self.p, self.pre, self.tail = p, pre, tail
    def _sel(self, idx):
        n = len(self.pre)
        c = eqs(self.pre, idx[:n])
        if z3.is_true(c): return self.tail.sel(idx[n:])
        if z3.is_false(c): return self.p.sel(idx)
        return ite(c, self.tail.sel(idx[n:]), self.p.sel(idx))

class IteA(Arr):
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): super().__init__(); self.c, self.a, self.b = c, a, b
    def _sel(self, idx): return ite(self.c, self.a.sel(idx), self.b.sel(idx))

# ---------------------------------------------------------------- layouts
def scalar(sh): return sh.k in ("int", "real", "bool", "ptr", "str", "fn")

def elem_key_sort(sh):
    try:
        return leaf_sort(sh)
    except Unsupported:
        return None

_leafcache = {}
def leaves(sh):
    """[(path, extra index sorts, sort)]"""
    k = sh.key()
    r = _leafcache.get(k)
    if r is not None: return r
    out = []
    if scalar(sh):
        out.append(((), (), leaf_sort(sh)))
    elif sh.k in ("tup", "struct"):
        for i, a in enumerate(sh.args):
            out += [((i,) + p, ix, s) for p, ix, s in leaves(a)]
    elif sh.k == "vec":
        out.append((("len",), (), Int))
        e = sh.args[0]
        out += [(("el",) + p, (Int,) + ix, s) for p, ix, s in leaves(e)]
        if e.k in ("ptr", "int"):
            ks = leaf_sort(e)
            out += [(("mem",), (ks,), Bool), (("pos",), (ks,), Int), (("nd",), (), Bool)]
    elif sh.k in ("map", "mmap"):
        ks = leaf_sort(sh.args[0]) if sh.k == "map" else leaf_sort(sh.args[1])
        out.append((("n",), (), Int)); out.append((("dom",), (ks,), Bool))
        v = sh.args[1] if sh.k == "map" else sh.args[0]
        out += [(("val",) + p, (ks,) + ix, s) for p, ix, s in leaves(v)]
    elif sh.k == "mutex":
        out.append((("held",), (), Bool))
    elif sh.k == "obj":
        out.append(((), (), Ref))
    elif sh.k in ("opaque", "stream", "void", "guard", "iter"):
        pass
    else:
        raise Unsupported("layout of " + repr(sh))
    _leafcache[k] = out
    return out

def sort_default(s):
    if s == Int: return z3.IntVal(0)
    if s == Real: return z3.RealVal(0)
    if s == Bool: return z3.BoolVal(False)
    if s == Ref: return Null
    if s == Str: return z3.Const("emptystr", Str)
    raise Unsupported("default of sort %s" % s)

def empty_cont(sh):
    d = {}
    for p, ix, s in leaves(sh):
        if p == ("nd",): d[p] = ConstA(z3.BoolVal(True))
        elif p in (("len",), ("n",)): d[p] = ConstA(z3.IntVal(0))
        else:
            d[p] = ConstA(sort_default(s)) if s in (Int, Real, Bool, Ref) else ConstA(z3.Const("dflt_%s" % s, s))
    return Cont(sh, d)

_terms_keep = []
class State:
    __slots__ = ("mem", "pc", "facts", "gens", "frames", "js", "meta", "ghost", "dead", "written")
    def __init__(self):
        self.mem = {}       # (root,path) -> Arr
        self.pc = []        # branch conditions
        self.facts = []     # assumptions
        self.gens = {}      # decl name -> [fn(args)->[facts]]
        self.frames = []    # Frame
        self.js = ()        # enclosing loop indices
        self.meta = {}      # (side tables) iterator containers, orders ...
        self.ghost = {}     # contract-level ghost python values
        self.dead = False
    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.facts = list(self.facts)
        s.gens = {k: list(v) for k, v in self.gens.items()}
        s.frames = [f.copy() for f in self.frames]; s.js = self.js
        s.meta = dict(self.meta); s.ghost = dict(self.ghost); s.dead = self.dead
        return s

class Frame:
    __slots__ = ("vars", "this", "thiscls", "fn", "serial", "tu", "exact")
    def __init__(self, fn, this, thiscls, serial, tu, exact=None):
        self.vars, self.this, self.thiscls, self.fn, self.serial, self.tu = {}, this, thiscls, fn, serial, tu
        self.exact = exact      # dynamic class to dispatch on for `this` (constructors)
    def copy(self):
        f = Frame(self.fn, self.this, self.thiscls, self.serial, self.tu, self.exact)
        f.vars = dict(self.vars)
        return f
