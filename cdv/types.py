"""C++ type strings -> shapes (the abstract domains values live in)."""
import re, z3

Ref = z3.DeclareSort("Ref")
Str = z3.DeclareSort("Str")
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()

class Shape:
    __slots__ = ("k", "args", "cls")
    def __init__(self, k, args=(), cls=None):
        self.k, self.args, self.cls = k, tuple(args), cls
    def key(self):
        if self.k == "ptr":
            return "ptr"
        if self.k in ("struct", "obj"):
            return self.k + ":" + str(self.cls)
        return self.k + ("(" + ",".join(a.key() for a in self.args) + ")" if self.args else "")
    def __repr__(self):
        return self.k + (":" + str(self.cls) if self.cls else "") + (str(list(self.args)) if self.args else "")

INT, REAL, BOOL, STR, FN, VOID = (Shape(x) for x in ("int", "real", "bool", "str", "fn", "void"))
def PTR(cls): return Shape("ptr", (), cls)

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

def strip(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r"^(const|typename|struct|class|volatile|mutable)\s+", "", t)
        t = re.sub(r"\s*(&&|&|const)$", "", t).strip()
        if t == o:
            return t

INTS = {"int", "long", "unsigned long", "unsigned int", "size_t", "std::size_t", "short", "unsigned short", "long long",
        "unsigned long long", "char", "unsigned char", "result_type", "size_type", "difference_type"}
IGN = {"std", "thts", "__cxx11", "chrono", "helper"}

class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.structs = {}   # class name -> True when handled as value struct
        for c in prog.classes:
            if c.endswith("AliasTableEntry"):
                self.structs[c] = True
    def cname(self, t):
        """class name without namespaces"""
        t = strip(t)
        m = re.match(r"^([\w:]+)(<.*)?$", t)
        if not m:
            return t
        parts = [p for p in m.group(1).split("::") if p not in IGN]
        return "::".join(parts) + (m.group(2) or "")
    def shape(self, t):
        if isinstance(t, dict):
            d = t.get("desugaredQualType") or t["qualType"]
            return self.shape(d)
        s = self.cache.get(t)
        if s is None:
            s = self.cache[t] = self._shape(t)
        return s
    def _shape(self, t0):
        t = strip(t0)
        if t.endswith("*"):
            return PTR(self.pointee(t[:-1]))
        if t in INTS:
            return INT
        if t == "bool":
            return BOOL
        if t in ("double", "float", "long double"):
            return REAL
        if t == "void":
            return VOID
        if t in ("std::nullptr_t", "nullptr_t"):
            return PTR("null")
        if "(*)" in t or "(&)" in t:
            return FN
        m = re.match(r"^([\w:]+?)\s*<(.*)>$", t, re.S)
        base = m.group(1) if m else t
        args = split_args(m.group(2)) if m else []
        b = base.split("::")[-1]
        if b in ("shared_ptr", "unique_ptr", "weak_ptr", "__shared_ptr", "_NonArray") and m:
            return PTR(self.pointee(args[0]))
        if b == "vector":
            return Shape("vec", (self.shape(args[0]),))
        if b in ("unordered_map", "map"):
            return Shape("map", (self.shape(args[0]), self.shape(args[1])))
        if b in ("set", "unordered_set"):
            return Shape("map", (self.shape(args[0]), BOOL), "oset" if b == "set" and len(args) == 1 else "set")
        if b in ("multimap", "unordered_multimap"):
            return Shape("mmap", (self.shape(args[0]), self.shape(args[1])))
        if b == "pair" or b == "tuple":
            return Shape("tup", [self.shape(a) for a in args])
        if b in ("duration", "time_point", "rep"):
            return REAL
        if b in ("string", "basic_string"):
            return STR
        if b in ("basic_stringstream", "stringstream", "basic_ostream", "ostream", "basic_iostream", "ostringstream", "basic_ostringstream"):
            return Shape("stream")
        if b in ("mutex",):
            return Shape("mutex")
        if b in ("lock_guard", "unique_lock", "scoped_lock"):
            return Shape("guard", (), b)
        if b == "uniform_int_distribution": return Shape("tup", (INT, INT), "uniform_int")
        if b == "uniform_real_distribution": return Shape("tup", (REAL, REAL), "uniform_real")
        if b in ("hash", "equal_to") and m: return Shape("opaque", (), b)
        if b == "thread": return Shape("int", (), "thread")
        if b in ("condition_variable_any", "condition_variable", "random_device", "mt19937",
                 "mersenne_twister_engine", "uniform_int_distribution", "uniform_real_distribution", "partial_ordering"):
            return Shape("opaque", (), b)
        if "iterator" in b:
            return Shape("iter")
        if b in self.prog.typedefs and self.prog.typedefs[b] != t0:
            return self.shape(self.prog.typedefs[b])
        c = self.cname(t)
        if c in self.structs:
            flds = self.allfields(c)
            return Shape("struct", [self.shape(ft) for _, _, ft in flds], c)
        if c in self.prog.classes:
            return Shape("obj", (), c)
        cands = [x for x in self.prog.classes if x.split("::")[-1] == c.split("::")[-1]]
        if len(cands) == 1:
            return self.shape("thts::" + cands[0]) if cands[0] != c else Shape("obj", (), c)
        return Shape("opaque", (), t)
    def pointee(self, t):
        s = self.shape(t)
        if s.k in ("obj", "struct"):
            return s.cls
        if s.k == "void":
            return "void"
        return s        # pointer to a container / scalar: cls is the Shape
    def allfields(self, c):
        """value-struct layout: inherited fields first"""
        out = []
        info = self.prog.classes.get(c)
        if not info:
            return out
        for b in info["bases"]:
            out += self.allfields(self.cname(b))
        for n, t, node in info["fields"]:
            out.append((c, n, t))
        return out
    def bases(self, c):
        info = self.prog.classes.get(c)
        return [self.cname(b) for b in info["bases"]] if info else []
    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out
    def is_sub(self, c, b):
        return b in self.mro(c)

_keysorts = {}
def leaf_sort(sh):
    """sort of a scalar shape (or the datatype sort of an aggregate used as a key)"""
    if sh.k in ("int", "iter"): return Int
    if sh.k == "real": return Real
    if sh.k == "bool": return Bool
    if sh.k in ("ptr", "obj"): return Ref
    if sh.k == "str": return Str
    if sh.k == "fn": return Int
    if sh.k == "tup":
        k = sh.key()
        if k not in _keysorts:
            d = z3.Datatype("T_" + re.sub(r"\W", "_", k))
            d.declare("mk", *[("f%d" % i, leaf_sort(a)) for i, a in enumerate(sh.args)])
            _keysorts[k] = d.create()
        return _keysorts[k]
    raise Unsupported("no sort for " + repr(sh))

class Unsupported(Exception):
    """construct outside the generator's subset: the obligation is undecided, never a violation"""
