"""Load /repo's current sources as clang ASTs (JSON), index functions, classes and fields.

Nothing here is specific to a property; nothing is cached between runs."""
import json, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

REPO = os.environ.get("CDV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = ["clang++", "-std=c++20", "-fsyntax-only", "-w"]

class ExtractError(Exception):
    pass

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out) + sorted(glob.glob(os.path.join(HERE, "..", "inst", "*.cpp")))

def dump(path, filt="thts::"):
    cmd = CLANG + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO,
                   "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, path]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (path, p.stderr.decode()[:2000]))
    return p.stdout.decode()

def parse_docs(txt):
    dec = json.JSONDecoder()
    i, n, docs = 0, len(txt), []
    while i < n:
        while i < n and txt[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(txt, i)
        docs.append(d)
    return docs

FUNC = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"}
REC = {"CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"}

class TU:
    """one translation unit: id -> decl node"""
    def __init__(self, path, docs):
        self.path = path
        self.byid = {}
        self.docs = docs

def slim(n):
    """drop bulky position info, keep line numbers (delta encoded in dump order)"""
    return n

class Func:
    __slots__ = ("node", "tu", "cls", "name", "mangled", "kind", "params", "body", "virtual", "line", "file",
                 "const", "rtype", "inits", "qname", "pure", "tmpl")
    def __repr__(self):
        return "<Func %s>" % self.qname

class Program:
    def __init__(self):
        self.funcs = {}      # mangled -> Func (definition preferred)
        self.byq = {}        # "Class::name" -> [Func]
        self.classes = {}    # class qname -> dict(bases=[..], fields=[(name,type,init)], node, tu)
        self.idmap = {}      # (tu, id) -> ('func', mangled) | ('field', cls, name) | ('rec', name) | ('var', node)
        self.statics = {}    # "Class::name" or name -> (tu,node)
        self.typedefs = {}

def _walk_lines(doc):
    """resolve delta-encoded locations: assigns node['_line'] / node['_file']"""
    state = {"file": None, "line": None}
    def loc(l):
        if not isinstance(l, dict):
            return
        if "spellingLoc" in l or "expansionLoc" in l:
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    loc(l[k])
            return
        if "file" in l:
            state["file"] = l["file"]
        if "line" in l:
            state["line"] = l["line"]
    stack = [doc]
    def rec(n):
        if "loc" in n:
            loc(n["loc"])
        if "range" in n:
            loc(n["range"].get("begin", {}))
            n["_line"] = state["line"]; n["_file"] = state["file"]
            loc(n["range"].get("end", {}))
        for c in n.get("inner", ()):
            rec(c)
    rec(doc)

sys.setrecursionlimit(100000)

def _load_one(path):
    docs = parse_docs(dump(path))
    for d in docs:
        _walk_lines(d)
    return path, docs

def load(paths=None):
    prog = Program()
    paths = paths or sources()
    with ThreadPoolExecutor(8) as ex:
        texts = list(ex.map(dump, paths))
    for p, t in zip(paths, texts):
        docs = parse_docs(t)
        for d in docs:
            _walk_lines(d)
        index(prog, TU(p, docs))
    prog.free_eq = []       # value comparisons of shared pointers and objects live in namespace std: (type, Func)
    for p in paths:
        if os.path.basename(p) != "thts_types.cpp": continue
        docs = [d for d in parse_docs(dump(p, "std::operator==")) if d["kind"] == "FunctionDecl" and "thts::" in json.dumps(d.get("inner", []))[:20000]]
        for d in docs: _walk_lines(d)
        sub = Program(); index(sub, TU(p + "#eq", docs))
        for m, f in sub.funcs.items():
            if f.body is not None:
                prog.funcs.setdefault(m, f); prog.free_eq.append((f.rtype, f))
        for k, v in sub.idmap.items(): prog.idmap[k] = v
        prog.tus += sub.tus
    return prog

def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType")

def index(prog, tu):
    prog.tus = getattr(prog, "tus", []) + [tu]
    recid = {}
    # pass 1: records
    def rec_name(node, scope):
        nm = node.get("name", "")
        if node["kind"] == "ClassTemplateSpecializationDecl":
            args = []
            for a in node.get("inner", ()):
                if a["kind"] == "TemplateArgument":
                    args.append(a.get("type", {}).get("qualType", str(a.get("value", "?"))))
            nm += "<" + ", ".join(args) + ">"
        return (scope + "::" if scope else "") + nm
    def do_record(node, scope):
        q = rec_name(node, scope)
        recid[node["id"]] = q
        if node.get("completeDefinition") or node["kind"] == "ClassTemplateSpecializationDecl":
            if "inner" in node:
                c = prog.classes.setdefault(q, dict(bases=[], fields=[], node=node, tu=tu, name=q))
                if not c["bases"]:
                    c["bases"] = [b["type"].get("desugaredQualType") or b["type"]["qualType"] for b in node.get("bases", ())]
                fields = []
                for ch in node["inner"]:
                    if ch["kind"] == "FieldDecl":
                        fields.append((ch["name"], ch["type"], ch))
                        prog.idmap[(tu.path, ch["id"])] = ("field", q, ch["name"])
                if fields and not c["fields"]:
                    c["fields"] = fields
        for ch in node.get("inner", ()):
            visit(ch, q, node)
    def do_func(node, scope, tmpl=None):
        m = node.get("mangledName")
        if not m:
            return
        par = node.get("parentDeclContextId")
        cls = None
        if par and par in recid:
            cls = recid[par]
        elif scope in prog.classes or scope in recid.values():
            cls = scope
        if cls is None and node.get("previousDecl"):
            pv = prog.idmap.get((tu.path, node["previousDecl"]))
            if pv and pv[0] == "func":
                pf = prog.funcs.get(pv[1])
                if pf:
                    cls = pf.cls
        prog.idmap[(tu.path, node["id"])] = ("func", m)
        for ch in node.get("inner", ()):
            if ch["kind"] == "ParmVarDecl":
                tu.byid[ch["id"]] = ch
        body = None; inits = []; params = []
        for ch in node.get("inner", ()):
            if ch["kind"] in ("CompoundStmt", "CXXTryStmt"):
                body = ch
            elif ch["kind"] == "ParmVarDecl":
                params.append(ch)
            elif ch["kind"] == "CXXCtorInitializer":
                inits.append(ch)
        old = prog.funcs.get(m)
        f = Func()
        f.node, f.tu, f.cls, f.name, f.mangled, f.kind = node, tu.path, cls, node["name"], m, node["kind"]
        f.params, f.body, f.inits = params, body, inits
        f.virtual = bool(node.get("virtual")) or bool(old and old.virtual)
        f.pure = bool(node.get("pure")) or bool(old and old.pure)
        f.line, f.file = node.get("_line"), node.get("_file")
        f.rtype = node["type"]["qualType"]
        f.tmpl = tmpl
        f.qname = (cls + "::" if cls else "") + node["name"]
        if old is not None:
            if old.body is not None and body is None:
                old.virtual |= f.virtual
                return
            if body is not None and old.body is not None:
                return
            if f.cls is None:
                f.cls = old.cls; f.qname = (f.cls + "::" if f.cls else "") + f.name
            if body is None:
                return
        prog.funcs[m] = f
        l = prog.byq.setdefault(f.qname, [])
        l[:] = [x for x in l if x.mangled != m] + [f]
    def visit(node, scope, parent=None):
        k = node["kind"]
        if "id" in node:
            tu.byid.setdefault(node["id"], node)
        if k in REC:
            do_record(node, scope)
        elif k == "ClassTemplateDecl":
            for ch in node.get("inner", ()):
                if ch["kind"] == "ClassTemplateSpecializationDecl":
                    do_record(ch, scope)
        elif k in FUNC:
            do_func(node, scope)
        elif k == "FunctionTemplateDecl":
            first = True
            for ch in node.get("inner", ()):
                if ch["kind"] in FUNC:
                    if first:
                        first = False
                        # the pattern itself
                        continue
                    do_func(ch, scope, tmpl=node["name"])
        elif k in ("VarDecl",):
            prog.idmap[(tu.path, node["id"])] = ("var", (tu.path, node))
            prog.statics.setdefault((scope + "::" if scope else "") + node["name"], (tu.path, node))
            if "previousDecl" in node or node.get("parentDeclContextId"):
                pass
        elif k == "NamespaceDecl":
            for ch in node.get("inner", ()):
                visit(ch, scope)
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            prog.typedefs[node["name"]] = node["type"].get("desugaredQualType") or node["type"]["qualType"]
    for d in tu.docs:
        if d["kind"] in REC or d["kind"] == "ClassTemplateDecl":
            visit(d, "")
    for d in tu.docs:
        if not (d["kind"] in REC or d["kind"] == "ClassTemplateDecl"):
            visit(d, "")

if __name__ == "__main__":
    import time, collections
    t = time.time()
    prog = load()
    print("loaded", len(prog.tus), "TUs", round(time.time() - t, 1), "s", len(prog.funcs), "functions")
    kinds = collections.Counter()
    def cnt(n):
        kinds[n["kind"]] += 1
        for c in n.get("inner", ()):
            if "kind" in c: cnt(c)
    for f in prog.funcs.values():
        if f.body: cnt(f.body)
    print(kinds)
    for q in sorted(prog.classes): print(q, prog.classes[q]["bases"], [x[0] for x in prog.classes[q]["fields"]])

def tree_hash():
    """content of every file the dumps are made from"""
    import hashlib
    h = hashlib.sha256()
    here = os.path.dirname(os.path.abspath(__file__))
    fs = [here + "/astload.py", os.path.dirname(here) + "/inst/inst.cpp"]
    for d in ("include", "src"):
        for r, _, names in sorted(os.walk(os.path.join(REPO, d))):
            fs += [os.path.join(r, n) for n in sorted(names)]
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

def load_cached():
    import pickle, sys
    sys.setrecursionlimit(100000)
    b = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build")
    os.makedirs(b, exist_ok=True)
    p = os.path.join(b, "ast-%s.pkl" % tree_hash())
    if os.path.exists(p):
        try:
            with open(p, "rb") as f: return pickle.load(f)
        except Exception: pass
    prog = load()
    for o in glob.glob(b + "/ast-*.pkl"):
        try: os.remove(o)
        except OSError: pass
    with open(p + ".tmp%d" % os.getpid(), "wb") as f: pickle.dump(prog, f)
    os.replace(p + ".tmp%d" % os.getpid(), p)
    return prog
