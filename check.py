#!/usr/bin/env python3-vt
"""check.py PROP: decides one property on /repo's current working tree.

1. the contracts of PROP are verified function by function on the clang AST of the current sources (cdv/, contracts/);
2. beside it the bounded replay program of PROP is compiled against the current sources and run: it supplies the concrete
   failing input for a failed obligation, and stands in (labelled bounded) for code outside the verifier's reach.
Exit 0: held. Exit 1 + VIOLATION line: broken. Tier from VERIF_TIER, seed from VERIF_SEED."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(100000)
REPO = os.environ.get("CDV_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick"); TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 780 if TIER == "quick" else 3600
CXX = ["g++", "-O1", "-std=c++20", "-w", "-fno-access-control", "-Iinclude", "-Isrc", "-Iexternal", "-I.", "-I" + HERE + "/replay"]

class Harness:
    """compiles /repo/src and replay/PROP.cpp, runs it"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="h-%s-" % PROP, dir=mkd(HERE + "/build"))
        self.status, self.out, self.stats, self.sample, self.cmd, self.note = "none", "", {}, "", "", ""
        self.extra = []
        self.src = os.path.join(HERE, "replay", PROP + ".cpp")
        self.conf = {}
        if os.path.exists(self.src):
            m = re.search(r"^// CONF (\{.*\})", open(self.src).read(), re.M)
            if m: self.conf = json.loads(m.group(1))
    def compile(self, flags=(), sub="o"):
        d = mkd(os.path.join(self.dir, sub)); procs = []; objs = []; todo = []
        for r, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                if f.endswith(".cpp") and "/py" not in r:
                    p = os.path.join(r, f); o = os.path.join(d, os.path.relpath(p, REPO).replace("/", "_") + ".o")
                    todo.append((p, o)); objs.append(o)
        todo.insert(0, (self.src, os.path.join(d, "main.o"))); objs.append(os.path.join(d, "main.o"))
        err = ""
        while todo or procs:
            while todo and len(procs) < 8:
                p, o = todo.pop(0)
                procs.append((subprocess.Popen(CXX + list(flags) + ["-c", p, "-o", o], cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), p))
            pr, p = procs.pop(0); e = pr.communicate()[1].decode(errors="replace")
            if pr.returncode: err += "%s: %s\n" % (p, e[:3000])
        if err: return None, err
        b = os.path.join(self.dir, "prog-" + sub)
        r = subprocess.run(["g++"] + list(flags) + objs + ["-o", b, "-lpthread"] + self.conf.get("ldflags", []), cwd=REPO, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode: return None, r.stderr.decode(errors="replace")[:3000]
        return b, ""
    def run(self, b, seed, first, count, secs, tmo, env=None):
        cmd = [b, str(seed), str(first), str(count), str(secs)]
        sub = mkd(os.path.join(self.dir, "cwd"))
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=sub, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo, env=e)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace"), "timeout"
        return rc, out[-20000:]
    def judge(self, rc, out):
        for l in out.splitlines():
            if l.startswith("STATS "):
                try:
                    for k, v in json.loads(l[6:]).items(): self.stats[k] = self.stats.get(k, 0) + v
                except ValueError: pass
            if l.startswith("SAMPLE ") and not self.sample: self.sample = l[7:]
        if rc == 0: return "pass"
        if rc == 3 and "FAIL " in out: return "fail"
        if rc == 66 and "WARNING: ThreadSanitizer" in out: return "fail"
        if isinstance(rc, int) and rc < 0: return "fail"           # crash of the code under test
        return "undecided"
    def main(self):
        if not os.path.exists(self.src): self.note = "no replay program"; return
        try:
            cf = self.conf
            variants = [("o", [], cf.get("secs", 25), cf.get("count", 100000), {})]
            if cf.get("tsan"): variants.append(("t", ["-fsanitize=thread", "-g", "-DTSAN_RUN"], cf.get("tsan_secs", 40), 100000, {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 report_signal_unsafe=0 history_size=4"}))
            mult = 1 if TIER == "quick" else 12
            for sub, fl, secs, count, env in variants:
                b, err = self.compile(fl, sub)
                if not b:
                    self.note += "replay program does not compile against this tree (%s); " % err.strip()[:600]
                    self.status = "undecided" if self.status in ("none", "pass") else self.status; continue
                rc, out = self.run(b, SEED, 0, count * mult, secs * mult, secs * mult + 120, env)
                j = self.judge(rc, out); self.out += out[-8000:]
                if j == "fail": self.status = "fail"; self.cmd = "g++ -O1 -std=c++20 -fno-access-control %s -I{include,src,external,.} (in %s) src/**/*.cpp %s -lpthread; run with: %s" % (" ".join(fl), REPO, self.src, caseof(out, SEED)); return
                if j == "undecided": self.note += "replay program ended with %s; " % rc; self.status = "undecided"
                elif self.status == "none": self.status = "pass"
            self.bin = os.path.join(self.dir, "prog-o")
        except Exception as x:
            self.note += "replay machinery: %r" % (x,); self.status = "undecided"
    def deeper(self):
        """an obligation failed: look longer for a concrete failing input"""
        b = getattr(self, "bin", None)
        if not b or self.status != "pass" or not os.path.exists(b): return
        left = max(5.0, min(120.0, BUDGET - (time.time() - T0)))
        for s in (SEED + 1, SEED + 2, SEED + 3):
            rc, out = self.run(b, s, 0, 10**9, left / 3, left / 3 + 60)
            if self.judge(rc, out) == "fail": self.status = "fail"; self.out = out; self.cmd = caseof(out, s); return

def caseof(out, seed):
    m = re.search(r"FAIL case=(\d+) seed=(-?\d+)", out)
    return "prog %s %s 1" % (m.group(2), m.group(1)) if m else "prog %s 0 100000" % seed

def mkd(p): os.makedirs(p, exist_ok=True); return p

def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == PROP: out.append((m.group(2), m.group(3)))
    return out

def main():
    try: os.remove(os.path.join(HERE, "evidence", PROP + ".json"))
    except OSError: pass
    h = Harness()
    th = threading.Thread(target=h.main, daemon=True); th.start()
    results, extract_err, prog = [], None, None
    from cdv import astload, contract, runner
    base = {}
    bp = os.path.join(HERE, "baseline.json")
    if os.path.exists(bp): base = json.load(open(bp))
    ents = [e for e in runner.load_contracts() if PROP in e[1]]
    quick_only = TIER == "quick"
    if quick_only: ents = [e for e in ents if not e[3].get("thorough")]
    if ents:
        try:
            prog = astload.load()
        except Exception as x:
            extract_err = "extraction failed: %r" % (x,)
        if prog is not None:
            ents.sort(key=lambda e: -base.get(e[0], {}).get("secs", 30))
            left = BUDGET - (time.time() - T0)
            for i, (n, ps, fn, op) in enumerate(ents): ents[i] = (n, ps, fn, dict(op, wall=left if TIER != "quick" else min(left, max(240, 4 * base.get(n, {}).get("secs", 60)))))
            t_fail = []
            def stop(rs):
                """quick tier: once the replay program has a failing run of the real code, a refuted obligation (or two more minutes) is enough"""
                if TIER != "quick" or h.status != "fail": return False
                t_fail.append(time.time())
                return time.time() - t_fail[0] > 120 or any(o[1] == "failed" and PROP in o[5] for r in rs for o in r.obls)
            results = runner.run_all(prog, ents, stop=stop, only=(PROP,), jobs=7, wall=left, timeout=20000 if TIER == "quick" else 120000, deadline=T0 + BUDGET)
    th.join(max(1, T0 + BUDGET + 60 - time.time()))
    failed, unknown, undecided, proved, lost = [], [], [], [], []
    for r in results:
        b = base.get(r.name, {"inexact": [], "obls": {}})
        if r.error: undecided.append((r.name, r.error))
        elif r.vacuous: undecided.append((r.name, "contract is vacuous on this tree (no reachable exit)"))
        new_inexact = sorted({contract.norm(x) for x in r.inexact} - set(b["inexact"]))
        for o in r.obls:
            if PROP not in o[5]: continue
            if o[1] == "proved":
                if not r.error and not r.vacuous: proved.append((r.name, o))
            elif o[1] == "failed" and not new_inexact: failed.append((r.name, o))
            elif o[1] == "unknown" and not new_inexact and b.get("obls", {}).get(o[0], 999) <= 4: lost.append((r.name, o))
            else: unknown.append((r.name, o, new_inexact))
    if (failed or lost or unknown) and h.status == "pass": h.deeper()
    kn = known(); lines = []; viol = []
    rp_dir = mkd(os.path.join(HERE, "replays"))
    def replay(tag, text):
        p = os.path.join(rp_dir, "%s-%s.txt" % (PROP, tag)); open(p, "w").write(text); return p
    if h.status == "fail":
        key = next((k for k, w in kn if k.startswith("case:") and k[5:] in h.out), None)
        if key is None:
            txt = "Property %s is broken: a concrete run of the real code fails.\nTo replay: %s\n\n%s\n" % (PROP, h.cmd, h.out)
            for n, o in failed + lost: txt += "\nfailed obligation: %s (contract %s)\nverifier counterexample:\n%s\n" % (o[0], n, o[3])
            viol.append("VIOLATION property=%s replay=%s" % (PROP, replay("run", txt)))
    elif failed or lost:
        fresh = [(n, o) for n, o in failed + lost if not any(k == "obl:" + re.sub(r"\s+", "_", o[0]) for k, _ in kn)]
        if fresh:
            txt = "Property %s: the verifier refutes or no longer discharges the following obligations of the current source (no failing input found by the replay program: %s).\n" % (PROP, h.note or h.status)
            for n, o in fresh: txt += "\nfailed obligation: %s\n contract: %s\n kind: %s\n verifier output: %s\n%s\n" % (o[0], n, o[4], "sat (counterexample to the obligation)" if o[1] == "failed" else "unknown after %.0f s (discharged within seconds on the unchanged tree)" % o[2], o[3])
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay("obl", txt)))
    for k, w in kn: lines.append("KNOWN-FINDING: property=%s %s" % (PROP, w))
    fns = sorted({f for r in results if not r.error for f in r.functions})
    from contracts import lib
    n_obl = len(proved) + len(failed) + len(lost) + len(unknown)
    secs = sum(o[2] for _, o in proved) + sum(o[2] for _, o in failed + lost) + sum(x[1][2] for x in unknown)
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    level = man.get(PROP, {}).get("level", "proof")
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - T0, 1), violations=len(viol),
        coverage=dict(obligations=n_obl, discharged=len(proved), checker_cmd="python3-vt check.py " + PROP,
            trusted_base=["cdv (this repository's verification condition generator over clang's AST of the current sources)", "clang 18 front end", "z3 4.x/5.x and its real-arithmetic, array and uninterpreted-function theories"] + sorted(lib.TRUSTED_ALWAYS),
            back_end="z3 (python API) per obligation", solver_seconds=round(secs, 1),
            contracts={r.name: dict(obligations=len([o for o in r.obls if PROP in o[5]]), proved=len([o for o in r.obls if PROP in o[5] and o[1] == "proved"]), seconds=round(r.secs, 1), undecided=r.error, instances=r.insts) for r in results},
            functions_under_contract=fns, undecided_contracts=[list(u) for u in undecided] + ([["extraction", extract_err]] if extract_err else []),
            undecided_obligations=[[n, o[0], x] for n, o, x in unknown][:40], failed_obligations=[[n, o[0]] for n, o in failed + lost],
            bounded_supplement=dict(label="bounded: concrete replay program, not counted as proved", status=h.status, note=h.note, bound="random cases within the program's time budget", **h.stats, sample=h.sample)),
        assumptions=sorted(lib.assumptions(PROP, results)))
    if level in ("exploration",):
        ev["coverage"].update(evaluations=h.stats.get("cases", 0), distinct_nontrivial=h.stats.get("nontrivial", 0), rule="seeded random cases; non-trivial as counted by the program", samples=[h.sample])
    mkd(os.path.join(HERE, "evidence")); json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged over %d functions, %d contracts (%d undecided), replay program: %s %s%s, %.0fs" % (PROP, len(proved), n_obl, len(fns), len(results), len(undecided), h.status, h.stats, (" " + h.note) if h.note else "", time.time() - T0))
    for n, e in undecided: print("  undecided: %s: %s" % (n, e[:300]))
    for n, o, x in unknown[:20]: print("  unknown: %s: %s %s" % (n, o[0], x))
    for n, o in lost[:20]: print("  no longer discharged: %s: %s" % (n, o[0]))
    for n, o in failed[:20]: print("  failed: %s: %s" % (n, o[0]))
    for l in lines: print(l)
    for v in viol: print(v)
    sys.stdout.flush()
    shutil.rmtree(h.dir, ignore_errors=True)
    os._exit(1 if viol else 0)
main()
