// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "lockwatch.h"
#include "multi.h"
void lw_fail(const char* what, void* a, void* b) { t_lw.in = true; h::fail("C06.cpp", 0, "%s (%s, %s)", what, lw_name(a).c_str(), lw_name(b).c_str()); }
static void cycles(std::map<void*, std::set<void*>>& e) { // any cycle means that two threads can wait for each other
    map<void*, int> col; vector<void*> st; function<void(void*)> dfs = [&](void* u) { col[u] = 1; st.push_back(u); auto it = e.find(u); if (it != e.end()) for (void* v : it->second) { if (col[v] == 1) { string s; bool on = false; for (void* x : st) { if (x == v) on = true; if (on) s += lw_name(x) + " -> "; } s += lw_name(v); h::fail("C06.cpp", 0, "locks are acquired in a cyclic order: %s", s.c_str()); } if (!col[v]) dfs(v); } st.pop_back(); col[u] = 2; };
    for (auto& p : e) if (!col[p.first]) dfs(p.first); h::g_checks++; }
int main(int argc, char** argv) { watchdog(40, "trials do not make progress: deadlock"); return run_cases(argc, argv, [](R& r) {
    bool tt = r.p(0.7); AW w = any_world(r, tt, g_case < 8 ? g_case : -1); int K = r.pick({1, 2, 4, 8}); w.log->set_trials_delta(r.pick({1, 3})); g_perturb = r.pick({0, 10, 100}); h::g_desc += strf(" threads=%d", K);
    std::map<void*, std::set<void*>> edges; std::map<void*, string> names; g_edges = &edges; g_names = nullptr; g_lw_on = true;
    { ThtsPool pool(w.m, w.root, K, w.log); for (int q = 0; q < 2; q++) { pool.run_trials(r.i(5, 30), 1e6, r.p()); usleep(r.pick({0, 200})); pool.join(); g_tick++; }
      g_perturb = 0; g_lw_on = false; g_edges = nullptr;
      set<void*> seen; walk(*w.root, seen, [&](ThtsDNode& d) { names[d.get_lock().native_handle()] = strf("decision node at depth %d", d.decision_depth); }, [&](ThtsCNode& c) { names[c.get_lock().native_handle()] = strf("chance node at depth %d", c.decision_depth); });
      if constexpr (requires { w.m->rng_lock; }) names[w.m->rng_lock.native_handle()] = "random generator"; for (auto& m : w.m->dmap_mutexes) names[m.native_handle()] = "transposition table";
      [&](auto& p) { if constexpr (requires { p.logging_lock; }) names[p.logging_lock.native_handle()] = "logger"; }(pool);
      g_names = &names; cycles(edges);
      // the documented order: logger, nodes downwards, transposition table, random generator
      auto rank = [&](void* m) { auto it = names.find(m); if (it == names.end()) return -1; const string& s = it->second; if (s == "logger") return 1; if (s == "random generator") return 100000; if (s == "transposition table") return 50000; int dep = atoi(s.c_str() + s.rfind(' ')); return 10 + 2 * dep + (s[0] == 'c'); };
      for (auto& p : edges) for (void* v : p.second) { int a = rank(p.first), b = rank(v); if (a >= 0 && b >= 0) CHECK(a < b || (a == b && a < 50000), "the lock of %s is acquired while that of %s is held", lw_name(v).c_str(), lw_name(p.first).c_str()); }
      g_nontrivial += !edges.empty(); g_names = nullptr; }
}); }
