// CONF {"secs": 12, "tsan": true, "tsan_secs": 25, "ldflags": ["-ldl"]}
#include "multi.h"
static void free_locks(ThtsDNode& root, const char* when) { set<void*> seen; walk(root, seen, [&](ThtsDNode& d) { bool f = false; std::thread([&] { f = d.get_lock().try_lock(); if (f) d.get_lock().unlock(); }).join(); CHECK(f, "a decision node is left locked %s", when); }, [&](ThtsCNode& c) { bool f = false; std::thread([&] { f = c.get_lock().try_lock(); if (f) c.get_lock().unlock(); }).join(); CHECK(f, "a chance node is left locked %s", when); }); }
static void held_by_me(ThtsDNode* d, ThtsCNode* c, const char* when) { bool f = true; std::thread([&] { std::mutex& m = d ? d->get_lock() : c->get_lock(); f = m.try_lock(); if (f) m.unlock(); }).join(); CHECK(!f, "%s released the lock its caller holds", when); }
// a random generator that reports concurrent entry is the library's own; here only the trials' effects are watched
int main(int argc, char** argv) { watchdog(60, "trials do not make progress (a lock was not released)"); return run_cases(argc, argv, [](R& r) {
    bool tt = r.p(0.6); AW w = any_world(r, tt, g_case < 8 ? g_case : -1); int K = r.pick({2, 4, 8});
#ifndef TSAN_RUN
    if (r.p(0.4)) { // sequential: every operation returns the locks it took, and only those
        auto ctx = w.env->sample_context_itfc(w.root->state); vector<double> e;
        for (int t = 0; t < 4; t++) { ctx = w.env->sample_context_itfc(w.root->state); auto cur = w.root; vector<pair<shared_ptr<ThtsDNode>, shared_ptr<ThtsCNode>>> path; while (!cur->is_leaf() && path.size() < 8) {
            cur->lock(); cur->visit_itfc(*ctx); held_by_me(cur.get(), nullptr, "visit"); A a = cur->select_action_itfc(*ctx); held_by_me(cur.get(), nullptr, "select_action"); auto c = cur->get_child_node_itfc(a); cur->unlock(); free_locks(*w.root, "by select_action");
            c->lock(); c->visit_itfc(*ctx); O o = c->sample_observation_itfc(*ctx); held_by_me(nullptr, c.get(), "sample_observation"); auto nx = c->get_child_node_itfc(o); c->unlock(); free_locks(*w.root, "by sample_observation"); path.push_back({cur, c}); cur = nx; }
          cur->lock(); cur->visit_itfc(*ctx); cur->unlock(); free_locks(*w.root, "by visit");
          for (int i = (int)path.size() - 1; i >= 0; i--) { path[i].second->lock(); path[i].second->backup_itfc(e, e, r.val(), r.val(), *ctx); held_by_me(nullptr, path[i].second.get(), "backup"); path[i].second->unlock(); free_locks(*w.root, "by a chance node's backup"); path[i].first->lock(); path[i].first->backup_itfc(e, e, r.val(), r.val(), *ctx); held_by_me(path[i].first.get(), nullptr, "backup"); path[i].first->unlock(); free_locks(*w.root, "by a decision node's backup"); } }
        auto c2 = w.env->sample_context_itfc(w.root->state); if (!w.root->is_leaf()) w.root->recommend_action_itfc(*c2); free_locks(*w.root, "by recommend_action"); g_nontrivial++; return; }
    g_perturb = r.pick({0, 5, 50});
#endif
    w.log->set_trials_delta(r.pick({1, 3, 1000})); h::g_desc += strf(" threads=%d", K);
    { ThtsPool pool(w.m, w.root, K, r.p(0.7) ? w.log : nullptr);
      int N = r.i(10, 60);
      for (int q = 0; q < 2; q++) { int v0 = w.root->get_num_visits(); pool.run_trials(N, 1e6, r.p()); pool.join(); CHECK(w.root->get_num_visits() == v0 + N, "root visits grew by %d over %d trials", w.root->get_num_visits() - v0, N); g_tick++; } }
    free_locks(*w.root, "after the search");
    long sum = 0; for (auto& p : w.root->children) sum += p.second->num_visits; if (!w.root->is_leaf()) { long ps = w.root->num_visits; if (w.alg < 2 && w.m->heuristic_fn != nullptr) ps -= ((UctManager&)*w.m).heuristic_psuedo_trials; CHECK(sum == ps, "visits of the root's children sum to %ld, root was visited %ld times", sum, ps); }
    g_nontrivial++;
}); }
