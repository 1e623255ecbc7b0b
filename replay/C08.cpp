// CONF {"secs": 15}
#include "uct.h"
struct Rec { long visits = 0, backups = 0; double sum = 0; };
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    UctW w = uct_world(r); map<void*, Rec> rec; set<void*> seen;
    auto init_d = [&](ThtsDNode& d) -> Rec& { auto it = rec.find(&d); if (it != rec.end()) return it->second; Rec x;
        if (w.m->heuristic_fn != nullptr) { double hv = w.env->sink[sid(*d.state)] ? 0.0 : w.m->heuristic_fn(d.state, w.env); x.visits = x.backups = w.m->heuristic_psuedo_trials; x.sum = hv * x.backups; }
        return rec[&d] = x; };
    auto check_d = [&](ThtsDNode& d) { UctDNode& n = dynamic_cast<UctDNode&>(d); Rec& x = init_d(d);
        CHECK(n.num_visits == x.visits, "decision node visit count is %d, expected %ld", n.num_visits, x.visits);
        CHECK(n.num_backups == x.backups, "decision node backup count is %d, expected %ld", n.num_backups, x.backups);
        if (x.backups > 0) CHECK_EQ(n.avg_return, x.sum / x.backups, "decision node average return"); };
    auto check_c = [&](ThtsCNode& d) { UctCNode& n = dynamic_cast<UctCNode&>(d); Rec& x = rec[&d];
        CHECK(n.num_visits == x.visits, "chance node visit count is %d, expected %ld", n.num_visits, x.visits);
        CHECK(n.num_backups == x.backups, "chance node backup count is %d, expected %ld", n.num_backups, x.backups);
        if (x.backups > 0) CHECK_EQ(n.avg_return, x.sum / x.backups, "chance node average return"); };
    auto check_all = [&] { set<void*> s; walk(*w.root, s, check_d, check_c); };
    Drv v; v.m = w.m; v.root = w.root;
    v.post_d = [&](ThtsDNode& d) { init_d(d).visits++; };
    v.post_c = [&](ThtsCNode& c) { rec[&c].visits++; };
    v.post_bd = [&](ThtsDNode& d, double x) { Rec& q = init_d(d); q.backups++; q.sum += x; };
    v.post_bc = [&](ThtsCNode& c, double x) { Rec& q = rec[&c]; q.backups++; q.sum += x; };
    check_all();
    int T = r.i(1, 40); bool rr = r.p(0.7);
    for (int t = 0; t < T; t++) { v.trial(r, rr); check_all(); }
    // long histories on a single node
    if (r.p(0.2)) { auto ctx = w.env->sample_context_itfc(w.root->state); vector<double> e; for (int i = 0; i < 200; i++) { double x = r.val(); w.root->backup_itfc(e, e, x, -x, *ctx); v.post_bd(*w.root, x); } check_all(); }
    // visits and backups interleaved arbitrarily over the tree, as concurrent trials do
    { vector<ThtsDNode*> ds; vector<ThtsCNode*> cs; set<void*> sn; walk(*w.root, sn, [&](ThtsDNode& d) { ds.push_back(&d); }, [&](ThtsCNode& c) { cs.push_back(&c); });
      auto ctx = w.env->sample_context_itfc(w.root->state); vector<double> e;
      for (int i = 0; i < 60; i++) { double x = r.val(); ThtsDNode& d = *ds[r.i(0, (int)ds.size() - 1)]; ThtsCNode* c = cs.empty() ? nullptr : cs[r.i(0, (int)cs.size() - 1)];
          switch (r.i(0, 3)) { case 0: d.visit_itfc(*ctx); v.post_d(d); break; case 1: d.backup_itfc(e, e, x, x + 7, *ctx); v.post_bd(d, x); break;
              case 2: if (c) { c->visit_itfc(*ctx); v.post_c(*c); } break; default: if (c) { c->backup_itfc(e, e, x, x - 7, *ctx); v.post_bc(*c, x); } }
          check_all(); } }
    // and the pool itself
    if (!rec.empty() && r.p(0.5)) { int N = r.i(1, 20), k0 = w.root->get_num_visits(); { ThtsPool pool(w.m, w.root, r.i(1, 3)); pool.run_trials(N); }
        CHECK(w.root->get_num_visits() == k0 + N, "root visit count grew by %d over %d trials", w.root->get_num_visits() - k0, N); }
    g_nontrivial += rec.size() > 3;
}); }
