// CONF {"secs": 20}
#include "ments.h"
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    MW w = ments_world(r); Spec sp(w); Drv v; v.m = w.m; v.root = w.root; map<int, double> pol; bool clean = true;
    auto D = [](ThtsDNode& d) -> MentsDNode& { return dynamic_cast<MentsDNode&>(d); };
    v.begin = [&] { sp.by_depth.clear(); };
    v.pre_d = [&](ThtsDNode& d) { if (w.alg == TENTS) sp.st(D(d)); };
    map<int, int> sel;
    v.post_bd = [&](ThtsDNode& d, double) { if (w.alg == TENTS) { int a = sel[d.decision_depth]; sp.st(D(d))[a] = w.qval(D(d), a) / w.temp(D(d)); } };
    auto check_distr = [&](ThtsDNode& d, ThtsEnvContext& ctx) { ActionDistr got; D(d).compute_action_distribution(got, ctx); sp.amb = false; pol = sp.policy(D(d)); clean = !sp.amb; if (!clean) return; double tot = 0;
        for (auto& p : got) { CHECK(p.second >= 0, "negative probability"); tot += p.second; int a = aid(*p.first); CHECK(a >= 0 && a < w.na(d), "distribution over an illegal action"); CHECK(pol.count(a) || p.second < 1e-12, "action %d has probability %.12g, expected none", a, p.second); }
        for (auto& p : pol) { double g = got.count(mkA(p.first)) ? got.at(mkA(p.first)) : 0; CHECK(near(g, p.second), "action %d has probability %.12g, the configured mixture is %.12g (visits %d, depth %d)", p.first, g, p.second, d.num_visits, d.decision_depth); if (p.second > 1e-15) CHECK(got.count(mkA(p.first)), "action %d with probability %.12g was dropped", p.first, p.second); }
        CHECK(near(tot, 1.0), "probabilities sum to %.12g", tot); };
    v.pre_sel = [&](ThtsDNode& d) { check_distr(d, *v.ctx); if (w.alg == RENTS) sp.by_depth[d.decision_depth] = pol; };
    v.post_sel = [&](ThtsDNode& d, A a) { sel[d.decision_depth] = aid(*a); CHECK(aid(*a) >= 0 && aid(*a) < w.na(d), "illegal action selected"); CHECK(d.has_child_node_itfc(a), "selected action has no child"); if (clean) CHECK(pol.count(aid(*a)), "selected action %d has no probability", aid(*a)); g_nontrivial++; };
    int T = r.i(1, 15); for (int t = 0; t < T; t++) v.trial(r, r.p());
    // arbitrary statistics, root and inner nodes; then the selection as a function of the draw
    vector<ThtsDNode*> ds; set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { if (!d.is_leaf()) ds.push_back(&d); }, [](ThtsCNode&) {});
    for (int k = 0; k < 3 && !ds.empty(); k++) { auto& d = *ds[r.i(0, (int)ds.size() - 1)]; if (w.alg == RENTS && d.decision_depth > 0) continue;
        for (int a = 0; a < w.na(d); a++) d.create_child_node_itfc(mkA(a)); if (w.alg != TENTS) { d.num_visits = r.pick({0, 1, 2, 30, 4000}); for (auto& p : d.children) { auto& c = dynamic_cast<MentsCNode&>(*p.second); c.soft_value = r.val(); if (w.alg >= DENTS) { auto& x = dynamic_cast<DentsCNode&>(*p.second); x.dp_value = r.val(); x.avg_return = r.val(); x.subtree_entropy = r.val(); } } }
        auto ctx = w.env->sample_context_itfc(d.state); check_distr(d, *ctx); if (!clean) continue; const int K = 200; map<int, int> c; for (int i = 0; i < K; i++) { w.m->clear(); w.m->fu.push_back((i + 0.5) / K); c[aid(*d.select_action_itfc(*ctx))]++; }
        for (int a = 0; a < w.na(d); a++) { double p = pol.count(a) ? pol[a] : 0; CHECK(std::fabs((double)c[a] / K - p) < 1.5 / K, "action %d is selected for a share %.4g of the draws, its probability is %.4g", a, (double)c[a] / K, p); } }
}); }
