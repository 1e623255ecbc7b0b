// CONF {"secs": 15}
#include "ments.h"
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    MW w = ments_world(r, r.i(DBMENTS, EST)); if (w.alg != DBMENTS) w.m->use_dp_value = true; Drv v; v.m = w.m; v.root = w.root; int b0 = 0; map<void*, pair<int, double>> snap;
    auto D = [](ThtsDNode& d) -> DPDNode& { return dynamic_cast<DPDNode&>(d); }; auto C = [](ThtsCNode& c) -> DPCNode& { return dynamic_cast<DPCNode&>(c); };
    auto kids_d = [&](ThtsDNode& d) { snap.clear(); for (auto& p : d.children) snap[p.second.get()] = {C(*p.second).num_backups, C(*p.second).dp_value}; };
    auto kids_c = [&](ThtsCNode& c) { snap.clear(); for (auto& p : c.children) snap[p.second.get()] = {D(*p.second).num_backups, D(*p.second).dp_value}; };
    v.pre_d = [&](ThtsDNode& d) { b0 = D(d).num_backups; }; v.post_d = [&](ThtsDNode& d) { CHECK(D(d).num_backups == b0 + (d.is_leaf() ? 1 : 0), "a visit changed the dp backup count from %d to %d (leaf %d)", b0, D(d).num_backups, d.is_leaf()); };
    v.pre_bd = [&](ThtsDNode& d) { b0 = D(d).num_backups; kids_d(d); }; v.pre_bc = [&](ThtsCNode& c) { b0 = C(c).num_backups; kids_c(c); };
    v.post_bd = [&](ThtsDNode& d, double) { auto& x = D(d); double o = w.opp(d), best = -INFINITY; for (auto& p : snap) if (p.second.first > 0) best = std::max(best, o * p.second.second);
        CHECK(x.num_backups == b0 + 1, "a backup changed the dp backup count from %d to %d", b0, x.num_backups); if (best > -INFINITY) CHECK_EQ(x.dp_value, o * best, "Bellman value of a decision node");
        for (auto& p : d.children) CHECK(snap[p.second.get()] == std::make_pair(C(*p.second).num_backups, C(*p.second).dp_value), "a backup changed a child"); g_nontrivial++; };
    v.post_bc = [&](ThtsCNode& c, double) { auto& x = C(c); double n = 0, s = 0; for (auto& p : snap) if (p.second.first > 0) { n += p.second.first; s += p.second.first * p.second.second; }
        CHECK(x.num_backups == b0 + 1, "a backup changed the chance node's dp backup count from %d to %d", b0, x.num_backups); CHECK_EQ(x.dp_value, w.env->rew(sid(*c.state), aid(*c.action)) + (n > 0 ? s / n : 0), "Bellman value of a chance node");
        for (auto& p : c.children) CHECK(snap[p.second.get()] == std::make_pair(D(*p.second).num_backups, D(*p.second).dp_value), "a backup changed a child"); };
    int T = r.i(1, 25); for (int t = 0; t < T; t++) { v.trial(r, r.p());
        if (r.p(0.4)) { set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { if (r.p(0.4)) { D(d).dp_value = r.val() * 3; D(d).num_backups = r.pick({0, 1, 2, 17}); } }, [&](ThtsCNode& c) { if (r.p(0.4)) { C(c).dp_value = r.val() * 3; C(c).num_backups = r.pick({0, 1, 5}); } }); } }
}); }
