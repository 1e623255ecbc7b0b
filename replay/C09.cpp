// CONF {"secs": 15}
#include "uct.h"
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    UctW w = uct_world(r, 5); Drv v; v.m = w.m; v.root = w.root; auto& m = *w.m;
    int pre = r.i(0, 25); for (int t = 0; t < pre; t++) v.trial(r, r.p());
    set<void*> seen; vector<UctDNode*> ds; walk(*w.root, seen, [&](ThtsDNode& d) { if (!d.is_leaf()) ds.push_back(&dynamic_cast<UctDNode&>(d)); }, [](ThtsCNode&) {});
    if (ds.empty()) return;
    for (int k = 0; k < 6; k++) {
        UctDNode& d = *ds[r.i(0, (int)ds.size() - 1)]; int s = sid(*d.state); int na = w.env->na[s];
        if (r.p(0.6)) { for (auto& p : d.children) { UctCNode& c = (UctCNode&)*p.second; c.num_visits = r.pick({0, 1, 2, 10, 1000}); c.avg_return = r.val(); } d.num_visits = r.pick({0, 1, 2, 50, 5000}); d.decision_timestep = r.i(0, 3); d.decision_depth = std::max(1, d.decision_depth); }
        if (r.p(0.3) && na > 1) for (int a = 0; a < na; a++) if (r.p(0.8)) d.create_child_node(mkA(a));
        map<int, pair<int, double>> st; for (auto& p : d.children) { UctCNode& c = (UctCNode&)*p.second; st[aid(*p.first)] = {c.num_visits, c.avg_return}; }
        auto before = d.children; int dv = d.num_visits; double da = d.avg_return; int db = d.num_backups;
        bool opp = m.is_two_player_game && (d.decision_timestep % 2 == 1); double sg = opp ? -1 : 1;
        double bias = m.bias; if (bias == -1.0) { bias = 0.001; for (auto& p : st) bias = std::max(bias, std::fabs(p.second.second)); }
        auto pr = m.prior_fn ? prior(d.state, w.env) : nullptr;
        vector<double> ucb(na); double best = -INFINITY;
        for (int a = 0; a < na; a++) { int nv = st.count(a) ? st[a].first : 0; double N = std::max(1, dv), n = std::max(1, nv);
            double t = w.puct ? std::pow(N, w.power) / n : std::sqrt(std::log(N) / n);
            ucb[a] = (st.count(a) ? sg * st[a].second : 0.0) + bias * t * (pr ? pr->at(mkA(a)) : 1.0); best = std::max(best, ucb[a]); }
        vector<int> untried; for (int a = 0; a < na; a++) if (!st.count(a)) untried.push_back(a);
        w.clear(); if (r.p(0.3)) w.fi().push_back(r.i(0, 100)); if (r.p(0.2)) w.fu().push_back(m.epsilon_exploration);
        auto ctx = w.env->sample_context_itfc(d.state);
        A act = d.select_action_itfc(*ctx); int a = aid(*act);
        CHECK(a >= 0 && a < na, "selected action %d is not legal (%d actions)", a, na);
        CHECK(d.has_child_node_itfc(act), "no child for the selected action %d", a);
        bool explored = m.epsilon_exploration > 0 && !w.us().empty() && w.us()[0] < m.epsilon_exploration;
        if (m.epsilon_exploration > 0) CHECK(!w.us().empty(), "no exploration draw although exploration probability is %g", m.epsilon_exploration);
        if (explored) {
            if (w.is().size() == 1) { CHECK(w.is()[0][2] - w.is()[0][1] == na, "exploration draws from %d values, there are %d legal actions", w.is()[0][2] - w.is()[0][1], na);
                set<int> got; for (int j = 0; j < na; j++) { w.clear(); w.fi().push_back(j); w.fu().push_back(0.0); got.insert(aid(*d.select_action_itfc(*ctx))); }
                CHECK((int)got.size() == na, "the %d outcomes of the exploration draw reach only %d actions", na, (int)got.size()); continue; } }
        else if (!pr && !untried.empty()) { bool in = false; for (int b : untried) in |= a == b; CHECK(in, "selected action %d although another action is untried", a); }
        else CHECK(ucb[a] >= best - 1e-9 * (1 + std::fabs(best)), "selected action %d has UCB value %.12g, the best is %.12g", a, ucb[a], best);
        for (auto& p : before) CHECK(d.children.count(p.first) && d.children.at(p.first) == p.second, "selection replaced an existing child");
        CHECK(d.children.size() == before.size() + (st.count(a) ? 0 : 1), "selection changed other children");
        CHECK(d.num_visits == dv && d.avg_return == da && d.num_backups == db, "selection changed the node's statistics");
        for (auto& p : before) { UctCNode& c = (UctCNode&)*p.second; CHECK(c.num_visits == st[aid(*p.first)].first && c.avg_return == st[aid(*p.first)].second, "selection changed a child's statistics");
            CHECK(c.node_lock.try_lock(), "a child is left locked"); c.node_lock.unlock(); }
        // distribution over tie breaks: every maximiser reachable, exploration reaches every action
        g_nontrivial++;
    }
}); }
