#pragma once
#include "h.h"
#include "config.h"
#include "algorithms/common/decaying_temp.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
enum { MENTS, RENTS, TENTS, DBMENTS, DENTS, EST };
static const char* ALG[] = {"MENTS", "RENTS", "TENTS", "DB-MENTS", "DENTS", "EST"};
static TempDecayFnPtr DECAY[3] = {decayed_temp_inv_sqrt, decayed_temp_inv_log, decayed_temp_sigmoid};
static double decay_spec(int f, double x) { return f == 0 ? 1 / std::sqrt(1 + x) : f == 1 ? 1 / std::log(std::exp(1.0) + x) : (1 + std::exp(-5.0)) / (1 + std::exp(x - 5.0)); }
static bool g_tiny_prior = false;
inline shared_ptr<ActionPrior> prior2(S s, shared_ptr<ThtsEnv> env) {
    auto p = prior(s, env); if (!g_tiny_prior || p->size() < 2) return p; auto first = p->find(mkA(sid(*s) % (int)p->size())); double w = first->second; first->second = 0.0; for (auto& x : *p) x.second /= (1 - w); return p; }
struct MW { int alg; shared_ptr<TabEnv> env; shared_ptr<Scr<DentsManager>> m; shared_ptr<ThtsDNode> root; int tf = -1, vf = -1;
    double temp(MentsDNode& d) const { if (tf < 0) return m->temp; double sc = d.decision_depth == 0 && m->temp_decay_root_node_visits_scale > 0 ? m->temp_decay_root_node_visits_scale : m->temp_decay_visits_scale; return std::max(m->temp_decay_min_temp, m->temp * decay_spec(tf, sc * d.num_visits)); }
    double vtemp(ThtsDNode& d) const { if (vf < 0) return m->value_temp_init; double sc = d.decision_depth == 0 && m->value_temp_decay_root_node_visits_scale > 0 ? m->value_temp_decay_root_node_visits_scale : m->value_temp_decay_visits_scale; return std::max(m->value_temp_decay_min_temp, m->value_temp_init * decay_spec(vf, sc * d.num_visits)); }
    double vtemp_c(ThtsCNode& d) const { if (vf < 0) return m->value_temp_init; return std::max(m->value_temp_decay_min_temp, m->value_temp_init * decay_spec(vf, m->value_temp_decay_visits_scale * d.num_visits)); }
    double opp(ThtsDNode& d) const { return m->is_two_player_game && d.decision_timestep % 2 == 1 ? -1 : 1; }
    static double logw(double w) { return w >= 1e32 ? 32 : w <= 1e-32 ? -32 : std::log(w); }
    double qval(MentsDNode& d, int a) const { double o = opp(d); A act = mkA(a);
        if (d.children.count(act)) { auto c = d.children.at(act);
            if (alg <= DBMENTS) return o * dynamic_cast<MentsCNode&>(*c).soft_value;
            auto& x = dynamic_cast<DentsCNode&>(*c); double v = m->use_dp_value ? x.dp_value : x.avg_return; return alg == EST ? o * v : o * (v + vtemp(d) * x.subtree_entropy); }
        if (m->prior_fn) { auto p = m->prior_fn(d.state, env); double off = 0; if (m->shift_pseudo_q_values) { double s = 0; for (auto& x : *p) s += logw(x.second); off = m->psuedo_q_value_offset - s / p->size(); } return logw(p->at(act)) + off; }
        return o * m->default_q_value; }
    int na(ThtsDNode& d) const { return env->sink[sid(*d.state)] ? 0 : env->na[sid(*d.state)]; }
};
inline MW ments_world(R& r, int alg = -1, int maxa = 4) {
    MW w; w.alg = alg < 0 ? r.i(0, 5) : alg; w.env = make_shared<TabEnv>(r, r.i(2, 7), maxa, 3, r.p());
    DentsManagerArgs a(w.env); common_args(r, a); g_tiny_prior = r.p(0.3); if (a.prior_fn) a.prior_fn = prior2;
    a.temp = r.pick({1.0, 0.1, 5.0, r.d(0.05, 3)}); a.epsilon = r.pick({0.0, 0.5, 0.1, 2.0}); a.root_node_epsilon = r.pick({-1.0, 0.0, 0.3, 4.0}); a.max_explore_prob = r.pick({1.0, 1.0, 0.5, 0.0});
    if (a.prior_fn) a.prior_policy_search_weight = r.pick({0.0, 0.3, 1.0, 1.05}); a.default_q_value = r.pick({0.0, 0.0, -3.0, 2.0}); a.shift_pseudo_q_values = r.p(0.4); a.psuedo_q_value_offset = r.pick({0.0, 1.5, -2.0});
    w.tf = r.i(-1, 2); a.temp_decay_fn = w.tf < 0 ? nullptr : DECAY[w.tf]; a.temp_decay_min_temp = r.pick({0.05, 0.2}); a.temp_decay_visits_scale = r.pick({1.0, 0.1}); a.temp_decay_root_node_visits_scale = r.pick({-1.0, 0.05});
    w.vf = r.i(-1, 2); a.value_temp_decay_fn = w.vf < 0 ? nullptr : DECAY[w.vf]; a.value_temp_init = r.d(0.1, 3); a.value_temp_decay_min_temp = r.pick({1e-6, 0.2}); a.value_temp_decay_visits_scale = r.pick({1.0, 0.1}); a.value_temp_decay_root_node_visits_scale = r.pick({-1.0, 0.05});
    a.use_dp_value = r.p(0.6); a.recommend_most_visited = r.p(0.4); a.recommend_visit_threshold = r.pick({0, 0, 1, 2, 5});
    h::g_desc = strf("%s temp=%g/%d eps=%g root=%g max=%g pw=%g q0=%g shift=%d off=%g usedp=%d mostvis=%d thr=%d tiny=%d ", ALG[w.alg], a.temp, w.tf, a.epsilon, a.root_node_epsilon, a.max_explore_prob, a.prior_policy_search_weight, a.default_q_value, a.shift_pseudo_q_values, a.psuedo_q_value_offset, a.use_dp_value, a.recommend_most_visited, a.recommend_visit_threshold, g_tiny_prior) + dsc(a);
    w.m = make_shared<Scr<DentsManager>>(a); keeps_DentsManager(*w.m, a); w.m->own = R(r.g()); S s = w.env->get_initial_state_itfc();
    switch (w.alg) { case MENTS: w.root = make_shared<MentsDNode>(w.m, s, 0, 0); break; case RENTS: w.root = make_shared<RentsDNode>(w.m, s, 0, 0); break; case TENTS: w.root = make_shared<TentsDNode>(w.m, s, 0, 0); break;
        case DBMENTS: w.root = make_shared<DBMentsDNode>(w.m, s, 0, 0); break; case DENTS: w.root = make_shared<DentsDNode>(w.m, s, 0, 0); break; default: w.root = make_shared<EstDNode>(w.m, s, 0, 0); }
    return w;
}
// independent computation of the search policies; state per trial (RENTS: policies of the ancestors) and per node (TENTS: stored action values)
struct Spec { MW& w; map<int, map<int, double>> by_depth; map<void*, map<int, double>> stored; bool amb = false;
    Spec(MW& w) : w(w) {}
    map<int, double>& st(MentsDNode& d) { auto it = stored.find(&d); if (it != stored.end()) return it->second; auto& q = stored[&d];
        auto kids = d.children; int v = d.num_visits; d.children.clear(); d.num_visits = 0; for (int a = 0; a < w.na(d); a++) q[a] = w.qval(d, a) / w.temp(d); d.children = kids; d.num_visits = v; return q; }
    static vector<int> sparse(const map<int, double>& q, bool& amb) { vector<pair<double, int>> v; for (auto& p : q) v.push_back({-p.second, p.first}); std::sort(v.begin(), v.end()); vector<int> s; double sum = 0; int i = 0; for (auto& p : v) { i++; sum += -p.first; double l = 1 + i * -p.first; if (std::fabs(l - sum) < 1e-9) amb = true; if (l > sum) s.push_back(p.second); } return s; }
    double spmax(MentsDNode& d) { auto& q = st(d); auto s = sparse(q, amb); double sum = 0, k = s.size(); for (int a : s) sum += q[a]; double r = 0.5; for (int a : s) r += q[a] * q[a] / 2 - (sum - 1) * (sum - 1) / (2 * k * k); return r; }
    // unnormalised weights, their sum and the max of q/temp
    vector<double> weights(MentsDNode& d, double& sum, double& mx) { int n = w.na(d); vector<double> q(n), x(n); double t = w.temp(d); mx = -INFINITY; for (int a = 0; a < n; a++) { q[a] = w.qval(d, a) / t; mx = std::max(mx, q[a]); } sum = 0;
        if (w.alg == TENTS) { auto s = sparse(st(d), amb); double ss = 0; for (int a : s) ss += q[a]; for (int a = 0; a < n; a++) { x[a] = std::max(0.0, q[a] - (ss - 1) / s.size()); sum += x[a]; } }
        else for (int a = 0; a < n; a++) { x[a] = std::exp(q[a] - mx); if (w.alg == RENTS && d.decision_depth > 0) { auto& p = by_depth[d.decision_depth - 1]; x[a] *= p.count(a) ? p[a] : 0.0; } sum += x[a]; }
        if ((w.alg == RENTS || w.alg == TENTS) && std::fabs(sum - 1e-16) < 1e-18) amb = true;
        if ((w.alg == RENTS || w.alg == TENTS) && sum < 1e-16) { for (int a = 0; a < n; a++) x[a] = 1.0 / n; sum = 1; }
        return x; }
    map<int, double> policy(MentsDNode& d) { double sum, mx; int n = w.na(d); auto x = weights(d, sum, mx); auto& m = *w.m; double e = d.decision_depth == 0 && m.root_node_epsilon > 0 ? m.root_node_epsilon : m.epsilon;
        double l = e <= 0 ? 0 : d.num_visits == 0 ? m.max_explore_prob : std::min(m.max_explore_prob, e / std::log(d.num_visits + 1.0)), mu = m.prior_policy_search_weight > 0 ? m.prior_policy_search_weight / std::log(d.num_visits + 3.0) : 0; auto pr = m.prior_fn ? m.prior_fn(d.state, w.env) : nullptr;
        map<int, double> p; for (int a = 0; a < n; a++) { double v = (1 - l) * ((1 - mu) * x[a] / sum + (mu > 0 ? mu * pr->at(mkA(a)) : 0)) + l / n; if (std::fabs(v - 1e-16) < 1e-17) amb = true; if (v >= 1e-16) p[a] = v; } return p; }
};
