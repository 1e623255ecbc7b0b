// CONF {"secs": 20}
#include "ments.h"
struct Cnt { int dp, ent, emp; double sum; };
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    MW w = ments_world(r, r.i(DENTS, EST)); Spec sp(w); Drv v; v.m = w.m; v.root = w.root; map<void*, Cnt> cn; map<int, double> pol; bool clean = true; double kidsum = 0;
    auto D = [](ThtsDNode& d) -> DentsDNode& { return dynamic_cast<DentsDNode&>(d); }; auto C = [](ThtsCNode& c) -> DentsCNode& { return dynamic_cast<DentsCNode&>(c); };
    auto cd = [&](ThtsDNode& d) -> Cnt& { auto it = cn.find(&d); if (it != cn.end()) return it->second; double hv = w.m->heuristic_fn && !w.env->sink[sid(*d.state)] ? w.m->heuristic_fn(d.state, w.env) : 0; return cn[&d] = {1, 1, 1, hv}; };
    auto cc = [&](ThtsCNode& c) -> Cnt& { auto it = cn.find(&c); if (it != cn.end()) return it->second; return cn[&c] = {0, 0, 0, 0}; };
    auto H = [&](map<int, double>& p) { double h = 0; for (auto& x : p) if (x.second > 0) h -= x.second * std::log(x.second); return h; };
    bool perturbed = false;
    auto counts_d = [&](ThtsDNode& d) { if (perturbed) return; auto& x = D(d); auto& k = cd(d); if (w.m->use_dp_value) CHECK(x.DPDNode::num_backups == k.dp, "value count of a decision node is %d, expected %d", x.DPDNode::num_backups, k.dp); else { CHECK(x.EmpNode::num_backups == k.emp, "mean-return count of a decision node is %d, expected %d", x.EmpNode::num_backups, k.emp); CHECK_EQ(x.avg_return, k.sum / k.emp, "mean return of a decision node"); } if (w.alg == DENTS) CHECK(x.EntDNode::num_backups == k.ent, "entropy count of a decision node is %d, expected %d", x.EntDNode::num_backups, k.ent); };
    auto counts_c = [&](ThtsCNode& c) { if (perturbed) return; auto& x = C(c); auto& k = cc(c); if (w.m->use_dp_value) CHECK(x.DPCNode::num_backups == k.dp, "value count of a chance node is %d, expected %d", x.DPCNode::num_backups, k.dp); else { CHECK(x.EmpNode::num_backups == k.emp, "mean-return count of a chance node is %d, expected %d", x.EmpNode::num_backups, k.emp); if (k.emp) CHECK_EQ(x.avg_return, k.sum / k.emp, "mean return of a chance node"); } if (w.alg == DENTS) CHECK(x.EntCNode::num_backups == k.ent, "entropy count of a chance node is %d, expected %d", x.EntCNode::num_backups, k.ent); };
    auto initial = [&](ThtsDNode& d) { if (cn.count(&d)) return; cd(d); auto kids = d.children; int nv = d.num_visits; counts_d(d); if (w.alg == DENTS && kids.empty() && w.na(d) > 0) { sp.amb = false; auto p = sp.policy(D(d)); if (!sp.amb) CHECK_EQ(D(d).subtree_entropy, w.opp(d) * H(p), "initial subtree entropy"); } (void)nv; };
    v.pre_d = [&](ThtsDNode& d) { initial(d); };
    v.post_d = [&](ThtsDNode& d) { auto& k = cd(d); if (d.is_leaf()) { k.dp++; k.ent++; } counts_d(d); };
    v.pre_sel = [&](ThtsDNode& d) { for (int a = 0; a < w.na(d); a++) CHECK_EQ(D(d).get_soft_q_value(mkA(a), w.opp(d)), w.qval(D(d), a), "soft action value"); };
    v.pre_bd = [&](ThtsDNode& d) { sp.amb = false; pol = sp.policy(D(d)); clean = !sp.amb; kidsum = 0; for (auto& p : d.children) if (pol.count(aid(*p.first))) kidsum += pol[aid(*p.first)] * C(*p.second).subtree_entropy; };
    v.post_bd = [&](ThtsDNode& d, double ret) { auto& x = D(d); auto& k = cd(d); k.dp++; k.ent++; k.emp++; k.sum += ret; counts_d(d);
        if (w.alg == DENTS) { if (clean) { CHECK_EQ(x.local_entropy, H(pol), "entropy of the policy"); CHECK_EQ(x.subtree_entropy, w.opp(d) * H(pol) + kidsum, "subtree entropy of a decision node"); }
            double val = w.m->use_dp_value ? x.dp_value : x.avg_return; if (std::isfinite(val)) CHECK_EQ(x.soft_value, val + w.vtemp(d) * x.subtree_entropy, "combined value of a decision node"); } g_nontrivial++; };
    v.post_bc = [&](ThtsCNode& c, double ret) { auto& x = C(c); auto& k = cc(c); k.dp++; k.ent++; k.emp++; k.sum += ret; counts_c(c);
        if (w.alg == DENTS) { double n = 0, s = 0; for (auto& p : c.children) { auto& ch = D(*p.second); n += ch.EntDNode::num_backups; s += ch.EntDNode::num_backups * ch.subtree_entropy; } CHECK_EQ(x.subtree_entropy, n > 0 ? s / n : 0.0, "subtree entropy of a chance node");
            double val = w.m->use_dp_value ? x.dp_value : x.avg_return; CHECK_EQ(x.soft_value, val + w.vtemp_c(c) * x.subtree_entropy, "combined value of a chance node"); }
        for (auto& p : c.children) initial(*p.second); };
    int T = r.i(1, 20); bool rr = r.p(0.7); for (int t = 0; t < T; t++) v.trial(r, rr);
    if (r.p(0.5)) { perturbed = true; for (int t = 0; t < 5; t++) { set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { if (r.p(0.4)) { D(d).subtree_entropy = r.val(); D(d).EntDNode::num_backups = r.pick({0, 1, 2, 17}); D(d).DPDNode::num_backups = r.i(0, 4); } }, [&](ThtsCNode& c) { if (r.p(0.4)) { C(c).dp_value = r.val() * 3; C(c).avg_return = r.val(); C(c).subtree_entropy = r.val(); } }); v.trial(r, rr); } }
}); }
