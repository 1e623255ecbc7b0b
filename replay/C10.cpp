// CONF {"secs": 20}
#include "ments.h"
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    MW w = ments_world(r, r.i(MENTS, DBMENTS)); Spec sp(w); Drv v; v.m = w.m; v.root = w.root; map<void*, int> cnt; map<int, int> sel; map<void*, pair<int, double>> snap;
    auto D = [](ThtsDNode& d) -> MentsDNode& { return dynamic_cast<MentsDNode&>(d); }; auto C = [](ThtsCNode& c) -> MentsCNode& { return dynamic_cast<MentsCNode&>(c); };
    auto others = [&] { snap.clear(); set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { snap[&d] = {D(d).num_backups, D(d).soft_value}; }, [&](ThtsCNode& c) { snap[&c] = {C(c).num_backups, C(c).soft_value}; }); };
    auto same = [&](void* but) { set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { if (&d != but && snap.count(&d)) CHECK(snap[&d] == std::make_pair(D(d).num_backups, D(d).soft_value), "a backup changed another decision node"); }, [&](ThtsCNode& c) { if (&c != but && snap.count(&c)) CHECK(snap[&c] == std::make_pair(C(c).num_backups, C(c).soft_value), "a backup changed another chance node"); }); };
    bool frame = r.p(0.3); int b0 = 0;
    v.begin = [&] { sp.by_depth.clear(); sel.clear(); };
    v.pre_d = [&](ThtsDNode& d) { b0 = D(d).num_backups; if (w.alg == TENTS) sp.st(D(d)); };
    v.post_d = [&](ThtsDNode& d) { CHECK(D(d).num_backups == b0 + (d.is_leaf() ? 1 : 0), "a visit changed the backup count from %d to %d", b0, D(d).num_backups); };
    v.pre_sel = [&](ThtsDNode& d) { if (w.alg == RENTS) sp.by_depth[d.decision_depth] = sp.policy(D(d)); };
    v.post_sel = [&](ThtsDNode& d, A a) { sel[d.decision_depth] = aid(*a); };
    v.pre_bd = [&](ThtsDNode& d) { b0 = D(d).num_backups; if (frame) others(); };
    v.pre_bc = [&](ThtsCNode& c) { b0 = C(c).num_backups; if (frame) others(); };
    v.post_bd = [&](ThtsDNode& d, double) { auto& x = D(d); sp.amb = false; double want, t = w.temp(x), o = w.opp(x), sum, mx;
        if (w.alg == TENTS) { int a = sel[d.decision_depth]; sp.st(x)[a] = w.qval(x, a) / t; want = o * t * sp.spmax(x); }
        else { sp.weights(x, sum, mx); want = o * t * (std::log(sum) + mx); }
        CHECK(x.num_backups == b0 + 1, "a backup changed the backup count from %d to %d", b0, x.num_backups);
        if (!sp.amb) CHECK(near(x.soft_value, want), "soft value after a backup is %.12g, the soft backup is %.12g (depth %d, %d children of %d actions)", x.soft_value, want, d.decision_depth, (int)d.children.size(), w.na(d)); if (frame) same(&d); g_nontrivial++; };
    v.post_bc = [&](ThtsCNode& c, double) { auto& x = C(c); double n = 0, s = 0; for (auto& p : c.children) { auto& ch = D(*p.second); n += ch.num_backups; s += ch.num_backups * ch.soft_value; }
        double want = w.env->rew(sid(*c.state), aid(*c.action)) + (n > 0 ? s / n : 0); CHECK(x.num_backups == b0 + 1, "a backup changed the chance node's backup count from %d to %d", b0, x.num_backups);
        CHECK(near(x.soft_value, want), "chance node's soft value is %.12g, reward plus weighted mean is %.12g (%d children)", x.soft_value, want, (int)c.children.size()); if (frame) same(&c); };
    int T = r.i(1, 25); for (int t = 0; t < T; t++) { v.trial(r, r.p());
        if (r.p(0.2)) { set<void*> s; walk(*w.root, s, [&](ThtsDNode& d) { if (r.p(0.3)) { D(d).soft_value = r.val() * 3; D(d).num_backups = r.pick({0, 1, 2, 17}); } }, [&](ThtsCNode& c) { if (r.p(0.3)) { C(c).soft_value = r.val() * 3; } }); } }
}); }
