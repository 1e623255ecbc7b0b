// CONF {"secs": 20}
#include "ments.h"
#include "uct.h"
struct Cand { int vis; double crit; int thr; bool child; };
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    bool uct = r.p(0.3); UctW uw; MW mw; shared_ptr<ThtsDNode> root; shared_ptr<TabEnv> env; shared_ptr<ThtsManager> mg;
    if (uct) { uw = uct_world(r, 5); root = uw.root; env = uw.env; mg = uw.m; } else { mw = ments_world(r, -1, 5); root = mw.root; env = mw.env; mg = mw.m; }
    Drv v; v.m = mg; v.root = root; int T = r.i(0, 12); for (int t = 0; t < T; t++) v.trial(r, r.p());
    vector<ThtsDNode*> ds; set<void*> s; walk(*root, s, [&](ThtsDNode& d) { if (!d.is_leaf()) ds.push_back(&d); }, [](ThtsCNode&) {});
    for (int k = 0; k < 5 && !ds.empty(); k++) { auto& d = *ds[r.i(0, (int)ds.size() - 1)]; int na = env->na[sid(*d.state)]; bool rnd = r.p(0.7);
        if (rnd) { d.decision_timestep = r.i(0, 3); for (int a = 0; a < na; a++) if (r.p(0.5)) d.create_child_node_itfc(mkA(a));
            for (auto& p : d.children) { p.second->num_visits = r.pick({0, 1, 1, 3, 7}); auto val = [&] { return r.p() ? (double)r.i(-2, 2) : r.val(); };
                if (auto c = dynamic_cast<UctCNode*>(p.second.get())) c->avg_return = val(); if (auto c = dynamic_cast<MentsCNode*>(p.second.get())) { c->soft_value = val(); c->num_backups = r.i(0, 6); } if (auto c = dynamic_cast<DPCNode*>(p.second.get())) { c->dp_value = val(); c->num_backups = r.i(0, 6); } if (auto c = dynamic_cast<EmpNode*>(p.second.get())) { c->avg_return = val(); c->num_backups = r.i(0, 6); } if (auto c = dynamic_cast<EntCNode*>(p.second.get())) c->subtree_entropy = val(); } }
        double o = mg->is_two_player_game && d.decision_timestep % 2 == 1 ? -1 : 1; bool most = uct ? uw.m->recommend_most_visited : mw.m->recommend_most_visited; int thr = uct ? 0 : mw.m->recommend_visit_threshold;
        vector<Cand> c(na); for (int a = 0; a < na; a++) { A act = mkA(a); c[a].child = d.children.count(act) > 0; c[a].vis = 0; c[a].thr = -1; c[a].crit = -INFINITY;
            if (c[a].child) { auto& ch = *d.children.at(act); c[a].vis = ch.num_visits;
                if (uct) c[a].crit = o * dynamic_cast<UctCNode&>(ch).avg_return; else if (mw.alg <= TENTS) { c[a].crit = o * dynamic_cast<MentsCNode&>(ch).soft_value; c[a].thr = ch.num_visits; }
                else if (mw.alg == DBMENTS || mw.m->use_dp_value) { c[a].crit = o * dynamic_cast<DPCNode&>(ch).dp_value; c[a].thr = dynamic_cast<DPCNode&>(ch).num_backups; } else { c[a].crit = o * dynamic_cast<EmpNode&>(ch).avg_return; c[a].thr = dynamic_cast<EmpNode&>(ch).num_backups; } }
            else if (!uct && mw.alg <= TENTS) c[a].crit = mw.qval(dynamic_cast<MentsDNode&>(d), a); }
        bool untried_ok = !uct && mw.alg <= TENTS && !most; bool any_child = false, any_thr = false; for (auto& x : c) { any_child |= x.child; if (x.child && (uct || x.thr >= thr)) any_thr = true; }
        string before = d.get_pretty_print_string(4); mg.get(); auto ctx = env->sample_context_itfc(d.state); A act; try { act = d.recommend_action_itfc(*ctx); } catch (const std::exception& e) { CHECK(false, "recommendation threw: %s", e.what()); }
        int a = aid(*act); CHECK(a >= 0 && a < na, "recommended action %d is not legal", a);
        if (most) { if (any_child) { CHECK(c[a].child, "an untried action was recommended as most visited"); for (int b = 0; b < na; b++) if (c[b].child) CHECK(c[b].vis <= c[a].vis, "recommended action has %d visits, another has %d", c[a].vis, c[b].vis); } }
        else if (any_thr) { CHECK(c[a].child && (uct || c[a].thr >= thr), "an action below the visit threshold %d was recommended although another meets it", thr); for (int b = 0; b < na; b++) if (c[b].child && (uct || c[b].thr >= thr)) CHECK(c[b].crit <= c[a].crit + 1e-9 * (1 + std::fabs(c[a].crit)), "recommended action has value %.12g for the player to move, another %.12g", c[a].crit, c[b].crit); }
        else if (any_child || untried_ok) { if (!untried_ok) CHECK(c[a].child, "an untried action was recommended"); for (int b = 0; b < na; b++) if (c[b].child || untried_ok) CHECK(c[b].crit <= c[a].crit + 1e-9 * (1 + std::fabs(c[a].crit)), "recommended action has value %.12g for the player to move, another %.12g", c[a].crit, c[b].crit); }
        CHECK(d.get_pretty_print_string(4) == before, "recommending changed statistics"); for (int b = 0; b < na; b++) CHECK((d.children.count(mkA(b)) > 0) == c[b].child, "recommending changed the children"); g_nontrivial++; }
}); }
