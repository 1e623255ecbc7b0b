// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "mock.h"
static void check_backups(const vector<const void*>& cs, const vector<const void*>& ds, const vector<double>& rew, const vector<Ev>& b) {
    size_t T = cs.size(); CHECK(b.size() == 2 * T, "%zu backups for a path of %zu steps", b.size(), T); double tot = 0; for (double x : rew) tot += x;
    for (size_t j = 0; j < T; j++) { size_t t = T - 1 - j; const Ev &c = b[2 * j], &d = b[2 * j + 1];
        CHECK(c.kind == 'b' && c.node == cs[t], "backup %zu is not that of the chance node of step %zu", 2 * j, t); CHECK(d.kind == 'B' && d.node == ds[t], "backup %zu is not that of the decision node of step %zu", 2 * j + 1, t);
        for (const Ev* e : {&c, &d}) { CHECK(e->before.size() == t, "%zu rewards before step %zu", e->before.size(), t); for (size_t i = 0; i < t; i++) CHECK_EQ(e->before[i], rew[i], "a reward before the node"); CHECK(e->after.size() == T + 1 - t, "%zu rewards from step %zu of %zu on", e->after.size(), t, T); double s = 0;
            for (size_t i = 0; i < e->after.size(); i++) { CHECK_EQ(e->after[i], rew[T - i], "a reward after the node (latest first)"); s += rew[T - i]; } CHECK_EQ(e->ra, s, "return after the node"); CHECK_EQ(e->rt, tot, "return of the trial"); } }
    g_nontrivial += T > 1; }
template <class P> void direct(P& pool, RW& w, R& r) { typedef vector<pair<shared_ptr<ThtsDNode>, shared_ptr<ThtsCNode>>> PV; if constexpr (requires(PV& n, vector<double>& rr, ThtsEnvContext& c) { pool.run_backup_phase(n, rr, c); }) {
    // any list of pairs, nodes may repeat
    int T = r.pick({0, 1, 2, 3, 7, 40}); vector<shared_ptr<RD>> d; vector<shared_ptr<ThtsCNode>> c; for (int i = 0; i < 4; i++) { d.push_back(make_shared<RD>(w.m, mkS(0), i, i)); c.push_back(make_shared<RC>(w.m, mkS(0), mkA(i), i, i)); }
    PV n; vector<double> rw; vector<const void*> cs, ds; for (int i = 0; i < T; i++) { int x = r.i(0, 3), y = r.i(0, 3); n.push_back({d[x], c[y]}); ds.push_back(d[x].get()); cs.push_back(c[y].get()); rw.push_back(r.val()); } rw.push_back(r.val()); vector<double> rw0 = rw;
    Rec rec; g_rec = &rec; auto ctx = make_shared<ThtsEnvContext>(); pool.run_backup_phase(n, rw, *ctx); g_rec = nullptr; check_backups(cs, ds, rw0, rec.by[ctx.get()]); } }
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    RW w = rec_world(r); ThtsPool pool(w.m, w.root, w.K); g_perturb = w.K > 1 ? 30 : 0;
    for (int q = 0; q < 3; q++) { Rec rec; g_rec = &rec; int N = r.i(1, 12); pool.run_trials(N); g_rec = nullptr;
        for (auto& p : rec.by) { vector<const void*> cs, ds; vector<double> rew; vector<Ev> b; const void* last = nullptr; bool hv = false;
            for (auto& e : p.second) { if (e.kind == 'V') last = e.node; if (e.kind == 'A') ds.push_back(e.node); if (e.kind == 'o') cs.push_back(e.node); if (e.kind == 'R') rew.push_back(e.v); if (e.kind == 'b' || e.kind == 'B') { if (!hv) { rew.push_back(((const RD*)(const ThtsDNode*)last)->heuristic_value); hv = true; } b.push_back(e); } }
            if (!hv && last) rew.push_back(((const RD*)last)->heuristic_value); check_backups(cs, ds, rew, b); } }
    for (int q = 0; q < 4; q++) direct(pool, w, r);
}); }
