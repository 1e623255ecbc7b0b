// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "mock.h"
struct Tr { vector<pair<const ThtsDNode*, const ThtsCNode*>> pairs; vector<double> rew; };
static Tr check_trial(RW& w, const vector<Ev>& ev, bool backed) {
    Tr t; const ThtsDNode* cur = w.root.get(); size_t i = 0; bool fresh = false;
    auto next = [&](const char* what, const char* kinds) -> const Ev& { CHECK(i < ev.size(), "trial ends before %s", what); CHECK(strchr(kinds, ev[i].kind), "call '%c' where %s is due", ev[i].kind, what); return ev[i++]; };
    next("the context", "X");
    while (!cur->is_leaf() && !(w.m->mcts_mode && fresh)) {
        const Ev& v = next("the visit of the decision node on the path", "V"); CHECK(v.node == cur, "the visited decision node is not the next node of the path (step %zu)", t.pairs.size());
        const Ev& s = next("the action selection", "A"); CHECK(s.node == cur, "another node selected the action");
        const ThtsCNode* c = cur->children.at(s.a).get();
        const Ev& cv = next("the visit of the chance node of the selected action", "v"); CHECK(cv.node == c, "the visited chance node is not the child of the selected action");
        const Ev& o = next("the sampling of the observation", "o"); CHECK(o.node == c, "another chance node sampled the observation"); if (o.kids > 0) fresh = true;
        const Ev& rw = next("the reward of the step", "R"); CHECK(rw.s->equals_itfc(*cur->state) && rw.a->equals_itfc(*s.a) && rw.o && rw.o->equals_itfc(*o.o), "the reward of another step is asked for");
        t.pairs.push_back({cur, c}); t.rew.push_back(rw.v); cur = c->children.at(o.o).get(); }
    const Ev& v = next("the visit of the final node", "V"); CHECK(v.node == cur, "the last visited node is not the end of the path"); t.rew.push_back(cur->heuristic_value);
    if (backed) for (size_t j = 0; j < t.pairs.size(); j++) { const Ev& b = next("the backup of the chance node", "b"); const Ev& d = next("the backup of the decision node", "B"); auto& p = t.pairs[t.pairs.size() - 1 - j];
        CHECK(b.node == p.second && d.node == p.first, "the recorded pairs are not those of the path"); double tot = 0; for (double x : t.rew) tot += x; CHECK_EQ(b.rt, tot, "the recorded rewards do not sum to the rewards of the steps plus the final heuristic value"); }
    CHECK(i == ev.size(), "call '%c' after the end of the trial", ev[i].kind); return t; }
template <class P> void direct(P& pool, RW& w) { if constexpr (requires(vector<pair<shared_ptr<ThtsDNode>, shared_ptr<ThtsCNode>>>& n, vector<double>& r, ThtsEnvContext& c) { pool.run_selection_phase(n, r, c); }) {
    vector<pair<shared_ptr<ThtsDNode>, shared_ptr<ThtsCNode>>> n; vector<double> rw; Rec rec; g_rec = &rec; auto c = w.env->sample_context_itfc(w.root->state); pool.run_selection_phase(n, rw, *c); g_rec = nullptr; t_ctx = nullptr;
    Tr t = check_trial(w, rec.by[c.get()], false); CHECK(n.size() == t.pairs.size() && rw.size() == t.rew.size(), "%zu pairs and %zu rewards recorded for a path of %zu steps", n.size(), rw.size(), t.pairs.size());
    for (size_t i = 0; i < n.size(); i++) CHECK(n[i].first.get() == t.pairs[i].first && n[i].second.get() == t.pairs[i].second, "recorded pair %zu is not that of step %zu", i, i);
    for (size_t i = 0; i < rw.size(); i++) CHECK_EQ(rw[i], t.rew[i], "recorded reward"); g_nontrivial += n.size() > 1; } }
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    RW w = rec_world(r); ThtsPool pool(w.m, w.root, w.K); if (w.K > 1) g_perturb = 30; else g_perturb = 0;
    for (int q = 0; q < 3; q++) { Rec rec; g_rec = &rec; int N = r.i(1, 12); pool.run_trials(N); g_rec = nullptr; CHECK((int)rec.by.size() == N, "%zu trials for a budget of %d", rec.by.size(), N); for (auto& p : rec.by) check_trial(w, p.second, true); }
    for (int q = 0; q < 6; q++) direct(pool, w);
}); }
