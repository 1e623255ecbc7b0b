// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "multi.h"
#include "mc_eval.h"
// environment that records each rollout (a rollout samples its context first), per thread
struct St { S s; A a; O o; double r; S next; };
struct Roll { const void* ctx = nullptr; vector<St> steps; bool began = false; };
struct EvEnv : TabEnv { mutable std::mutex m; mutable vector<shared_ptr<Roll>> rolls; mutable bool on = false; mutable vector<shared_ptr<ThtsEnvContext>> keep; using TabEnv::TabEnv; static thread_local shared_ptr<Roll> cur;
    mutable std::atomic<int> init_calls{0};
    shared_ptr<ThtsEnvContext> sample_context_itfc(S s) const override { auto c = TabEnv::sample_context_itfc(s); if (on) { cur = make_shared<Roll>(); cur->ctx = c.get(); std::lock_guard<std::mutex> l(m); rolls.push_back(cur); keep.push_back(c); CHECK(sid(*s) == init, "a rollout starts at state %d", sid(*s)); } return c; }
    S sample_transition_distribution_itfc(S s, A a, RandManager& rm) const override { S n = TabEnv::sample_transition_distribution_itfc(s, a, rm); if (on && cur) { St x; x.s = s; x.a = a; x.next = n; x.r = NAN; cur->steps.push_back(x); } return n; }
    double get_reward_itfc(S s, A a, O o = nullptr) const override { double v = TabEnv::get_reward_itfc(s, a, o); return v; } };
thread_local shared_ptr<Roll> EvEnv::cur;
static A fixed(ThtsDNode& d, ThtsEnvContext& c) { return d.recommend_action_itfc(c); }
int main(int argc, char** argv) { watchdog(60, "rollouts do not end"); return run_cases(argc, argv, [](R& r) {
    auto env = make_shared<EvEnv>(r, r.i(2, 6), 3, 2, r.p(0.3)); UctManagerArgs a(env); common_args(r, a); a.max_depth = r.pick({1, 3, 6}); a.recommend_most_visited = true; a.heuristic_psuedo_trials = 0; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool p(m, root, 1); p.run_trials(r.i(0, 40)); }
    // make recommendations unambiguous: distinct visit counts among the children of every decision node
    int tick = 1; set<void*> seen; walk(*root, seen, [&](ThtsDNode& d) { vector<ThtsCNode*> v; for (auto& p : d.children) v.push_back(p.second.get()); for (auto* c : v) c->num_visits = ++tick; }, [](ThtsCNode&) {});
    int L = r.pick({0, 1, 2, 5, 12}), R_ = r.pick({0, 1, 2, 5, 17, 40}), K = r.pick({1, 2, 3, 8}); g_perturb = r.pick({0, 20}); RandManager rm(r.i(1, 100000)); EvalPolicy pol(root, env, rm); MCEvaluator ev(env, pol, L, rm); if (r.p(0.3)) { pol.cur_node = nullptr; }
    g_desc = strf("rollouts=%d threads=%d max length=%d perturb=%d ", R_, K, L, (int)g_perturb) + dsc(a);
    int total = 0; vector<double> all; int reps = r.i(1, 2);
    for (int q = 0; q < reps; q++) { env->rolls.clear(); env->on = true; ev.run_rollouts(R_, K); env->on = false; total += R_;
        CHECK((int)env->rolls.size() == R_, "%zu rollouts were run for a request of %d", env->rolls.size(), R_); CHECK((int)ev.sampled_returns.size() == total, "%zu returns recorded for %d rollouts", ev.sampled_returns.size(), total);
        vector<double> exp; for (auto& x : env->rolls) { S s = mkS(env->init); double ret = 0; int n = 0; shared_ptr<const ThtsDNode> cur = root; auto ctx = make_shared<ThtsEnvContext>();
            for (auto& t : x->steps) { CHECK(t.s->equals_itfc(*s), "a step does not start where the one before ended"); CHECK(!env->sink[sid(*s)], "an action was taken in a terminal state"); CHECK(aid(*t.a) >= 0 && aid(*t.a) < env->na[sid(*s)], "illegal action");
                if (cur && !cur->children.empty()) { A want = cur->recommend_action_itfc(*ctx); CHECK(want->equals_itfc(*t.a), "the policy acts by %d although the node of the history recommends %d (step %d)", aid(*t.a), aid(*want), n); }
                O o = t.next; ret += env->rew(sid(*s), aid(*t.a), sid(*t.next)); if (cur) { auto it = cur->children.find(t.a); if (it == cur->children.end()) cur = nullptr; else { auto jt = it->second->children.find(o); cur = jt == it->second->children.end() ? nullptr : shared_ptr<const ThtsDNode>(jt->second); } } s = t.next; n++; }
            CHECK(n <= L, "%d actions in a rollout of at most %d", n, L); CHECK(n == L || env->sink[sid(*s)], "a rollout stopped after %d of %d actions in a non-terminal state", n, L); exp.push_back(ret); g_nontrivial += n > 1; }
        for (double x : exp) all.push_back(x); vector<double> got(ev.sampled_returns.begin(), ev.sampled_returns.end()), want = all; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); for (size_t i = 0; i < got.size(); i++) CHECK_EQ(got[i], want[i], "a recorded return is not the sum of the rewards of its rollout"); }
    if (r.p(0.4)) { for (auto& x : ev.sampled_returns) x = r.val(); all.assign(ev.sampled_returns.begin(), ev.sampled_returns.end()); }
    if (!all.empty()) { double mean = 0; for (double x : all) mean += x; mean /= all.size(); CHECK_EQ(ev.get_mean_return(), mean, "mean return"); if (all.size() > 1) { double v = 0; for (double x : all) v += (x - mean) * (x - mean); CHECK_EQ(ev.get_stddev_return(), std::sqrt(v / (all.size() - 1)), "standard deviation of the returns"); } }
    // the uniformly random fallback: drawn by one integer request over the legal actions
    { Scr<RandManager> sm(1); EvalPolicy p2(root, env, sm); p2.cur_node = nullptr; for (int s = 0; s < env->n; s++) if (!env->sink[s]) for (int k = 0; k < env->na[s]; k++) { sm.clear(); sm.fi.push_back(k); ThtsEnvContext c; A x = p2.get_action(mkS(s), c); CHECK(sm.is.size() == 1 && sm.is[0][1] == 0 && sm.is[0][2] == env->na[s] && aid(*x) == k, "the random action is not the one drawn uniformly"); }
      EvalPolicy p3(p2); CHECK(p3.cur_node == root, "a copied policy does not start at the root"); p2.reset(); CHECK(p2.cur_node == root, "reset does not return to the root"); }
}); }
