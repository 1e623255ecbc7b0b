// Support for the concrete replay / bounded stand-in programs. Compiled against /repo's current sources with
// -fno-access-control. Every case is a function of (seed, case number): "prog SEED FIRST COUNT".
#pragma once
#include "thts.h"
#include "thts_manager.h"
#include "thts_env.h"
#include "thts_types.h"
#include "thts_decision_node.h"
#include "thts_chance_node.h"
#include "helper_templates.h"
#include <array>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <time.h>
#include <atomic>
#include <algorithm>
#include <condition_variable>

namespace h {
using namespace thts;
using std::shared_ptr; using std::make_shared; using std::vector; using std::string; using std::map; using std::pair; using std::set;
using std::static_pointer_cast; using std::dynamic_pointer_cast; using std::function;

inline long g_case = 0, g_seed = 0, g_checks = 0, g_nontrivial = 0;
inline string g_desc, g_sample;
inline std::mutex g_fail_mx;
inline void fail(const char* file, int line, const char* fmt, ...) {
    std::lock_guard<std::mutex> lg(g_fail_mx);
    va_list ap; va_start(ap, fmt);
    printf("FAIL case=%ld seed=%ld ", g_case, g_seed); vprintf(fmt, ap); printf("\n  at %s:%d\n  %s\n", strrchr(file, '/') ? strrchr(file, '/') + 1 : file, line, g_desc.c_str());
    va_end(ap); fflush(stdout); _exit(3);
}
#define CHECK(c, ...) do { h::g_checks++; if (!(c)) h::fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
#define CHECK_EQ(a, b, what) do { double a_ = (a), b_ = (b); CHECK(h::near(a_, b_), "%s: is %.17g, expected %.17g", (what), a_, b_); } while (0)
inline bool near(double a, double b, double tol = 1e-7) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}
inline string strf(const char* fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

struct R {                       // random source of one case
    std::mt19937_64 g;
    R(unsigned long s = 1) : g(s) {}
    int i(int a, int b) { return a + (int)(g() % (unsigned long)(b - a + 1)); }        // [a,b]
    double u() { return (double)(g() >> 11) * (1.0 / 9007199254740992.0); }
    double d(double a, double b) { return a + (b - a) * u(); }
    bool p(double q = 0.5) { return u() < q; }
    double val() { switch (i(0, 4)) { case 0: return (double)i(-3, 3); case 1: return 0.0; case 2: return d(-100, 100); default: return d(-2, 2); } }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int)l.size() - 1)); }
};
inline R g_r(1);

// watchdog: a run that makes no progress for SECS seconds is a failure (used where a hang is a violation)
inline std::atomic<long> g_tick{0};
inline void watchdog(int secs, const char* what) {
    std::thread([=] { long last = -1; int idle = 0;
        for (;;) { usleep(250000); long t = g_tick.load();
            if (t == last) { if (++idle > secs * 4) { printf("FAIL case=%ld seed=%ld %s\n  %s\n", g_case, g_seed, what, g_desc.c_str()); fflush(stdout); _exit(3); } }
            else { idle = 0; last = t; } } }).detach();
}

inline double real_now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline int run_cases(int argc, char** argv, function<void(R&)> fn) {
    g_seed = argc > 1 ? atol(argv[1]) : 1; long first = argc > 2 ? atol(argv[2]) : 0, n = argc > 3 ? atol(argv[3]) : 100;
    double secs = argc > 4 ? atof(argv[4]) : 1e9;
    double t0 = real_now(); long done = 0;
    for (g_case = first; g_case < first + n; g_case++) {
        g_r = R((unsigned long)g_seed * 1000003ul + (unsigned long)g_case * 7919ul + 17ul); g_desc = "";
        fn(g_r); g_tick++; done++;
        if (g_sample.empty() && !g_desc.empty()) g_sample = g_desc;
        if (real_now() - t0 > secs) break;
    }
    printf("STATS {\"cases\":%ld,\"checks\":%ld,\"nontrivial\":%ld}\n", done, g_checks, g_nontrivial);
    printf("SAMPLE %s\n", g_sample.c_str());
    fflush(stdout); _exit(0);
}

// ---- random sources seen by the code under test ------------------------------------------------
template <class M> struct Scr : public M {
    using M::M;
    std::mutex mx; R own{7}; std::deque<double> fu; std::deque<int> fi;     // forced draws
    vector<double> us; vector<std::array<int, 3>> is;                         // draws made: value / (value, a, b)
    int get_rand_int(int a, int b) override {
        std::lock_guard<std::mutex> lg(mx);
        CHECK(a < b, "random integer requested from the empty range [%d,%d)", a, b);
        int v; if (!fi.empty()) { v = a + fi.front() % (b - a); fi.pop_front(); } else v = own.i(a, b - 1);
        if (is.size() < 100000) is.push_back({v, a, b}); return v;
    }
    double get_rand_uniform() override {
        std::lock_guard<std::mutex> lg(mx);
        double v; if (!fu.empty()) { v = fu.front(); fu.pop_front(); } else v = own.u();
        if (us.size() < 100000) us.push_back(v); return v;
    }
    void clear() { us.clear(); is.clear(); fu.clear(); fi.clear(); }
};

// ---- a random tabular environment ----------------------------------------------------------------
typedef shared_ptr<const State> S; typedef shared_ptr<const Action> A; typedef shared_ptr<const Observation> O;
inline int sid(const Observation& s) { return ((const IntState&)s).state; }
inline int aid(const Action& a) { return ((const IntAction&)a).action; }
inline S mkS(int i) { return make_shared<const IntState>(i); }
inline A mkA(int i) { return make_shared<const IntAction>(i); }

struct TabEnv : public ThtsEnv {
    int n; vector<int> na; vector<bool> sink; vector<vector<map<int, double>>> tr; vector<vector<double>> rw; int init = 0;
    bool obs_reward = true; bool allow_tree = false;
    TabEnv(R& r, int n, int maxa, int maxsucc, bool acyclic = false) : ThtsEnv(true), n(n), na(n), sink(n), tr(n), rw(n) {
        for (int s = 0; s < n; s++) {
            na[s] = r.i(1, maxa); sink[s] = s != 0 && r.p(0.15); if (acyclic && s == n - 1) sink[s] = true;
            for (int a = 0; a < na[s]; a++) {
                map<int, double> m; int k = r.i(1, maxsucc); double tot = 0;
                for (int j = 0; j < k; j++) { int t = acyclic ? r.i(std::min(s + 1, n - 1), n - 1) : r.i(0, n - 1); double w = r.pick({1.0, 2.0, 3.0}); m[t] += w; tot += w; }
                for (auto& p : m) p.second /= tot;
                tr[s].push_back(m); rw[s].push_back(r.val());
            }
        }
    }
    S get_initial_state_itfc() const override { return mkS(init); }
    bool is_sink_state_itfc(S s) const override { return sink[sid(*s)]; }
    shared_ptr<ActionVector> get_valid_actions_itfc(S s) const override {
        auto v = make_shared<ActionVector>(); if (sink[sid(*s)]) return v;
        for (int a = 0; a < na[sid(*s)]; a++) v->push_back(mkA(a)); return v;
    }
    shared_ptr<StateDistr> get_transition_distribution_itfc(S s, A a) const override {
        auto d = make_shared<StateDistr>(); for (auto& p : tr[sid(*s)][aid(*a)]) d->insert_or_assign(mkS(p.first), p.second); return d;
    }
    S sample_transition_distribution_itfc(S s, A a, RandManager& rm) const override {
        double u = rm.get_rand_uniform(); int last = 0;
        for (auto& p : tr[sid(*s)][aid(*a)]) { last = p.first; if (u < p.second) return mkS(p.first); u -= p.second; }
        return mkS(last);
    }
    double rew(int s, int a, int o = -1) const { return rw[s][a] + (o >= 0 && obs_reward ? 0.25 * o : 0.0); }
    double get_reward_itfc(S s, A a, O o = nullptr) const override { return rew(sid(*s), aid(*a), o ? sid(*o) : -1); }
};
inline double heur(S s, shared_ptr<ThtsEnv>) { return 0.5 * ((sid(*s) * 37) % 11) - 2.0; }
inline shared_ptr<ActionPrior> prior(S s, shared_ptr<ThtsEnv> env) {
    auto acts = env->get_valid_actions_itfc(s); auto p = make_shared<ActionPrior>(); double tot = 0; int i = 0;
    for (auto& a : *acts) { double w = 1.0 + ((sid(*s) * 5 + 3 * i++) % 7); p->insert_or_assign(a, w); tot += w; }
    for (auto& x : *p) x.second /= tot;
    return p;
}

// ---- a reference trial driver: calls the interface of the nodes the way a trial does ----------------
struct Step { shared_ptr<ThtsDNode> d; shared_ptr<ThtsCNode> c; A a; O o; };
struct Drv {
    shared_ptr<ThtsManager> m; shared_ptr<ThtsDNode> root; shared_ptr<ThtsEnvContext> ctx;
    function<void()> begin;
    function<void(ThtsDNode&)> pre_d, post_d, pre_sel; function<void(ThtsDNode&, A)> post_sel;
    function<void(ThtsCNode&)> pre_c, post_c; function<void(ThtsCNode&, O)> post_obs;
    function<void(ThtsDNode&)> pre_bd; function<void(ThtsCNode&)> pre_bc;
    function<void(ThtsDNode&, double)> post_bd; function<void(ThtsCNode&, double)> post_bc;
    void trial(R& r, bool random_returns, int maxlen = 30) {
        ctx = m->thts_env->sample_context_itfc(root->state); if (begin) begin();
        vector<Step> path; vector<double> rew; auto cur = root; bool fresh = false;
        auto visit = [&](shared_ptr<ThtsDNode> d) { if (pre_d) pre_d(*d); d->lock(); d->visit_itfc(*ctx); d->unlock(); if (post_d) post_d(*d); };
        while (!cur->is_leaf() && !(m->mcts_mode && fresh) && (int)path.size() < maxlen) {
            visit(cur);
            if (pre_sel) pre_sel(*cur);
            cur->lock(); A a = cur->select_action_itfc(*ctx); cur->unlock();
            if (post_sel) post_sel(*cur, a);
            auto c = cur->get_child_node_itfc(a);
            if (pre_c) pre_c(*c);
            c->lock(); int k0 = c->get_num_children(); c->visit_itfc(*ctx); c->unlock(); if (post_c) post_c(*c);
            c->lock(); O o = c->sample_observation_itfc(*ctx); if (c->get_num_children() > k0) fresh = true; auto nd = c->get_child_node_itfc(o); c->unlock();
            if (post_obs) post_obs(*c, o);
            path.push_back({cur, c, a, o}); rew.push_back(m->thts_env->get_reward_itfc(cur->state, a, o)); cur = nd;
        }
        visit(cur); rew.push_back(cur->heuristic_value);
        vector<double> before(rew), after; after.push_back(before.back()); before.pop_back();
        double tot = 0, ret = rew.back(); for (double x : rew) tot += x;
        for (int t = (int)path.size() - 1; t >= 0; t--) {
            after.push_back(before.back()); before.pop_back(); ret += rew[t];
            double ra = random_returns ? r.val() : ret, rt = random_returns ? r.val() + 1000 : tot;
            if (pre_bc) pre_bc(*path[t].c);
            path[t].c->lock(); path[t].c->backup_itfc(before, after, ra, rt, *ctx); path[t].c->unlock();
            if (post_bc) post_bc(*path[t].c, ra);
            if (pre_bd) pre_bd(*path[t].d);
            path[t].d->lock(); path[t].d->backup_itfc(before, after, ra, rt, *ctx); path[t].d->unlock();
            if (post_bd) post_bd(*path[t].d, ra);
        }
    }
};
template <class F, class G> void walk(ThtsDNode& d, set<void*>& seen, F fd, G fc) {
    if (!seen.insert(&d).second) return; fd(d);
    for (auto& p : d.children) { if (!seen.insert(p.second.get()).second) continue; fc(*p.second); for (auto& q : p.second->children) walk(*q.second, seen, fd, fc); }
}
inline void common_args(R& r, ThtsManagerArgs& a) {
    a.seed = r.i(1, 1000000); a.mcts_mode = r.p(0.6); a.is_two_player_game = r.p(); a.use_transposition_table = r.p(0.3);
    a.max_depth = r.pick({1, 2, 3, 5, 8}); if (!r.p(0.6)) a.heuristic_fn = nullptr; else if (r.p()) a.heuristic_fn = heur;
    if (r.p(0.4)) a.prior_fn = prior;
}
inline string dsc(const ThtsManagerArgs& a) {
    return strf("mcts=%d two=%d tt=%d depth=%d heur=%d prior=%d", a.mcts_mode, a.is_two_player_game, a.use_transposition_table, a.max_depth, a.heuristic_fn == nullptr ? 0 : a.heuristic_fn == (HeuristicFnPtr)heur ? 2 : 1, a.prior_fn != nullptr);
}
}
using namespace h;
