#pragma once
#include "uct.h"
#include "vclock.h"
#include "perturb.h"
// an environment that counts trial starts (a trial samples its context first) and can hold trials at a gate
struct Gate { std::mutex m; std::condition_variable cv; bool closed = false; int inside = 0; std::atomic<long> started{0};
    void pass() { started++; std::unique_lock<std::mutex> l(m); inside++; cv.notify_all(); while (closed) cv.wait(l); inside--; cv.notify_all(); }
    void close() { std::lock_guard<std::mutex> l(m); closed = true; }
    void open() { std::lock_guard<std::mutex> l(m); closed = false; cv.notify_all(); }
    void await(int k) { std::unique_lock<std::mutex> l(m); while (inside < k) cv.wait(l); }
};
struct GateEnv : TabEnv { mutable Gate g; std::atomic<int> pause_us{0}; std::atomic<bool> live{false}; using TabEnv::TabEnv;
    shared_ptr<ThtsEnvContext> sample_context_itfc(S s) const override { if (live) { g.pass(); int p = pause_us; if (p) usleep(p); } return TabEnv::sample_context_itfc(s); } };
struct PW { shared_ptr<GateEnv> env; shared_ptr<UctManager> m; shared_ptr<UctDNode> root; };
inline PW pool_world(R& r) { PW w; w.env = make_shared<GateEnv>(r, r.i(2, 5), 2, 2); UctManagerArgs a(w.env); common_args(r, a); a.max_depth = r.pick({0, 1, 3}); a.heuristic_psuedo_trials = 0; a.use_transposition_table = false;
    w.m = make_shared<UctManager>(a); w.root = make_shared<UctDNode>(w.m, w.env->get_initial_state_itfc(), 0, 0); w.env->live = true; return w; }
