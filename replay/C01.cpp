// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "pool.h"
template <class P> bool wait_shutdown(P& p) { if constexpr (requires { p.thread_pool_alive; p.work_left_lock; }) { for (;;) { { std::lock_guard<std::mutex> l(p.work_left_lock); if (!p.thread_pool_alive) return true; } usleep(100); } } else return false; }
int main(int argc, char** argv) { watchdog(40, "a run does not make progress: its trials are neither all run nor is the waiter released"); return run_cases(argc, argv, [](R& r) {
    PW w = pool_world(r); int K = r.pick({1, 1, 2, 3, 4, 8}); g_perturb = r.pick({0, 20, 200}); w.env->pause_us = r.pick({0, 0, 50});
    auto& st = w.env->g.started; auto* pool = new ThtsPool(w.m, w.root, K); if (r.p(0.3)) usleep(r.i(0, 500));
    int runs = r.i(1, 5);
    for (int q = 0; q < runs; q++) { g_tick++;
        long s0 = st; int v0 = w.root->num_visits; int N = r.pick({0, 1, 2, K - 1, K, K + 1, r.i(3, 40)});
        g_desc = strf("threads=%d run %d: budget=%d perturb=%d depth=%d", K, q, N, (int)g_perturb, w.m->max_depth);
        int mode = r.i(0, 4);
        if (mode <= 1) { double lim = r.p() ? 1000.0 : std::numeric_limits<double>::max(); bool bl = r.p(); pool->run_trials(N, lim, bl); if (!bl) pool->join();
            CHECK(st - s0 == N, "%ld trials were started for a budget of %d", (long)st - s0, N); CHECK(w.root->num_visits - v0 == N, "%d trials were completed for a budget of %d", w.root->num_visits - v0, N); }
        else if (mode == 2) { w.env->g.close(); int G = std::min(K, std::max(N, 1)); N = std::max(N, 1); pool->run_trials(N, 1000.0, false); w.env->g.await(G); advance_clock(r.pick({1001.0, 5000.0})); w.env->g.open(); pool->join();
            CHECK(st - s0 == G, "%ld trials were started although the time limit passed while the first %d were running (budget %d)", (long)st - s0, G, N); CHECK(w.root->num_visits - v0 == G, "%d of %d started trials were completed", w.root->num_visits - v0, G); }
        else if (mode == 3) { // a run inherits neither the unused budget nor the clock of the one before
            w.env->g.close(); N = std::max(N, 1); int G = std::min(K, N); pool->run_trials(N, 1000.0, false); w.env->g.await(G); advance_clock(999.0 / 2); w.env->g.open(); pool->join(); CHECK(st - s0 == N, "%ld trials were started for a budget of %d although the time limit was not reached", (long)st - s0, N);
            long s1 = st; advance_clock(3000); int M = r.i(0, 5); pool->run_trials(M, 1000.0); CHECK(st - s1 == M, "%ld trials were started for a budget of %d in a later run", (long)st - s1, M); }
        else { double lim = r.pick({0.0, -1.0}); pool->run_trials(N, lim); CHECK(st == s0, "%ld trials were started with a time limit of %g", (long)st - s0, lim); }
        { long s2 = st; usleep(r.pick({0, 0, 300})); CHECK(st == s2, "a trial started after the run ended"); }
    }
    long s9 = st; int N = r.i(0, 30); bool gated = N >= 1 && r.p(0.6); g_desc += strf("; then destroyed with a budget of %d left, %s", N, gated ? "trials executing" : "at any time");
    if (gated) { int G = std::min(K, N); w.env->g.close(); pool->run_trials(N, 1000.0, false); w.env->g.await(G); std::thread t([&] { delete pool; }); bool known = wait_shutdown(*pool); if (!known) usleep(20000); w.env->g.open(); t.join();
        if (known) CHECK(st - s9 == G, "%ld trials were started although shutdown was requested while the first %d were running", (long)st - s9, G); }
    else { if (N) pool->run_trials(N, 1000.0, false); usleep(r.pick({0, 0, 100})); delete pool; CHECK(st - s9 <= N, "%ld trials were started for a budget of %d", (long)st - s9, N); }
    long e = st; usleep(r.pick({0, 200})); CHECK(st == e, "a trial started after the pool was destroyed"); g_nontrivial++;
}); }
