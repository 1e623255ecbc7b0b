// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "pool.h"
// run_thts_trial is virtual so that trials can be replaced; this one marks when a trial executes
struct MPool : ThtsPool { std::atomic<int> exec{0}; std::atomic<long> n{0}; Gate gate; std::atomic<int> pause{0}; using ThtsPool::ThtsPool;
    void run_thts_trial(int) override { exec++; n++; gate.pass(); if (int p = pause) usleep(p); exec--; } };
int main(int argc, char** argv) { watchdog(40, "a waiter or worker stays asleep although what it waits for has become true"); return run_cases(argc, argv, [](R& r) {
    PW w = pool_world(r); w.env->live = false; int K = r.pick({1, 1, 2, 3, 4, 8}); g_perturb = r.pick({0, 20, 200}); auto log = make_shared<ThtsLogger>();
    { MPool pool(w.m, w.root, K); if (r.p(0.5)) usleep(r.i(0, 400));
    int runs = r.i(1, 5);
    auto idle = [&](const char* who, long s0, long N) { int e = pool.exec; CHECK(e == 0, "%s returned while %d trials execute", who, e); if (N >= 0) CHECK(pool.n - s0 == N, "%s returned after %ld of %ld trials", who, (long)pool.n - s0, N); };
    auto refused = [&](bool want, const char* when) { bool t = false; auto r2 = make_shared<UctDNode>(w.m, w.env->get_initial_state_itfc(), 0, 0); try { pool.set_new_env(w.m, r2, log); } catch (const std::exception&) { t = true; }
        CHECK(t == want, "swapping the environment %s was %s", when, t ? "refused" : "accepted");
        if constexpr (requires { pool.root_node; pool.logger; }) { CHECK((pool.root_node == r2) == !want, "swap %s but the root is %s", t ? "refused" : "accepted", pool.root_node == r2 ? "changed" : "not changed"); } };
    for (int q = 0; q < runs; q++) { g_tick++; long s0 = pool.n; int N = r.pick({1, 2, K, K + 1, 3 * K, r.i(1, 30)}); pool.pause = r.pick({0, 0, 100, 400}); int G = std::min(K, N), mode = r.i(0, 5), J = r.i(1, 3);
        g_desc = strf("threads=%d run %d: budget=%d scenario=%d waiters=%d pause=%d perturb=%d", K, q, N, mode, J, (int)pool.pause, (int)g_perturb);
        if (mode == 0) { pool.run_trials(N); idle("a blocking run", s0, N); refused(false, "of an idle pool"); }
        else if (mode == 1) { // all workers must wake; waiters wait for the executing trials
            pool.gate.close(); pool.run_trials(N, 1000.0, false); pool.gate.await(G); std::atomic<int> back{0}; vector<std::thread> js; for (int j = 0; j < J; j++) js.emplace_back([&] { pool.join(); idle("join", s0, N); back++; });
            refused(true, "while trials are left or executing"); usleep(r.pick({0, 200, 2000})); CHECK(back == 0, "join returned while %d trials execute", G); pool.gate.open(); for (auto& j : js) j.join(); }
        else if (mode == 2) { // only executing trials left (none to start)
            N = G; pool.gate.close(); pool.run_trials(N, 1000.0, false); pool.gate.await(N); refused(true, "while trials execute"); std::atomic<int> back{0}; vector<std::thread> js; for (int j = 0; j < J; j++) js.emplace_back([&] { pool.join(); idle("join", s0, N); back++; }); usleep(r.pick({0, 300})); CHECK(back == 0, "join returned while %d trials execute", N); pool.gate.open(); for (auto& j : js) j.join(); refused(false, "of an idle pool"); }
        else if (mode == 3) { // the run ends by its time limit
            pool.gate.close(); pool.run_trials(N, 1000.0, false); pool.gate.await(G); std::atomic<int> back{0}; vector<std::thread> js; for (int j = 0; j < J; j++) js.emplace_back([&] { pool.join(); idle("join of a timed out run", s0, -1); back++; });
            usleep(r.pick({0, 0, 500})); advance_clock(1500); usleep(r.pick({0, 0, 500})); CHECK(back == 0, "join returned while %d trials execute", G); bool early = r.p(); if (early) { refused(true, "while trials execute (time limit passed)"); } pool.gate.open(); for (auto& j : js) j.join(); pool.join(); idle("join of a timed out run", s0, -1); refused(false, "of a timed out pool"); }
        else if (mode == 4) { pool.run_trials(N, 1000.0, false); usleep(r.pick({0, 0, 100, 1000})); vector<std::thread> js; for (int j = 0; j < J; j++) js.emplace_back([&] { pool.join(); idle("join", s0, N); }); for (auto& j : js) j.join(); }
        else { pool.run_trials(0, 1000.0, r.p()); pool.join(); idle("a run of no trials", s0, 0); pool.run_trials(N, r.pick({0.0, -1.0}), true); idle("a run without time", s0, 0); }
    }
    pool.join(); }
    // destruction at any time ends every worker
    { w.env->live = true; g_desc = strf("threads=%d destruction", K); auto* p = new ThtsPool(w.m, w.root, K); int how = r.i(0, 3); if (how) { int N = r.i(1, 30); p->run_trials(N, 1000.0, false); if (how == 2) usleep(r.i(0, 400)); if (how == 3) p->join(); } delete p; }
    g_nontrivial++;
}); }
