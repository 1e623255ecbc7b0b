// CONF {"secs": 15, "ldflags": ["-ldl"]}
#include "multi.h"
#include "vclock.h"
#include <sstream>
// logger against a reference, on a clock that only moves when told to (real time between the calls is far below the steps used)
struct Ref { double prior = 0, start = 0, thr = std::numeric_limits<double>::max(), rdelta = std::numeric_limits<double>::max(); long tc = 0, last = 0; int delta = std::numeric_limits<int>::max(); struct E { double t; int v; }; vector<E> es; };
static vector<string> lines(ThtsLogger& l) { std::ostringstream o; l.write_to_ostream(o); vector<string> v; std::istringstream i(o.str()); string s; while (std::getline(i, s)) v.push_back(s); return v; }
static vector<double> nums(const string& s) { vector<double> v; std::istringstream i(s); string x; while (std::getline(i, x, ',')) v.push_back(atof(x.c_str())); return v; }
static int kind(ThtsLogger& l) { if (dynamic_cast<DBMentsLogger*>(&l)) return 3; if (dynamic_cast<MentsLogger*>(&l)) return 2; if (dynamic_cast<UctLogger*>(&l)) return 1; return 0; }
static const char* HEAD[] = {"runtime,num_visits", "runtime,num_visits,num_backups,avg_return", "runtime,num_visits,num_backups,soft_value", "runtime,num_visits,num_backups,soft_value,dp_value"};
static vector<double> cols(ThtsDNode& d, int k) { vector<double> v{(double)d.num_visits}; if (k == 1) { auto& n = dynamic_cast<UctDNode&>(d); v.push_back(n.num_backups); v.push_back(n.avg_return); } if (k == 2) { auto& n = dynamic_cast<MentsDNode&>(d); v.push_back(n.num_backups); v.push_back(n.soft_value); } if (k == 3) { auto& n = dynamic_cast<DBMentsDNode&>(d); v.push_back(n.MentsDNode::num_backups); v.push_back(n.soft_value); v.push_back(n.dp_value); } return v; }
int main(int argc, char** argv) { watchdog(60, "no progress"); return run_cases(argc, argv, [](R& r) {
    AW w = any_world(r, false, r.pick({0, 1, 2, 3, 4, 5})); g_perturb = 0; if (r.p(0.2)) w.log = make_shared<ThtsLogger>(); ThtsLogger& l = *w.log; int k = kind(l); string conf = h::g_desc; double vclk = 0; auto adv = [&](double s) { advance_clock(s); vclk += s; };
    CHECK(l.size() == 0 && lines(l).empty(), "a fresh logger is not empty"); if constexpr (requires { l.trials_completed; }) CHECK(l.trials_completed == 0, "a fresh logger has seen trials");
    int delta = r.pick({1, 2, 3, 7, std::numeric_limits<int>::max()}); double rd = r.p() ? r.pick({100.0, 250.0, 1000.0}) : std::numeric_limits<double>::max(); if (delta != std::numeric_limits<int>::max()) l.set_trials_delta(delta); if (rd < 1e300) l.set_runtime_delta(rd); h::g_desc = conf + strf(" trials delta %d runtime delta %g", delta, rd);
    double runs_total = 0, run_start = 0; vector<vector<double>> want; long tc = 0, last = 0; double thr = 0; double lastt = 0;
    bool use_pool = r.p(0.35);
    if (!use_pool) {
        auto total = [&] { return runs_total + (vclk - run_start); };
        for (int q = 0, Q = r.i(1, 4); q < Q; q++) { adv(r.pick({0.0, 5000.0}));
            if (l.size() == 0) { l.add_origin_entry(); vector<double> z{0, 0}; if (k >= 1) { z.push_back(0); z.push_back(0); } if (k == 3) z.push_back(0); want.push_back(z); } l.reset_start_time(); run_start = vclk; last = tc; thr = runs_total + rd;
            for (int t = 0, T = r.i(0, 12); t < T; t++) { { auto ctx = w.env->sample_context_itfc(w.root->state); vector<double> e; w.root->visit_itfc(*ctx); } adv(r.pick({0.0, 30.0, 60.0, 130.0, 270.0})); if (std::fabs(total() - thr) < 1) adv(5.0);
                l.trial_completed(); tc++; double now = total(); CHECK(std::fabs(l.get_current_total_runtime().count() - now) < 0.5, "total runtime reported is %g, expected %g", l.get_current_total_runtime().count(), now); CHECK(now + 0.5 >= lastt, "reported runtime decreased"); lastt = now;
                bool due = false; if (tc - last >= delta) { last = tc; due = true; } if (now >= thr) { thr += rd; due = true; } bool got = l.should_log(); CHECK(got == due, "an entry is %s after %ld trials (%ld since the last trial-triggered entry) at runtime %g (threshold %g)", got ? "asked for but not due" : "due but not asked for", tc, tc - last, now, thr);
                if (got) { l.log(w.root); auto v = cols(*w.root, k); v.insert(v.begin(), now); want.push_back(v); } if (r.p(0.8) || t == T - 1) l.update_prior_runtime(); }
            runs_total = l.size() ? runs_total + (vclk - run_start) : runs_total; if (lastt < runs_total - 0.5 || true) { l.update_prior_runtime(); } }
    } else { // through the pool: N trials per run on an environment whose trials take time
        struct TEnv : TabEnv { using TabEnv::TabEnv; function<void()> f; };
        int K = r.pick({1, 1, 4}); want.clear(); long expected = 0; double rt = -1; { ThtsPool pool(w.m, w.root, K, w.log); int n = 0;
            for (int q = 0, Q = r.i(1, 3); q < Q; q++) { adv(r.pick({0.0, 4000.0})); int N = r.i(0, 15); long t0 = -1; int s0 = l.size(); pool.run_trials(N); n += N; if (s0 == 0) s0 = 1, expected = 1; CHECK(l.size() >= 1, "no origin entry"); if (delta < 1000000) { int add = N / delta; CHECK(l.size() - s0 == add, "%d entries for a run of %d trials with an interval of %d", l.size() - s0, N, delta); } else CHECK(l.size() == s0, "entries without an interval");
                if constexpr (requires { l.trials_completed; }) CHECK(l.trials_completed == n, "the logger counts %d trials of %d", (int)l.trials_completed, n); (void)t0; } }
        auto ls = lines(l); if (l.size()) { CHECK((int)ls.size() == l.size() + 1 && ls[0] == HEAD[k], "output is not one header and one line per entry"); double p = -1, pv = -1; for (size_t i = 1; i < ls.size(); i++) { auto v = nums(ls[i]); CHECK(v[0] >= p, "runtime decreases between entries"); CHECK(v[1] >= pv, "visits decrease between entries"); p = v[0]; pv = v[1]; if (K == 1 && i > 1 && delta == 1) { } } }
        g_nontrivial++; (void)rt; (void)expected; return; }
    auto ls = lines(l); if (want.empty()) { CHECK(ls.empty(), "output of an empty logger"); return; } CHECK(ls.size() == want.size() + 1, "%zu lines of output for %zu entries", ls.size(), want.size()); CHECK(ls[0] == HEAD[k], "header is '%s'", ls[0].c_str());
    for (size_t i = 0; i < want.size(); i++) { auto v = nums(ls[i + 1]); CHECK(v.size() == want[i].size(), "entry %zu has %zu columns: '%s'", i, v.size(), ls[i + 1].c_str()); for (size_t j = 0; j < v.size(); j++) CHECK(j == 0 ? std::fabs(v[j] - want[i][j]) < 0.5 + 1e-4 * std::fabs(want[i][j]) : h::near(v[j], want[i][j], 1e-4), "entry %zu column %zu is %g, expected %g", i, j, v[j], want[i][j]); }
    g_nontrivial += want.size() > 2;
}); }
