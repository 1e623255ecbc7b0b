// CONF {"secs": 12}
#include "h.h"
#include "distributions/categorical_distribution.h"
typedef CategoricalDistribution<int> CD; typedef std::unordered_map<int, double> M;
// exact probability of every key under the current table, by its observable behaviour: sample with forced slot and threshold
static map<int, double> table_probs(CD& d) {
    map<int, double> p; double n = d.alias_table.size();
    for (auto& e : d.alias_table) { double t = e.threshold; if (t < 1.0) { double q = std::max(0.0, t); p[e.first] += q / n; p[e.second] += (1 - q) / n; } else p[e.second] += 1.0 / n; }
    return p; }
static void exact(CD& d, const M& w, const char* when) {
    double tot = 0; for (auto& x : w) tot += x.second; auto p = table_probs(d);
    for (auto& x : w) CHECK(near(p.count(x.first) ? p[x.first] : 0.0, x.second / tot), "%s: key %d is sampled with probability %.12g, weight/total is %.12g", when, x.first, p.count(x.first) ? p[x.first] : 0.0, x.second / tot);
    for (auto& x : p) CHECK(w.count(x.first) || x.second < 1e-9, "%s: key %d is sampled but not in the distribution", when, x.first); }
// the same through sample(): sweep of slots and thresholds
static void sampled(CD& d, const M& w, R& r, const char* when) {
    Scr<RandManager> rm(5); int n = 0; map<int, double> p; const int K = 400; double tot = 0; for (auto& x : w) tot += x.second;
    rm.clear(); rm.fi.push_back(0); rm.fu.push_back(0.5); d.sample(rm); if (rm.is.size() != 1) return; n = rm.is[0][2] - rm.is[0][1];
    CHECK(n == (int)w.size(), "%s: slots drawn from %d values for %d outcomes", when, n, (int)w.size());
    for (int s = 0; s < n; s++) for (int k = 0; k < K; k++) { rm.clear(); rm.fi.push_back(s); rm.fu.push_back((k + 0.5) / K); int key = d.sample(rm); CHECK(w.count(key), "%s: sampled key %d is not in the distribution", when, key); p[key] += 1.0 / (n * K); }
    for (auto& x : w) CHECK(std::fabs(p[x.first] - x.second / tot) < 1.5 / K + 1e-9, "%s: key %d is sampled with probability %.6g (sweep), weight/total is %.6g", when, x.first, p[x.first], x.second / tot); }
static M rnd(R& r, int n) { M m; for (int i = 0; i < n; i++) m[r.i(0, 50)] = r.p(0.1) ? 0.0 : r.pick({1.0, 2.0, r.d(0, 1), r.d(0, 20), 1e-3}); double t = 0; for (auto& x : m) t += x.second; if (t <= 0) m.begin()->second = 1; return m; }
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    int freq = r.i(1, 4); M cur = rnd(r, r.i(1, 10)); auto sp = make_shared<M>(cur); CD d(sp, true, freq); g_desc = strf("%d keys, rebuild every %d updates", (int)cur.size(), freq);
    exact(d, cur, "after construction"); sampled(d, cur, r, "after construction"); int since = 0; M built = cur; Scr<RandManager> rm(7); rm.own = R(r.g());
    for (int i = 0; i < 12; i++) {
        if (r.p(0.3)) { cur = rnd(r, r.i(1, 10)); d.update(make_shared<M>(cur)); since = 0; built = cur; exact(d, cur, "after replacing the distribution"); if (r.p(0.3)) sampled(d, cur, r, "after replacing the distribution"); }
        else { int k = r.p(0.6) ? cur.begin()->first : r.i(0, 60); double w = r.pick({0.5, 1.0, 7.0, r.d(0.01, 3)}); cur[k] = w; d.update(k, w); CHECK((*d.distr) == cur, "update lost a weight");
            if (++since == freq) { since = 0; built = cur; exact(d, cur, "after a rebuild"); if (r.p(0.3)) sampled(d, cur, r, "after a rebuild"); } }
        for (int q = 0; q < 5; q++) { rm.clear(); int key = d.sample(rm); CHECK(built.count(key) && built[key] > 0, "sampled key %d, which has no weight in the table in force", key); }
        g_nontrivial++;
    }
}); }
