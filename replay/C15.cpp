// CONF {"secs": 12}
#include "h.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include <unordered_map>
typedef Scr<RandManager> SR;
static const double E = 1e-9;
// the key whose interval contains u; near a boundary (floating point) either neighbour is accepted
template <class T> void spec(const std::unordered_map<T, double>& m, double u, T got, const char* what) {
    double tot = 0; for (auto& p : m) tot += p.second; double lo = 0; bool ok = false; bool found = false;
    for (auto& p : m) { double hi = lo + p.second / tot; if (p.first == got) { found = true; ok = p.second > 0 && u >= lo - E && u <= hi + E; } lo = hi; }
    CHECK(found, "%s returned a key that is not in the map", what);
    CHECK(ok, "%s: draw %.12g is outside the interval of the returned key (weight %.12g of %.12g)", what, u, m.at(got), tot);
}
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    SR rm(5); rm.own = R(r.g());
    int n = r.i(1, 8); std::unordered_map<int, double> m; double tot = 0;
    for (int i = 0; i < n; i++) { double w = r.p(0.25) ? 0.0 : r.pick({1.0, 0.5, 3.0, 1e-3, r.d(0, 1), r.d(0, 100)}); m[r.i(0, 1000)] = w; }
    for (auto& p : m) tot += p.second; if (tot <= 0) { m.begin()->second = 1.0; tot = 1.0; }
    double scale = r.pick({1.0, 1e-3, 1e-6, 0.37, 50.0}); for (auto& p : m) p.second *= scale; tot *= scale;
    auto norm = m; for (auto& p : norm) p.second /= tot;
    g_desc = strf("%d keys, total %g", (int)m.size(), tot);
    auto m0 = m, n0 = norm; bool mixed_ok = true;
    vector<double> us; { double c = 0; us.push_back(0.0); us.push_back(std::nextafter(1.0, 0.0)); for (auto& p : norm) { c += p.second; if (c < 1) { us.push_back(c); us.push_back(std::max(0.0, c - 1e-6)); us.push_back(std::min(std::nextafter(1.0, 0.0), c + 1e-6)); } } for (int i = 0; i < 6; i++) us.push_back(r.u()); }
    for (double u : us) { if (!(u >= 0 && u < 1)) continue;
        try {
            rm.clear(); rm.fu.push_back(u); int k = helper::sample_from_distribution(norm, rm); spec(norm, u, k, "normalised sampling"); CHECK(rm.us.size() == 1 && rm.is.empty(), "sampling used %d uniform draws", (int)rm.us.size());
            rm.clear(); rm.fu.push_back(u); k = helper::sample_from_distribution(m, rm, false); spec(m, u, k, "unnormalised sampling");
            CategoricalDistribution<int> cd(make_shared<std::unordered_map<int, double>>(m)); rm.clear(); rm.fu.push_back(u); spec(m, u, cd.sample(rm), "categorical sampling");
        } catch (const std::exception& e) { CHECK(false, "sampling a proper distribution with draw %.17g threw: %s", u, e.what()); } }
    CHECK(m == m0 && norm == n0, "sampling modified the distribution");
    // uniform lists
    int L = r.i(1, 9); auto keys = make_shared<vector<int>>(); for (int i = 0; i < L; i++) keys->push_back(100 + i); DiscreteUniformDistribution<int> du(keys); set<int> got; rm.clear();
    for (int i = 0; i < L; i++) { rm.clear(); rm.fi.push_back(i); int k = du.sample(rm); got.insert(k); CHECK(k >= 100 && k < 100 + L, "uniform list sampler returned a foreign element"); if (rm.is.size() == 1) CHECK(rm.is[0][2] - rm.is[0][1] == L, "uniform sampler draws from %d positions for %d elements", rm.is[0][2] - rm.is[0][1], L); else mixed_ok = false; }
    if (mixed_ok) CHECK((int)got.size() == L, "the %d positions reach only %d elements", L, (int)got.size());
    // mixtures: component by weight, then that component's sample with the following draws
    auto mm = make_shared<MixedDistributionDistr<int>>(); int C = r.i(1, 4), j = 0; double wt = 0; vector<double> ws; for (int i = 0; i < C; i++) { ws.push_back(r.d(0.01, 1)); wt += ws.back(); }
    map<Distribution<int>*, int> who; for (int i = 0; i < C; i++) { auto k = make_shared<vector<int>>(); for (int q = 0; q < 3; q++) k->push_back(10 * i + q); auto d = make_shared<DiscreteUniformDistribution<int>>(k); who[d.get()] = i; mm->insert_or_assign(d, ws[i] / wt); } (void)j;
    MixedDistribution<int> mix(mm);
    for (int q = 0; q < 8; q++) { double u = r.u(); int pos = r.i(0, 2); rm.clear(); rm.fu.push_back(u); rm.fi.push_back(pos); int k = 0; try { k = mix.sample(rm); } catch (const std::exception& e) { CHECK(false, "mixture sampling threw: %s", e.what()); }
        double lo = 0; bool ok = false; for (auto& p : *mm) { double hi = lo + p.second; if (who[p.first.get()] == k / 10) ok = u >= lo - E && u <= hi + E; lo = hi; } CHECK(ok, "mixture draw %.12g returned a sample of the wrong component (%d)", u, k / 10); CHECK(k % 10 == pos, "mixture does not return the component's own sample"); }
    // integer ranges of the real generator
    RandManager real(r.i(1, 100000)); for (int q = 0; q < 20; q++) { int a = r.pick({0, 0, -5, 3, 100, -1000000}), b = a + r.pick({1, 2, 3, 7, 1000, 1000000}); int v = real.get_rand_int(a, b); CHECK(v >= a && v < b, "random integer %d outside [%d,%d)", v, a, b); double u = real.get_rand_uniform(); CHECK(u >= 0 && u < 1, "uniform draw %g", u); }
    { RandManager rr(r.i(1, 100000)); int K = r.i(2, 6); vector<int> c(K); int base = r.i(-3, 3); for (int q = 0; q < 600 * K; q++) c[rr.get_rand_int(base, base + K) - base]++; for (int q = 0; q < K; q++) CHECK(c[q] > 350 && c[q] < 900, "value %d of %d drawn %d times in %d (not uniform)", base + q, K, c[q], 600 * K); }
    g_nontrivial += m.size() > 1;
}); }
