// CONF {"secs": 12}
#include "h.h"
template <class K, class V> void one(std::unordered_map<K, V>& m, R& r) {
    V best = m.begin()->second; for (auto& p : m) best = std::max(best, p.second); set<K> mx; for (auto& p : m) if (p.second == best) mx.insert(p.first);
    auto m0 = m; Scr<RandManager> rm(5); rm.own = R(r.g()); int t = mx.size(); map<K, int> got; bool std_draw = true;
    for (int i = 0; i < std::max(1, t); i++) { rm.clear(); rm.fi.push_back(i); K k = helper::get_max_key_break_ties_randomly(m, rm);
        CHECK(mx.count(k), "returned a key of value %.12g, the maximum is %.12g", m.count(k) ? (double)m.at(k) : NAN, (double)best); got[k]++;
        if (t > 1 && rm.is.size() == 1) CHECK(rm.is[0][2] - rm.is[0][1] == t, "tie-breaking draw has %d outcomes for %d maximisers", rm.is[0][2] - rm.is[0][1], t); else if (t > 1) std_draw = false; }
    if (std_draw) CHECK((int)got.size() == t, "only %d of %d maximisers are reachable by the tie-breaking draw", (int)got.size(), t);
    CHECK(m == m0, "the map was modified"); g_nontrivial += t > 1; }
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    int n = r.i(1, 12); double base = r.pick({0.0, -50.0, 50.0, -1e300, -1e-310}); std::unordered_map<int, double> d; std::unordered_map<int, int> c; std::unordered_map<int, float> f;
    if (r.p(0.5)) { d.reserve(r.i(1, 50)); c.reserve(r.i(1, 50)); }
    for (int i = 0; i < n; i++) { int k = r.i(-100, 100); d[k] = base + (r.p() ? r.i(-2, 2) : r.val()); c[k] = r.p(0.1) ? -2147483647 - 1 : (int)base % 1000 + r.i(-2, 2); f[k] = (float)r.i(-3, -1); }
    if (r.p(0.5)) { double v0 = r.pick({0.0, 1.0, -3.0, r.val()}), g = r.pick({1e-15, 1e-13, 1e-12, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3}); for (auto& p : d) p.second = v0 + g * r.i(-2, 2); }      // near ties
    g_desc = strf("%d keys around %g", (int)d.size(), base); one(d, r); one(c, r); one(f, r);
    std::unordered_map<A, double> am; for (int i = 0; i < n; i++) am[mkA(r.i(0, 20))] = r.i(-2, 2); one(am, r);
}); }
