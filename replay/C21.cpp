// CONF {"secs": 8}
#include "h.h"
struct PoEnv : TabEnv { PoEnv(R& r) : TabEnv(r, 3, 2, 2) { _is_fully_observable = false; } };
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    auto env = make_shared<TabEnv>(r, r.i(2, 6), 3, 3); Scr<RandManager> rm(3); rm.own = R(r.g());
    for (int i = 0; i < 10; i++) { S s = mkS(r.i(0, env->n - 1)); A a = mkA(r.i(0, 2)); auto d = env->get_observation_distribution_itfc(a, s);
        CHECK(d && d->size() == 1 && d->begin()->first == static_pointer_cast<const Observation>(s) && d->begin()->second == 1.0, "default observation distribution is not the next state with probability one");
        CHECK(d->count(s) == 1, "next state not found in the observation distribution");
        rm.clear(); O o = env->sample_observation_distribution_itfc(a, s, rm); CHECK(o && o->equals_itfc(*s), "sampled observation is not the next state"); CHECK(rm.us.empty() && rm.is.empty(), "sampling an observation consumed randomness"); CHECK(env->is_fully_observable(), "observability flag"); }
    { auto po = make_shared<PoEnv>(r); bool t1 = false, t2 = false; S s = mkS(0); A a = mkA(0); CHECK(!po->is_fully_observable(), "observability flag"); try { po->get_observation_distribution_itfc(a, s); } catch (const std::exception&) { t1 = true; } try { po->sample_observation_distribution_itfc(a, s, rm); } catch (const std::exception&) { t2 = true; } CHECK(t1 && t2, "partially observable default does not refuse"); }
    auto c1 = env->sample_context_itfc(mkS(0)); auto other = env->sample_context_itfc(mkS(0)); CHECK(c1 && other && c1 != other, "contexts are shared between samples"); map<string, shared_ptr<int>> mu; map<string, shared_ptr<const int>> co;
    vector<string> keys = {"a", "b", "", "d_0", "d_1", "0", "1", "a_very_long_key_that_does_not_fit_in_sso_storage", "a_very_long_key_that_does_not_fit_in_sso_storagf"};
    auto absent = [&](ThtsEnvContext& c, const string& k, bool cst) { try { if (cst) c.get_value_raw_const(k); else c.get_value_raw(k); } catch (const std::exception&) { return true; } return false; };
    for (auto& k : keys) { CHECK(absent(*c1, k, false) && absent(*c1, k, true), "a sampled context is not empty"); }
    for (int i = 0; i < 40; i++) { string k = keys[r.i(0, (int)keys.size() - 1)];
        switch (r.i(0, 3)) { case 0: { auto v = make_shared<int>(i); c1->put_value(k, v); mu[k] = v; break; } case 1: { shared_ptr<const int> v = make_shared<const int>(i + 1000); c1->put_value_const(k, v); co[k] = v; break; } case 2: c1->erase(k); mu.erase(k); break; default: c1->erase_const(k); co.erase(k); }
        g_desc = strf("after %d context operations, key '%s'", i + 1, k.c_str());
        for (auto& q : keys) {
            if (mu.count(q)) { try { CHECK(c1->get_value_ptr<int>(q) == mu[q] && &c1->get_value<int>(q) == mu[q].get() && c1->get_value_raw(q) == static_pointer_cast<void>(mu[q]), "mutable value read under '%s' is not the last one stored", q.c_str()); } catch (const std::exception&) { CHECK(false, "mutable value stored under '%s' is missing", q.c_str()); } } else CHECK(absent(*c1, q, false), "reading the absent mutable key '%s' is not an error", q.c_str());
            if (co.count(q)) { try { CHECK(c1->get_value_ptr_const<int>(q) == co[q] && &c1->get_value_const<int>(q) == co[q].get(), "constant value read under '%s' is not the last one stored", q.c_str()); } catch (const std::exception&) { CHECK(false, "constant value stored under '%s' is missing", q.c_str()); } } else CHECK(absent(*c1, q, true), "reading the absent constant key '%s' is not an error", q.c_str());
            CHECK(absent(*other, q, false) && absent(*other, q, true), "another context was changed"); } }
    auto again = env->sample_context_itfc(mkS(0)); for (auto& k : keys) CHECK(absent(*again, k, false) && absent(*again, k, true), "a newly sampled context is not empty");
    g_nontrivial++;
}); }
