// CONF {"secs": 8}
#include "h.h"
#include "algorithms/common/decaying_temp.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
static double spec(int f, double x) { return f == 0 ? 1 / std::sqrt(1 + x) : f == 1 ? 1 / std::log(std::exp(1.0) + x) : (1 + std::exp(-5.0)) / (1 + std::exp(x - 5.0)); }
static TempDecayFnPtr fns[3] = {decayed_temp_inv_sqrt, decayed_temp_inv_log, decayed_temp_sigmoid};
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) {
    for (int f = 0; f < 3; f++) { double x = r.pick({0.0, r.d(0, 1), r.d(0, 20), r.d(0, 300), r.d(0, 1e6)}), y = x + r.pick({0.0, 1e-3, 1.0, r.d(0, 100)}); double a = fns[f](x), b = fns[f](y); if (f == 2 && y > 600) continue;
        CHECK(near(a, spec(f, x), 1e-12) || near(a, spec(f, x)), "decay function %d at %.12g is %.12g, documented %.12g", f, x, a, spec(f, x)); CHECK(a > 0 && a <= 1.0 + 1e-12, "decay function %d at %.12g is %.12g, outside (0,1]", f, x, a); CHECK(b <= a + 1e-12, "decay function %d increases from %.12g to %.12g", f, x, y); 
        double it = r.pick({1.0, r.d(0.01, 50), 0.0}), mn = r.pick({1e-6, r.d(0, 1), 0.0, r.d(0, 60)}), sc = r.pick({1.0, r.d(0, 3), 1e-3}); int v = r.pick({0, 1, 2, 10, 100, r.i(0, 10000)}); double got = compute_decayed_temp(fns[f], it, mn, v, sc), w = std::max(mn, it * spec(f, sc * v));
        CHECK(near(got, w), "decayed temperature is %.12g, expected %.12g (init %g min %g visits %d scale %g fn %d)", got, w, it, mn, v, sc, f); }
    auto env = make_shared<TabEnv>(r, 3, 2, 2); DentsManagerArgs a(env); common_args(r, a); int f = r.i(-1, 2), g = r.i(-1, 2); a.temp = r.d(0.1, 20); a.temp_decay_fn = f < 0 ? nullptr : fns[f]; a.temp_decay_min_temp = r.pick({1e-6, 0.5, r.d(0, 3)}); a.temp_decay_visits_scale = r.pick({1.0, 0.1, 3.0}); a.temp_decay_root_node_visits_scale = r.pick({-1.0, 0.01, 5.0});
    a.value_temp_decay_fn = g < 0 ? nullptr : fns[g]; a.value_temp_init = r.d(0.1, 20); a.value_temp_decay_min_temp = r.pick({1e-6, 0.5, r.d(0, 3)}); a.value_temp_decay_visits_scale = r.pick({1.0, 0.1, 3.0}); a.value_temp_decay_root_node_visits_scale = r.pick({-1.0, 0.01, 5.0});
    g_desc = strf("temp %g fn %d min %g scale %g root %g; value temp %g fn %d min %g scale %g root %g", a.temp, f, a.temp_decay_min_temp, a.temp_decay_visits_scale, a.temp_decay_root_node_visits_scale, a.value_temp_init, g, a.value_temp_decay_min_temp, a.value_temp_decay_visits_scale, a.value_temp_decay_root_node_visits_scale);
    auto m = make_shared<DentsManager>(a); CHECK(m->temp == a.temp && m->temp_decay_fn == a.temp_decay_fn && m->temp_decay_min_temp == a.temp_decay_min_temp && m->temp_decay_visits_scale == a.temp_decay_visits_scale && m->temp_decay_root_node_visits_scale == a.temp_decay_root_node_visits_scale && m->value_temp_init == a.value_temp_init && m->value_temp_decay_fn == a.value_temp_decay_fn && m->value_temp_decay_min_temp == a.value_temp_decay_min_temp && m->value_temp_decay_visits_scale == a.value_temp_decay_visits_scale && m->value_temp_decay_root_node_visits_scale == a.value_temp_decay_root_node_visits_scale, "the manager does not take over the configured temperatures");
    for (int depth : {0, 1, 4}) { auto d = make_shared<DentsDNode>(m, mkS(0), depth, depth); auto md = make_shared<MentsDNode>(m, mkS(0), depth, depth); auto c = make_shared<DentsCNode>(m, mkS(0), mkA(0), depth, depth, d); double lt = INFINITY, lv = INFINITY;
        for (int v : {0, 1, 3, 50, 2000}) { d->num_visits = md->num_visits = c->num_visits = v; d->MentsDNode::num_backups = v + 7; bool root = depth == 0; if (f == 2 && v > 100) continue;
            double ts = root && a.temp_decay_root_node_visits_scale > 0 ? a.temp_decay_root_node_visits_scale : a.temp_decay_visits_scale; double want = f < 0 ? a.temp : std::max(a.temp_decay_min_temp, a.temp * spec(f, ts * v));
            CHECK_EQ(d->get_temp(), want, "search temperature of a DENTS node"); CHECK_EQ(md->get_temp(), want, "search temperature of a MENTS node"); CHECK(d->get_temp() <= lt * (1 + 1e-12), "temperature increases with visits"); lt = d->get_temp();
            double vs = root && a.value_temp_decay_root_node_visits_scale > 0 ? a.value_temp_decay_root_node_visits_scale : a.value_temp_decay_visits_scale; double wv = g < 0 ? a.value_temp_init : std::max(a.value_temp_decay_min_temp, a.value_temp_init * spec(g, vs * v)), wc = g < 0 ? a.value_temp_init : std::max(a.value_temp_decay_min_temp, a.value_temp_init * spec(g, a.value_temp_decay_visits_scale * v));
            CHECK_EQ(d->get_value_temp(), wv, "entropy weight of a decision node"); CHECK(d->get_value_temp() <= lv * (1 + 1e-12), "entropy weight increases with visits"); lv = d->get_value_temp();
            double cv = c->get_value_temp(); CHECK(near(cv, wc), "entropy weight of a chance node is %.12g, expected %.12g", cv, wc); } }
    g_nontrivial++;
}); }
