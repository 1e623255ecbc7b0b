#pragma once
#include "h.h"
#include "config.h"
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
struct UctW { bool puct; shared_ptr<TabEnv> env; shared_ptr<UctManager> m; Scr<UctManager>* su = nullptr; Scr<PuctManager>* sp = nullptr; shared_ptr<ThtsDNode> root; double power = 0.5;
    void clear() { if (su) su->clear(); else sp->clear(); }
    vector<double>& us() { return su ? su->us : sp->us; }
    vector<std::array<int, 3>>& is() { return su ? su->is : sp->is; }
    std::deque<int>& fi() { return su ? su->fi : sp->fi; }
    std::deque<double>& fu() { return su ? su->fu : sp->fu; }
};
inline UctW uct_world(R& r, int maxa = 4) {
    UctW w; w.puct = r.p(0.4); w.env = make_shared<TabEnv>(r, r.i(2, 8), maxa, 3, r.p());
    PuctManagerArgs a(w.env); common_args(r, a);
    a.bias = r.pick({-1.0, -1.0, 0.0, 1.0, 2.5}); if (r.p(0.3)) a.bias = r.d(0.1, 10);
    a.heuristic_psuedo_trials = r.pick({0, 0, 1, 3, 10}); a.recommend_most_visited = r.p();
    a.epsilon_exploration = r.pick({0.0, 0.0, 0.1, 0.9, 1.0}); a.puct_power = r.pick({0.5, 0.5, 0.25, 1.0, 0.0, 2.0}); w.power = a.puct_power;
    h::g_desc = strf("puct=%d bias=%g pseudo=%d eps=%g power=%g mostvis=%d ", w.puct, a.bias, a.heuristic_psuedo_trials, a.epsilon_exploration, a.puct_power, a.recommend_most_visited) + dsc(a);
    if (w.puct) { auto m = make_shared<Scr<PuctManager>>(a); keeps_PuctManager(*m, a); m->own = R(r.g()); w.sp = m.get(); w.m = m; w.root = make_shared<PuctDNode>(m, w.env->get_initial_state_itfc(), 0, 0); }
    else { auto m = make_shared<Scr<UctManager>>(a); keeps_UctManager(*m, a); m->own = R(r.g()); w.su = m.get(); w.m = m; w.root = make_shared<UctDNode>(m, w.env->get_initial_state_itfc(), 0, 0); }
    return w;
}
