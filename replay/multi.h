#pragma once
#include "config.h"
#include "ments.h"
#include "uct.h"
#include "perturb.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
// one of the eight algorithms over a small environment with a pool-ready manager that uses the library's own random generator
struct AW { int alg; shared_ptr<TabEnv> env; shared_ptr<ThtsManager> m; shared_ptr<ThtsDNode> root; shared_ptr<ThtsLogger> log; };
static const char* ALG8[] = {"UCT", "PUCT", "MENTS", "RENTS", "TENTS", "DB-MENTS", "DENTS", "EST"};
inline AW any_world(R& r, bool tt, int alg = -1) {
    AW w; w.alg = alg < 0 ? r.i(0, 7) : alg; w.env = make_shared<TabEnv>(r, r.i(2, 5), 3, 3, r.p(0.3)); S s = w.env->get_initial_state_itfc(); int t0 = r.pick({0, 0, 1, 2, 5});
    if (w.alg < 2) { PuctManagerArgs a(w.env); common_args(r, a); a.use_transposition_table = tt; a.max_depth = r.pick({2, 4, 6}); a.epsilon_exploration = r.pick({0.0, 0.3}); a.heuristic_psuedo_trials = r.pick({0, 2}); a.num_transposition_table_mutexes = r.pick({1, 2, 7}); h::g_desc = string(ALG8[w.alg]) + " " + dsc(a);
        if (w.alg == 0) { auto m = make_shared<UctManager>(a); keeps_UctManager(*m, a); w.m = m; w.root = make_shared<UctDNode>(m, s, 0, t0); } else { auto m = make_shared<PuctManager>(a); w.m = m; w.root = make_shared<PuctDNode>(m, s, 0, t0); } w.log = make_shared<UctLogger>(); return w; }
    DentsManagerArgs a(w.env); common_args(r, a); a.use_transposition_table = tt; a.max_depth = r.pick({2, 4, 6}); a.use_dp_value = r.p(); a.epsilon = r.pick({0.5, 2.0}); a.num_transposition_table_mutexes = r.pick({1, 2, 7}); h::g_desc = string(ALG8[w.alg]) + strf(" usedp=%d ", a.use_dp_value) + dsc(a); auto m = make_shared<DentsManager>(a); keeps_DentsManager(*m, a); w.m = m;
    switch (w.alg) { case 2: w.root = make_shared<MentsDNode>(m, s, 0, t0); break; case 3: w.root = make_shared<RentsDNode>(m, s, 0, t0); break; case 4: w.root = make_shared<TentsDNode>(m, s, 0, t0); break; case 5: w.root = make_shared<DBMentsDNode>(m, s, 0, t0); break; case 6: w.root = make_shared<DentsDNode>(m, s, 0, t0); break; default: w.root = make_shared<EstDNode>(m, s, 0, t0); }
    if (w.alg == 5) w.log = make_shared<DBMentsLogger>(); else w.log = make_shared<MentsLogger>(); return w; }
