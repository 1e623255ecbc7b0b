// The manager keeps what was configured (fields by the properties that depend on them).
#pragma once
#include "h.h"
namespace h { inline bool for_prop(const char* props) { const char* b = strrchr(__BASE_FILE__, '/'); string p = string(b ? b + 1 : __BASE_FILE__).substr(0, 3); return strstr(props, p.c_str()) != nullptr; }
#define KEEPS(f, props) do { if (h::for_prop(props)) CHECK(m.f == a.f, "the manager does not keep the configured value of " #f); } while (0)
template <class M, class A> void keeps_ThtsManager(M& m, A& a) { KEEPS(thts_env, "C03 C07"); KEEPS(max_depth, "C03"); KEEPS(mcts_mode, "C03"); KEEPS(heuristic_fn, "C03 C08"); KEEPS(prior_fn, "C09 C10 C11"); KEEPS(use_transposition_table, "C07"); KEEPS(is_two_player_game, "C09 C10 C12 C13 C14"); }
template <class M, class A> void keeps_UctManager(M& m, A& a) { keeps_ThtsManager(m, a); KEEPS(bias, "C09"); KEEPS(heuristic_psuedo_trials, "C08"); KEEPS(recommend_most_visited, "C14"); KEEPS(epsilon_exploration, "C09"); }
template <class M, class A> void keeps_PuctManager(M& m, A& a) { keeps_UctManager(m, a); KEEPS(puct_power, "C09"); }
template <class M, class A> void keeps_MentsManager(M& m, A& a) { keeps_ThtsManager(m, a); KEEPS(temp, "C10 C22"); KEEPS(prior_policy_search_weight, "C11"); KEEPS(epsilon, "C11"); KEEPS(root_node_epsilon, "C11"); KEEPS(max_explore_prob, "C11"); KEEPS(temp_decay_fn, "C22"); KEEPS(temp_decay_min_temp, "C22"); KEEPS(temp_decay_visits_scale, "C22"); KEEPS(temp_decay_root_node_visits_scale, "C22"); KEEPS(default_q_value, "C10"); KEEPS(shift_pseudo_q_values, "C10"); KEEPS(psuedo_q_value_offset, "C10"); KEEPS(recommend_visit_threshold, "C14"); KEEPS(recommend_most_visited, "C14"); }
template <class M, class A> void keeps_DentsManager(M& m, A& a) { keeps_MentsManager(m, a); KEEPS(value_temp_decay_fn, "C22 C13"); KEEPS(value_temp_init, "C22 C13"); KEEPS(value_temp_decay_min_temp, "C22 C13"); KEEPS(value_temp_decay_visits_scale, "C22 C13"); KEEPS(value_temp_decay_root_node_visits_scale, "C22 C13"); KEEPS(use_dp_value, "C13 C14"); }
}
