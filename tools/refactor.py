#!/usr/bin/env python3-vt
"""Developer tool: behaviour-preserving edits of /repo, each run through the checks of the properties it touches on a scratch clone (/tmp/rf/repo).
refactor.py [-c] ID...   (-c: only compile). Any VIOLATION printed is a false alarm."""
import os, subprocess, sys, time
W = "/tmp/rf/repo"; H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}
def ref(i, props, *edits): R[i] = (props.split(), edits)

T = "src/thts.cpp"
ref("sel_loop", "C03 C05", (T, """        while (should_continue_selection_phase(cur_node, new_decision_node_created_this_trial)) {
            // dnode""", """        for (;;) {
            if (!should_continue_selection_phase(cur_node, new_decision_node_created_this_trial)) break;
            // dnode"""), (T, """            int post_visit_children = chance_node->get_num_children();
            if (post_visit_children > pre_visit_children) {
                new_decision_node_created_this_trial = true;
            }
""", """            const bool grew = chance_node->get_num_children() > pre_visit_children;
            new_decision_node_created_this_trial = new_decision_node_created_this_trial || grew;
"""), (T, """            nodes_to_backup.push_back(make_pair(cur_node, chance_node));
            rewards.push_back(reward);
""", """            rewards.push_back(reward);
            nodes_to_backup.push_back(make_pair(cur_node, chance_node));
"""))
ref("bak_loop", "C04 C05", (T, "        for (double& reward : rewards) total_return += reward;\n", "        for (size_t i = 0; i < rewards.size(); i++) {\n            total_return += rewards[i];\n        }\n"),
    (T, "        while (nodes_to_backup.size() > 0) {\n            double reward", "        while (!nodes_to_backup.empty()) {\n            const double reward"),
    (T, """            pair<shared_ptr<ThtsDNode>,shared_ptr<ThtsCNode>> pr = nodes_to_backup.back();
            shared_ptr<ThtsDNode> decision_node = pr.first;
            shared_ptr<ThtsCNode> chance_node = pr.second;
            nodes_to_backup.pop_back();
""", """            auto [decision_node, chance_node] = nodes_to_backup.back();
            nodes_to_backup.pop_back();
"""))
ref("bak_index", "C04 C06", (T, """        while (nodes_to_backup.size() > 0) {
            double reward""", """        for (int t = (int) nodes_to_backup.size() - 1; t >= 0; t--) {
            double reward"""), (T, """            pair<shared_ptr<ThtsDNode>,shared_ptr<ThtsCNode>> pr = nodes_to_backup.back();
            shared_ptr<ThtsDNode> decision_node = pr.first;
            shared_ptr<ThtsCNode> chance_node = pr.second;
            nodes_to_backup.pop_back();
""", """            shared_ptr<ThtsDNode> decision_node = nodes_to_backup[t].first;
            shared_ptr<ThtsCNode> chance_node = nodes_to_backup[t].second;
"""))
ref("pool_helper", "C01 C02", (T, """        chrono::time_point<chrono::system_clock> cur_time = chrono::system_clock::now();
        chrono::duration<double> elapsed_time = cur_time - start_time;
        if (elapsed_time >= max_run_time) return false;

        return true;
""", """        chrono::duration<double> elapsed_time = chrono::system_clock::now() - start_time;
        return !(elapsed_time >= max_run_time);
"""), (T, """            num_threads_working++;
            trials_remaining--;
            int trials_remaining_copy = trials_remaining;
""", """            trials_remaining -= 1;
            const int trials_remaining_copy = trials_remaining;
            ++num_threads_working;
"""))
U = "src/algorithms/uct/uct_decision_node.cpp"
ref("uct_fill", "C09 C05", (U, """            double action_ucb_value = 0.0;

            int child_visits = (has_child_node(action)) ? get_child_node(action)->num_visits : 0;
            action_ucb_value += compute_ucb_term(num_visits, child_visits);
            action_ucb_value *= bias;
""", """            const bool tried = has_child_node(action);
            int child_visits = 0;
            if (tried) child_visits = get_child_node(action)->num_visits;
            double action_ucb_value = bias * compute_ucb_term(num_visits, child_visits);
"""), (U, """            if (has_child_node(action)) {
                action_ucb_value += opp_coeff * get_child_node(action)->avg_return;
            }
""", """            if (tried) {
                action_ucb_value += opp_coeff * get_child_node(action)->avg_return;
            }
"""))
ref("uct_index", "C09", (U, """            for (shared_ptr<const Action> action : *actions) {
                if (!has_child_node(action)) {
                    actions_yet_to_try.push_back(action);
                }
            }
""", """            for (size_t i = 0; i < actions->size(); i++) {
                const shared_ptr<const Action>& action = (*actions)[i];
                if (has_child_node(action)) continue;
                actions_yet_to_try.push_back(action);
            }
"""), (U, "                if (!has_child_node(action)) continue;\n                double child_abs_val = abs(get_child_node(action)->avg_return);\n                if (child_abs_val > bias) bias = child_abs_val;\n", "                if (has_child_node(action)) {\n                    bias = max(bias, abs(get_child_node(action)->avg_return));\n                }\n"))
ref("uct_rec", "C14", (U, """        for (shared_ptr<const Action> action : *actions) {
            if (!has_child_node(action)) continue;
            action_values[action] = opp_coeff * get_child_node(action)->avg_return;
        }
""", """        for (const auto& action : *actions) {
            if (has_child_node(action)) {
                double value = get_child_node(action)->avg_return;
                if (is_opponent()) value = -value;
                action_values.emplace(action, value);
            }
        }
"""), (U, "        double opp_coeff = is_opponent() ? -1.0 : 1.0;\n        unordered_map<shared_ptr<const Action>, double> action_values;\n", "        unordered_map<shared_ptr<const Action>, double> action_values;\n"))
ref("uct_avg", "C08", (U, "        avg_return += (trial_return_after_node - avg_return) / (double) num_backups;", "        const double n = (double) num_backups;\n        avg_return = avg_return * ((n - 1.0) / n) + trial_return_after_node / n;"))
M = "src/algorithms/ments/ments_decision_node.cpp"
ref("ments_w", "C10 C11", (M, """            double q_value_over_temp = get_soft_q_value(action,opp_coeff) / temp;
            if (normalisation_term < q_value_over_temp) {
                normalisation_term = q_value_over_temp;
            }
""", """            normalisation_term = max(normalisation_term, get_soft_q_value(action,opp_coeff) / temp);
"""), (M, """            double soft_q_value = get_soft_q_value(action,opp_coeff);
            double action_weight = exp((soft_q_value/temp) - normalisation_term);
            action_weights[action] = action_weight;
            sum_action_weights += action_weight;
""", """            const double q_value_over_temp = get_soft_q_value(action,opp_coeff) / temp;
            const double action_weight = exp(q_value_over_temp - normalisation_term);
            sum_action_weights += action_weight;
            action_weights[action] = action_weight;
"""))
ref("ments_d", "C11", (M, """            action_distr[action] *= (1.0 - lambda) / sum_weights;
            if (manager.prior_policy_search_weight > 0.0) {
                double lambda_tilde = manager.prior_policy_search_weight / log(num_visits+3);
                action_distr[action] *= (1.0 - lambda_tilde);
                action_distr[action] += (1.0 - lambda) * lambda_tilde * policy_prior->at(action);
            }
            action_distr[action] += lambda * uniform_distr_mass;
            if (action_distr[action] < EPS) {
                near_zero_prob_actions.push_back(action);
            }
""", """            double mass = action_distr[action] * (1.0 - lambda) / sum_weights;
            if (manager.prior_policy_search_weight > 0.0) {
                double lambda_tilde = manager.prior_policy_search_weight / log(num_visits+3);
                mass = (1.0 - lambda_tilde) * mass + (1.0 - lambda) * lambda_tilde * policy_prior->at(action);
            }
            mass += lambda * uniform_distr_mass;
            action_distr[action] = mass;
            if (mass < EPS) near_zero_prob_actions.push_back(action);
"""))
ref("ments_q", "C10 C14", (M, """        if (has_child_node(action)) {
            MentsCNode& child = (MentsCNode&) *get_child_node(action);
            return child.soft_value * opp_coeff;
        } 

        if (has_prior()) {
            double weight = policy_prior->at(action);
            double log_weight = MIN_LOG_WEIGHT;
            if (weight >= LOG_MAX_ARG) {
                log_weight = MAX_LOG_WEIGHT;
            } else if (weight > LOG_MIN_ARG) {
                log_weight = log(weight);
            }
            return log_weight + psuedo_q_value_offset;
        } 

        MentsManager& manager = (MentsManager&) *thts_manager;
        return manager.default_q_value * opp_coeff;
""", """        if (!has_child_node(action)) {
            if (!has_prior()) {
                return opp_coeff * ((MentsManager&) *thts_manager).default_q_value;
            }
            const double weight = policy_prior->at(action);
            double log_weight = log(weight);
            if (weight <= LOG_MIN_ARG) log_weight = MIN_LOG_WEIGHT;
            if (weight >= LOG_MAX_ARG) log_weight = MAX_LOG_WEIGHT;
            return psuedo_q_value_offset + log_weight;
        }
        MentsCNode& child = (MentsCNode&) *get_child_node(action);
        return opp_coeff * child.soft_value;
"""))
D = "src/algorithms/common/dp_decision_node.cpp"
ref("dp_d", "C12", (D, """        double opp_coeff = is_opponent ? -1.0 : 1.0;
        dp_value = opp_coeff * -numeric_limits<double>::infinity();

        for (pair<shared_ptr<const Action>,shared_ptr<DPCNode>> pr : children) {
            DPCNode& child = *pr.second;
            if (child.num_backups == 0) continue;
            if (opp_coeff * child.dp_value > opp_coeff * dp_value) {
                dp_value = child.dp_value;
            }
        }

        num_backups++;
""", """        num_backups++;
        double best = is_opponent ? numeric_limits<double>::infinity() : -numeric_limits<double>::infinity();
        for (auto& pr : children) {
            const DPCNode& child = *pr.second;
            if (child.num_backups > 0) {
                const bool better = is_opponent ? child.dp_value < best : child.dp_value > best;
                if (better) best = child.dp_value;
            }
        }
        dp_value = best;
"""))
DC = "src/algorithms/common/dp_chance_node.cpp"
ref("dp_c", "C12", (DC, """        dp_value = 0.0;
        double sum_child_backups = 0;
        for (pair<shared_ptr<const Observation>,shared_ptr<DPDNode>> pr : children) {
            DPDNode& child = (DPDNode&) *pr.second;
            if (child.num_backups == 0) continue;
            sum_child_backups += child.num_backups;
            dp_value *= (sum_child_backups - child.num_backups) / sum_child_backups;
            dp_value += child.num_backups * child.dp_value / sum_child_backups; 
        }
        dp_value += local_reward; // +R(s,a)
""", """        double weighted = 0.0;
        double sum_child_backups = 0.0;
        for (const auto& pr : children) {
            const DPDNode& child = *pr.second;
            weighted += child.num_backups * child.dp_value;
            sum_child_backups += child.num_backups;
        }
        dp_value = local_reward;
        if (sum_child_backups > 0.0) dp_value += weighted / sum_child_backups;
"""))
HT = "src/helper_templates.cc"
ref("maxkey2", "C17", (HT, """        NumericT best_val = numeric_limits<NumericT>::lowest();
        vector<T> best_keys;
        for (pair<const T,NumericT>& pr : map) {
            NumericT val = pr.second;
            if (val < best_val) continue;
            if (val > best_val) {
                best_keys = vector<T>();
                best_val = val;
            }
            const T key = pr.first;
            best_keys.push_back(key);
        }
""", """        NumericT best_val = numeric_limits<NumericT>::lowest();
        for (pair<const T,NumericT>& pr : map) {
            if (pr.second > best_val) best_val = pr.second;
        }
        vector<T> best_keys;
        for (pair<const T,NumericT>& pr : map) {
            if (pr.second == best_val) best_keys.push_back(pr.first);
        }
"""))
ref("maxkey_clear", "C17", (HT, "                best_keys = vector<T>();\n                best_val = val;\n", "                best_val = val;\n                best_keys.clear();\n"), (HT, "            if (val < best_val) continue;\n            if (val > best_val) {", "            if (best_val > val) {\n                continue;\n            }\n            if (best_val < val) {"))
ref("sample_it", "C15", (HT, """        for (const pair<const T,double>& pr : distribution) {
            running_prob_mass += pr.second / normaliser;
            if (rand_val < running_prob_mass) {
                return pr.first;
            }
            if (pr.second > 0.0) {
                last_key = &pr.first;
            }
        }
""", """        for (auto it = distribution.begin(); it != distribution.end(); ++it) {
            const double mass = it->second / normaliser;
            if (it->second > 0.0) last_key = &it->first;
            running_prob_mass += mass;
            if (running_prob_mass > rand_val) return it->first;
        }
"""))
ref("sample_scale", "C15", (HT, "        double rand_val = rand_manager.get_rand_uniform();\n", "        const double rand_val = rand_manager.get_rand_uniform();\n"), (HT, "        double normaliser = normalised ? 1.0 : sum_weights;\n", "        double normaliser = sum_weights;\n        if (normalised) normaliser = 1.0;\n"))
CD = "src/distributions/categorical_distribution.cc"
ref("alias", "C16", (CD, """            alias_table[s_index].second = alias_table[l_index].first;
            alias_table[l_index].threshold -= 1.0 - alias_table[s_index].threshold;
""", """            AliasTableEntry& large = alias_table[l_index];
            AliasTableEntry& small = alias_table[s_index];
            large.threshold = (large.threshold + small.threshold) - 1.0;
            small.second = large.first;
"""), (CD, "        while (large_indices.size() > 0 && small_indices.size() > 0) {", "        while (!small_indices.empty() && !large_indices.empty()) {"))
ref("alias_one", "C16", (CD, """            int i = 0;
            int n = distr->size();
            for (pair<const T,double> kv_pair : *distr) {
                double u = kv_pair.second * n / sum_weights;
                alias_table[i].threshold = u;
                alias_table[i].first = kv_pair.first;
                alias_table[i].second = kv_pair.first;
                i++;
            }
""", """            const double scale = distr->size() / sum_weights;
            size_t i = 0;
            for (const auto& kv_pair : *distr) {
                AliasTableEntry& entry = alias_table[i++];
                entry.first = entry.second = kv_pair.first;
                entry.threshold = kv_pair.second * scale;
            }
"""))
E_ = "src/mc_eval.cpp"
ref("eval", "C19", (E_, "        while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {\n", "        for (; num_actions_taken < max_trial_length; num_actions_taken++) {\n            if (thts_env->is_sink_state_itfc(state)) break;\n"), (E_, "            state = next_state;\n            num_actions_taken++;\n", "            state = next_state;\n"))
L = "src/thts_logger.cpp"
ref("temp", "C22", ("src/algorithms/common/decaying_temp.cpp", "        if (temp < min_temp) return min_temp;\n        return temp;   \n", "        return (temp > min_temp) ? temp : min_temp;\n"), (M, """        double visits_scale = manager.temp_decay_visits_scale;
        if (is_root_node() && manager.temp_decay_root_node_visits_scale > 0.0) {
            visits_scale = manager.temp_decay_root_node_visits_scale;
        }
""", """        const bool use_root = is_root_node() && manager.temp_decay_root_node_visits_scale > 0.0;
        const double visits_scale = use_root ? manager.temp_decay_root_node_visits_scale : manager.temp_decay_visits_scale;
"""))

# second batch: helpers extracted, statements reordered, loops rewritten
N = "src/thts_decision_node.cpp"; CN = "src/thts_chance_node.cpp"
ref("dnode_child", "C07", (N, """        if (has_child_node_itfc(action)) return get_child_node_itfc(action);
        shared_ptr<ThtsCNode> child_node = create_child_node_helper_itfc(action);
        children[action] = child_node;
        return child_node;
""", """        auto it = children.find(action);
        if (it != children.end()) return it->second;
        return children[action] = create_child_node_helper_itfc(action);
"""))
ref("cnode_child", "C07 C05", (CN, """        auto iter = dmap.find(dnode_id);
        if (iter != dmap.end()) {
            shared_ptr<ThtsDNode> child_node = dmap[dnode_id].lock();
            if (child_node != nullptr) {
                children[observation] = child_node;
                return child_node;
            }
        }

        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
        children[observation] = child_node;
        dmap[dnode_id] = child_node;
        return child_node;
""", """        shared_ptr<ThtsDNode> child_node = nullptr;
        auto iter = dmap.find(dnode_id);
        if (iter != dmap.end()) child_node = iter->second.lock();
        if (child_node == nullptr) {
            child_node = create_child_node_helper_itfc(observation, next_state);
            dmap[dnode_id] = child_node;
        }
        children[observation] = child_node;
        return child_node;
"""), (CN, """        auto iterator = children.find(observation);
        return iterator != children.end();
""", """        return children.count(observation) > 0;
"""))
ref("lockall", "C05 C06", (N, """        for (auto action_child_pair : children) {
            action_child_pair.second->lock();
        }
""", """        for (const auto& [action, child] : children) child->lock();
"""), (N, """        for (auto action_child_pair : children) {
            action_child_pair.second->unlock();
        }
""", """        for (auto it = children.begin(); it != children.end(); ++it) {
            it->second->unlock();
        }
"""))
D = "src/algorithms/common/"
ref("rec_dp", "C14", (D + "dp_decision_node.cpp", """            if (child.num_backups >= visit_threshold) {
                dp_values_thresholded[action] = opp_coeff * child.dp_value;
            } else {
                dp_values[action] = opp_coeff * child.dp_value;
            }
        }

        if (dp_values_thresholded.size() > 0) {
            return helper::get_max_key_break_ties_randomly(dp_values_thresholded, rand_manager);
        }
        return helper::get_max_key_break_ties_randomly(dp_values, rand_manager);
""", """            auto& target = (child.num_backups < visit_threshold) ? dp_values : dp_values_thresholded;
            target[action] = opp_coeff * child.dp_value;
        }

        const bool any = !dp_values_thresholded.empty();
        return helper::get_max_key_break_ties_randomly(any ? dp_values_thresholded : dp_values, rand_manager);
"""))
ref("rec_emp", "C14", (D + "emp_node.cpp", """            shared_ptr<const Action> action = pr.first;
            EmpNode& child = *pr.second;
            if (child.num_backups >= visit_threshold) {
                avg_returns_thresholded[action] = opp_coeff * child.avg_return;
            } else {
                avg_returns[action] = opp_coeff * child.avg_return;
            }
""", """            EmpNode& child = *pr.second;
            const double value = is_opponent ? -child.avg_return : child.avg_return;
            if (child.num_backups < visit_threshold) {
                avg_returns.insert_or_assign(pr.first, value);
                continue;
            }
            avg_returns_thresholded.insert_or_assign(pr.first, value);
"""), (D + "emp_node.cpp", "        double opp_coeff = is_opponent ? -1.0 : 1.0;\n", ""))
ref("emp_backup", "C13", (D + "emp_node.cpp", """        num_backups++;
        avg_return += (_return - avg_return) / (double) num_backups;
""", """        double total = avg_return * num_backups + _return;
        num_backups += 1;
        avg_return = total / num_backups;
"""))
ref("ent_c", "C13", (D + "ent_chance_node.cpp", """        num_backups++;

        subtree_entropy = 0.0;
        double sum_child_backups = 0;
""", """        double total = 0.0;
        double sum_child_backups = 0;
"""), (D + "ent_chance_node.cpp", """            sum_child_backups += child_backups;
            subtree_entropy *= (sum_child_backups - child_backups) / sum_child_backups;
            subtree_entropy += child_backups * child.subtree_entropy / sum_child_backups; 
        }
""", """            sum_child_backups += child_backups;
            total += child_backups * child.subtree_entropy;
        }
        subtree_entropy = (sum_child_backups > 0) ? total / sum_child_backups : 0.0;
        num_backups++;
"""))
ref("ent_d", "C13", (D + "ent_decision_node.cpp", """        // Remember to update num backups
        num_backups++;
""", ""), (D + "ent_decision_node.cpp", """            double prob = pr.second;
            if (prob == 0.0) continue;
            local_entropy -= prob * log(prob);
""", """            if (pr.second != 0.0) local_entropy -= pr.second * log(pr.second);
"""), (D + "ent_decision_node.cpp", """            subtree_entropy += policy[action] * child.subtree_entropy;
        }
""", """            double prob = policy[action];
            subtree_entropy += child.subtree_entropy * prob;
        }
        num_backups++;
"""))
TD = "src/algorithms/ments/tents/tents_decision_node.cpp"
ref("tents_set", "C10 C11", (TD, """        double i = 0;
        double sum_values = 0.0;
        for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {
            double value = it->first;
            shared_ptr<const Action> action = it->second;
            sum_values += value;
            if (1.0 + (i+1.0)*value > sum_values) {
                sparse_action_set->push_back(action);
            }
            i++;
        }
""", """        int k = 1;
        double sum_values = 0.0;
        for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); ++it, ++k) {
            sum_values += it->first;
            if (1.0 + k * it->first > sum_values) sparse_action_set->push_back(it->second);
        }
"""))
ref("tents_spmax", "C10", (TD, """        double spmax_common_term = 0.5 * pow(sum_sparse_values-1.0, 2.0) / pow(sparse_action_set->size(), 2.0);
        double spmax = 0.5;
        for (shared_ptr<const Action> action : *sparse_action_set) {
            double action_val = act_to_qval.at(action);
            spmax += pow(action_val, 2.0) / 2.0 - spmax_common_term;
        }
""", """        const double tau = (sum_sparse_values - 1.0) / sparse_action_set->size();
        double spmax = 0.5;
        for (const auto& action : *sparse_action_set) {
            const double action_val = act_to_qval.at(action);
            spmax += 0.5 * (action_val * action_val - tau * tau);
        }
"""))
ref("tents_w", "C11 C05", (TD, """            double weight = get_soft_q_value_over_temp(action) - common_term;
            if (weight < 0.0) weight = 0.0;
            action_weights[action] = weight;
            sum_action_weights += weight;
""", """            const double weight = max(0.0, get_soft_q_value_over_temp(action) - common_term);
            sum_action_weights += weight;
            action_weights.insert_or_assign(action, weight);
"""), (TD, """        double new_q_value;

        if (has_child_node(selected_action)) {
            ThtsCNode& child_node = *get_child_node(selected_action);
            child_node.lock();
            new_q_value = get_soft_q_value_over_temp(selected_action);
            child_node.unlock();
        } else {
            new_q_value = get_soft_q_value_over_temp(selected_action);
        }

        update_maps(selected_action, new_q_value);
""", """        const bool tried = has_child_node(selected_action);
        if (tried) get_child_node(selected_action)->lock();
        const double new_q_value = get_soft_q_value_over_temp(selected_action);
        if (tried) get_child_node(selected_action)->unlock();

        update_maps(selected_action, new_q_value);
"""))
RD = "src/algorithms/ments/rents/rents_decision_node.cpp"
ref("rents", "C10 C11", (RD, """        if (parent_distr->find(action) == parent_distr->end()) return 0.0;
        return parent_distr->at(action);
""", """        auto it = parent_distr->find(action);
        return (it != parent_distr->end()) ? it->second : 0.0;
"""), (RD, """            double soft_q_value = get_soft_q_value(action,opp_coeff);
            double action_weight = exp((soft_q_value/temp) - normalisation_term);
            action_weight *= get_parent_action_prob(parent_distr, action);
            action_weights[action] = action_weight;
            sum_action_weights += action_weight;
""", """            const double q_over_temp = get_soft_q_value(action,opp_coeff) / temp;
            const double weight = get_parent_action_prob(parent_distr, action) * exp(q_over_temp - normalisation_term);
            sum_action_weights += weight;
            action_weights[action] = weight;
"""), (RD, """            for (shared_ptr<const Action> action : *actions) {
                action_weights[action] = uniform_weight;
            }
            sum_action_weights = 1.0;
""", """            sum_action_weights = 1.0;
            for (size_t i = 0; i < actions->size(); ++i) {
                action_weights[actions->at(i)] = uniform_weight;
            }
"""))
DD = "src/algorithms/ments/dents/dents_decision_node.cpp"
ref("dents_q", "C13 C11", (DD, """        double val_estimate = child.dp_value;
        if (!manager.use_dp_value) val_estimate = child.avg_return;
        return opp_coeff * (val_estimate + get_value_temp() * child.subtree_entropy);
""", """        const double entropy_bonus = get_value_temp() * child.subtree_entropy;
        const double val_estimate = manager.use_dp_value ? child.dp_value : child.avg_return;
        return opp_coeff * val_estimate + opp_coeff * entropy_bonus;
"""), (DD, """        MentsDNode::num_backups++;

        // entropy backup
""", """        // entropy backup
"""), (DD, """        soft_value = val_estimate + get_value_temp() * subtree_entropy;
""", """        soft_value = val_estimate + get_value_temp() * subtree_entropy;
        MentsDNode::num_backups++;
"""))
ref("dents_vt", "C22", (DD, """        if (manager.value_temp_decay_fn == nullptr) return manager.value_temp_init;

        double visits_scale = manager.value_temp_decay_visits_scale;
        if (is_root_node() && manager.value_temp_decay_root_node_visits_scale > 0.0) {
            visits_scale = manager.value_temp_decay_root_node_visits_scale;
        }
        return compute_decayed_temp(
            manager.value_temp_decay_fn, 
            manager.value_temp_init, 
            manager.value_temp_decay_min_temp, 
            num_visits, 
            visits_scale);
""", """        double value_temp = manager.value_temp_init;
        if (manager.value_temp_decay_fn != nullptr) {
            const double root_scale = manager.value_temp_decay_root_node_visits_scale;
            const bool use_root_scale = root_scale > 0.0 && is_root_node();
            value_temp = compute_decayed_temp(
                manager.value_temp_decay_fn, value_temp, manager.value_temp_decay_min_temp, num_visits,
                use_root_scale ? root_scale : manager.value_temp_decay_visits_scale);
        }
        return value_temp;
"""))
ED = "src/algorithms/est/est_decision_node.cpp"
ref("est", "C13", (ED, """        if (has_child_node(action)) {
            EstCNode& child = (EstCNode&) *get_child_node(action);
            DentsManager& manager = (DentsManager&) *thts_manager;
            double val_estimate = manager.use_dp_value ? child.dp_value : child.avg_return;
            return val_estimate * opp_coeff;
        } 

        return MentsDNode::get_soft_q_value(action, opp_coeff);
""", """        if (!has_child_node(action)) return MentsDNode::get_soft_q_value(action, opp_coeff);

        const auto& manager = static_cast<const DentsManager&>(*thts_manager);
        const auto& child = static_cast<const EstCNode&>(*get_child_node(action));
        if (manager.use_dp_value) return opp_coeff * child.dp_value;
        return opp_coeff * child.avg_return;
"""))
LG = "src/thts_logger.cpp"
ref("logger", "C20", (LG, """        bool result = false;
        if (trials_completed - last_log_num_trials >= trials_delta) {
            last_log_num_trials = trials_completed;
            result = true;
        }
        if (get_current_total_runtime() >= next_log_runtime_threshold) {
            next_log_runtime_threshold += runtime_delta;
            result = true;
        }
        return result;
""", """        const bool trials_due = trials_completed - last_log_num_trials >= trials_delta;
        const bool runtime_due = !(get_current_total_runtime() < next_log_runtime_threshold);
        if (trials_due) last_log_num_trials = trials_completed;
        if (runtime_due) next_log_runtime_threshold += runtime_delta;
        return trials_due || runtime_due;
"""), (LG, """        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
            logger_entry->write_to_ostream(os);
            os << "\\n";
        }
""", """        for (size_t i = 0; i < entries.size(); i++) {
            entries[i]->write_to_ostream(os);
            os << "\\n";
        }
"""), (LG, """        chrono::duration<double> runtime = cur_time - start_time;
        prior_runtime += runtime;
        start_time = cur_time;
""", """        prior_runtime = prior_runtime + (cur_time - start_time);
        start_time = cur_time;
"""))
CX = "src/thts_env_context.cpp"
ref("ctx", "C21", (CX, "        context[key] = val;\n", "        context.insert_or_assign(key, val);\n"), (CX, "        context.erase(key);\n", "        auto it = context.find(key);\n        if (it != context.end()) context.erase(it);\n"))
EV = "src/thts_env.cpp"
ref("env", "C21 C15", (EV, """        if (_is_fully_observable) {
            shared_ptr<ObservationDistr> distr = make_shared<ObservationDistr>();
            shared_ptr<const Observation> obsv = static_pointer_cast<const Observation>(next_state);
            distr->insert_or_assign(obsv, 1.0);
            return distr;
        }
        throw runtime_error("Attempting to use non-existant default get_observation_distribution for POMDP envs");
""", """        if (!_is_fully_observable) {
            throw runtime_error("Attempting to use non-existant default get_observation_distribution for POMDP envs");
        }
        auto distr = make_shared<ObservationDistr>();
        (*distr)[static_pointer_cast<const Observation>(next_state)] = 1.0;
        return distr;
"""))
ref("eval_step", "C19", (E_, """        if (cur_node == nullptr) return;
        if (!cur_node->has_child_node_itfc(action)) {
            cur_node = nullptr;
            return;
        }
        ThtsCNode& chance_node = *cur_node->get_child_node_itfc(action);
        if (!chance_node.has_child_node_itfc(obsv)) {
            cur_node = nullptr;
            return;
        }
        cur_node = chance_node.get_child_node_itfc(obsv);
""", """        if (cur_node == nullptr) return;
        shared_ptr<const ThtsDNode> next_node = nullptr;
        if (cur_node->has_child_node_itfc(action)) {
            shared_ptr<ThtsCNode> chance_node = cur_node->get_child_node_itfc(action);
            if (chance_node->has_child_node_itfc(obsv)) next_node = chance_node->get_child_node_itfc(obsv);
        }
        cur_node = next_node;
"""), (E_, """        double weight = 1.0 / sampled_returns.size();
        double mean = 0.0;
        for (double val : sampled_returns) {
            mean += weight * val;
        }
        return mean;
""", """        double sum = 0.0;
        for (const double& val : sampled_returns) sum += val;
        return sum / sampled_returns.size();
"""), (E_, """            stddev += weight * pow(val - mean, 2.0);
        }
        return sqrt(stddev);
""", """            const double diff = val - mean;
            stddev += diff * diff;
        }
        return sqrt(stddev * weight);
"""))
ref("eval_threads", "C19", (E_, """        for (int i=thread_id; i < total_rollouts; i+=num_threads) {
            run_rollout(*thread_policy);
        }
""", """        int i = thread_id;
        while (i < total_rollouts) {
            run_rollout(*thread_policy);
            i += num_threads;
        }
"""), (E_, """        for (int i=0; i<num_threads; i++) {
            threads[i].join();
        }
""", """        for (thread& t : threads) t.join();
"""))
ref("types", "C18", ("src/thts_types.cpp", """        try {
            const IntPairState& oth = dynamic_cast<const IntPairState&>(other);
            return equals(oth);
        }
        catch (const bad_cast&) {
            return false;
        }
""", """        const IntPairState* oth = dynamic_cast<const IntPairState*>(&other);
        return oth != nullptr && equals(*oth);
"""), ("src/thts_types.cpp", """        return state.first == other.state.first && state.second == other.state.second;
""", """        return state == other.state;
"""))
ref("ments_rec", "C14", (M, """            double q_value = get_soft_q_value(action, opp_coeff);
            if (has_child_node(action) && get_child_node(action)->num_visits >= manager.recommend_visit_threshold) {
                soft_values_thresholded[action] = q_value;
            } else {
                soft_values[action] = q_value;
            }
""", """            bool reached = false;
            if (has_child_node(action)) {
                reached = get_child_node(action)->num_visits >= manager.recommend_visit_threshold;
            }
            (reached ? soft_values_thresholded : soft_values)[action] = get_soft_q_value(action, opp_coeff);
"""), (M, """            if (!has_child_node(action)) continue;
            visit_counts[action] = get_child_node(action)->num_visits;
""", """            if (has_child_node(action)) visit_counts[action] = get_child_node(action)->num_visits;
"""))
ref("ments_helper", "C11 C22", (M, """    void MentsDNode::compute_action_distribution(
        ActionDistr& action_distr, """, """    static double mixing_weight(double epsilon, double visits, double cap) {
        if (epsilon <= 0.0) return min(0.0, cap);
        return min(epsilon / log(visits + 1), cap);
    }

    void MentsDNode::compute_action_distribution(
        ActionDistr& action_distr, """), (M, """        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
        if (lambda > manager.max_explore_prob) {
            lambda = manager.max_explore_prob;
        }
""", """        const double lambda = mixing_weight(epsilon, num_visits, manager.max_explore_prob);
"""))
ref("pool_wait", "C02 C01 C05", (T, """        while (work_left() || num_threads_working > 0) {
            workers_idle_cv.wait(work_left_lock);
        }
""", """        for (;;) {
            const bool busy = num_threads_working > 0;
            if (!work_left() && !busy) return;
            workers_idle_cv.wait(work_left_lock);
        }
"""), (T, """        work_left_lock.lock();
        num_trials = max_trials;
        trials_remaining = max_trials;
        start_time = std::chrono::system_clock::now();
        max_run_time =  std::chrono::duration<double>(max_time);
        work_left_lock.unlock();

        work_left_cv.notify_all();
""", """        {
            lock_guard<mutex> lg(work_left_lock);
            max_run_time = std::chrono::duration<double>(max_time);
            start_time = std::chrono::system_clock::now();
            trials_remaining = num_trials = max_trials;
            work_left_cv.notify_all();
        }
"""))
ref("pool_log", "C20 C05 C06", (T, """        if (logger != nullptr) {
            lock_guard<mutex> logging_lg(logging_lock);
            trials_completed++;
            logger->trial_completed();

            if (logger->should_log()) {
                lock_guard<mutex> root_node_lg(root_node->get_lock());
                logger->log(root_node);
            }

            logger->update_prior_runtime();
        }
""", """        if (logger == nullptr) return;

        unique_lock<mutex> logging_lg(logging_lock);
        logger->trial_completed();
        ++trials_completed;

        const bool due = logger->should_log();
        if (due) {
            root_node->lock();
            logger->log(root_node);
            root_node->unlock();
        }

        logger->update_prior_runtime();
"""))
ref("worker", "C01 C02 C05", (T, """        while (thread_pool_alive) {
            while (!work_left()) {
                workers_idle_cv.notify_all();
                work_left_cv.wait(work_left_lock);
                if (!thread_pool_alive) return;
            }
""", """        while (true) {
            if (!thread_pool_alive) break;
            while (!work_left()) {
                workers_idle_cv.notify_all();
                work_left_cv.wait(work_left_lock);
                if (!thread_pool_alive) return;
            }
"""))

def main():
    a = sys.argv[1:]; only_c = "-c" in a; a = [x for x in a if x != "-c"] or list(R)
    os.makedirs("/tmp/rf", exist_ok=True)
    if not os.path.isdir(W): subprocess.check_call(["git", "clone", "-q", "/repo", W])
    for i in a:
        props, edits = R[i]; subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        for f, o, n in edits:
            s = open(W + "/" + f).read()
            if s.count(o) < 1: print(i, "edit does not match in", f, repr(o[:60])); break
            open(W + "/" + f, "w").write(s.replace(o, n, 1))
        fs = [f if f.endswith(".cpp") else H + "/inst/inst.cpp" for f in sorted({f for f, _, _ in edits})]
        r = subprocess.run("g++ -std=c++20 -w -Iinclude -Isrc -Iexternal -I. -fsyntax-only " + " ".join(fs), shell=True, cwd=W, capture_output=True, text=True)
        if r.returncode: print(i, "does not compile", r.stderr[:600]); continue
        if only_c: print(i, "ok"); continue
        for p in props:
            t = time.time(); r = subprocess.run(["python3-vt", "check.py", p], cwd=H, capture_output=True, text=True, env=dict(os.environ, CDV_REPO=W))
            open("/tmp/rf/%s-%s.log" % (i, p), "w").write(r.stdout + r.stderr)
            l = r.stdout.splitlines(); print("%-12s %s rc=%d %ds %s %s" % (i, p, r.returncode, time.time() - t, l[0][:110] if l else r.stderr[-300:], " ".join(x for x in l if x.startswith("VIOLATION"))), flush=True)
            for x in l[1:6]: print("      ", x[:200], flush=True)
    subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
if __name__ == "__main__": main()
