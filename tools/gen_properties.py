#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "A run uses exactly its trial budget and never starts work past it",
 "One call to run trials with a budget of N trials and a time limit starts at most N trials over all worker threads together; no trial starts when the budget is used up, after the time limit has passed, or after shutdown was requested. If the time limit is not reached, exactly N trials are run to completion, whatever the number of threads.",
 ["schedules", "inputs", "histories"], "every number of workers, every interleaving of workers with callers, every budget (including zero and negative) and time limit, and every sequence of runs on one pool",
 "The suite samples a few thread counts and budgets on one schedule each, and its thread-pool tests are too flaky to be in the stable set; the guarantee is over all interleavings of the hand-out of trials.",
 ["src/thts.cpp", "include/thts.h"],
 [("remaining-trials counter", "trials of the current run not yet handed to a worker", "src/thts.cpp"), ("time limit and start time", "deadline of the current run", "src/thts.cpp")],
 [("hand-out of a trial under the pool mutex, guarded by the work-left test", "ThtsPool::worker_fn, ThtsPool::work_left"), ("publication of a new budget", "ThtsPool::run_trials")],
 ["number of trials executed per run", "ThtsPool::run_trials return"])

prop("C02", "Waiting for a run ends exactly when the pool is idle; shutdown ends workers",
 "Waiting for a run (explicitly, or through a blocking run) returns only in a state where no trial is executing and none is left to start, and no waiter or worker is left asleep once what it waits for has become true, including when the run ends by its time limit. Destroying the pool makes every worker finish, and swapping the environment, root or logger is refused while trials are left or still executing.",
 ["schedules", "histories"], "every interleaving of workers, joiners, new runs, environment swaps and destruction, and every point at which the time limit can pass",
 "Lost wake-ups, early returns and a deadline that passes between two tests of it need specific interleavings that a unit test cannot force.",
 ["src/thts.cpp", "include/thts.h"],
 [("number of threads working", "workers currently executing a trial", "src/thts.cpp"), ("pool-alive flag", "cleared once by destruction", "src/thts.cpp")],
 [("condition variable protocol", "ThtsPool::worker_fn, ThtsPool::join, ThtsPool::run_trials, ThtsPool::~ThtsPool"), ("refusal to swap while working", "ThtsPool::set_new_env")],
 ["ThtsPool::join return", "ThtsPool destructor return", "ThtsPool::set_new_env exception"])

prop("C03", "The selection phase descends one connected root-to-frontier path",
 "In every trial the selection phase starts at the root, visits every node on its path exactly once, takes at each decision node the child for the action that node selected and at each chance node the child for the observation it sampled, and stops exactly at the first decision node that is a leaf or, in MCTS mode, directly after the first step that created a decision node. It records the (decision node, chance node) pairs in path order together with the environment's reward of each step, followed by the heuristic value of the final node.",
 ["inputs", "configurations", "schedules"], "every tree, path length, environment, MCTS-mode setting, maximum depth and behaviour of the node implementations",
 "Tests run a handful of environments and look only at aggregate visit counts after the run; they do not observe the path, the stopping rule or the reward/node pairing of an arbitrary trial.",
 ["src/thts.cpp", "src/thts_decision_node.cpp"],
 [("path of node pairs and list of rewards", "what the backup phase receives", "src/thts.cpp")],
 [("selection loop", "ThtsPool::run_selection_phase"), ("stopping rule", "ThtsPool::should_continue_selection_phase, ThtsDNode::is_leaf, ThtsDNode::is_sink")],
 ["calls made on node objects during a trial", "arguments handed to the backup phase"])

prop("C04", "The backup phase updates each path node once, bottom-up, with exact returns",
 "After a trial with T steps every recorded pair is backed up exactly once from last to first, the chance node of a step directly before its decision node. At step t each is given the rewards before t in order, the rewards from the heuristic value back to step t (latest first), the sum of the rewards from t on including the heuristic value, and the sum of all rewards of the trial.",
 ["inputs", "histories"], "every path length (including zero steps) and every reward sequence",
 "Tests observe the backup arguments only through final averages on two toy environments; index and accumulation errors that need particular lengths or reward sequences stay invisible.",
 ["src/thts.cpp"],
 [("rewards before/after split", "arguments of every backup call", "src/thts.cpp")],
 [("backup loop", "ThtsPool::run_backup_phase")],
 ["arguments of the backup calls on node objects"])

prop("C05", "Node and pool data is only touched under its lock; locks are balanced",
 "During a search every access to a node's mutable statistics and children happens while the accessing thread holds that node's lock, children being read only while they are locked, and every access to the shared transposition table, the logger, the random generator and the pool's scheduling state happens under the mutex that guards it. Every operation releases exactly the locks it took, on every path.",
 ["schedules", "inputs", "configurations"], "every interleaving of trials over shared trees, every algorithm, every number of transposition-table mutexes",
 "A data race or a lock leaked on one branch does not make a unit test fail; the condition is over every access on every path.",
 ["src/thts.cpp", "src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "include/algorithms/common", "src/algorithms", "include/thts_manager.h"],
 [("per-node mutex", "guards statistics and children of the node", "include/thts_decision_node.h, include/thts_chance_node.h"), ("transposition-table mutexes", "guard the shared node table", "include/thts_manager.h")],
 [("lock/unlock around node calls", "ThtsPool::run_selection_phase, ThtsPool::run_backup_phase"), ("locking of children around value computations", "lock_all_children/unlock_all_children and the backup helpers"), ("table locking", "ThtsCNode::create_child_node_itfc")],
 ["every lock, unlock and shared-field access in the node, pool and helper code"])

prop("C06", "Locks are acquired in one global order, so trials cannot deadlock",
 "No operation of the search acquires a lock it already holds, waits on a condition variable while holding a second lock, or acquires locks against the order logger, then nodes from the root downwards (a parent before its children), then the transposition table, then the random generator.",
 ["schedules", "configurations"], "every interleaving of trials, every algorithm, every tree shape",
 "A deadlock needs two threads to meet in a particular window; the tests that run several threads run short searches on tiny trees.",
 ["src/thts.cpp", "src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "include/algorithms/common", "src/algorithms"],
 [("lock level of a node", "its depth in the tree", "include/thts_decision_node.h, include/thts_chance_node.h")],
 [("parent-before-child acquisition", "lock_all_children and the backup helpers"), ("parent data passed through the trial context instead of locking upwards", "RentsDNode")],
 ["every lock acquisition site"])

prop("C07", "Children are created once, keyed by value, and placed correctly in the tree",
 "Asking a node for the child of an action or observation creates it at most once: afterwards the child is present under that key, all other children are unchanged, the count grows by one exactly when it was absent, and a later request or lookup returns the same node. A created chance node carries its parent's state, depth and timestep and the chosen action; a created decision node carries the sampled state and depth and timestep one larger, is of the parent's algorithm, and points to its parent. With a transposition table two chance nodes of the same timestep reaching equal observations share one live decision node; without it they never share.",
 ["inputs", "histories", "configurations", "schedules"], "every sequence of child requests on every tree, all algorithms, both transposition settings",
 "Tests create a few children in fixed order on base nodes; they never check that other entries survive, the algorithm-specific constructors, or table reuse after nodes died.",
 ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp", "src/algorithms"],
 [("children map", "action/observation to child", "include/thts_decision_node.h, include/thts_chance_node.h"), ("transposition table", "(timestep, observation) to decision node", "include/thts_manager.h")],
 [("create-child logic", "ThtsDNode::create_child_node_itfc, ThtsCNode::create_child_node_itfc"), ("typed constructors", "create_child_node_helper of every algorithm")],
 ["create/has/get child, child fields"])

prop("C08", "UCT statistics are exact counts and running averages of returns",
 "After any sequence of visits and backups a UCT or PUCT node's visit and backup counts equal the number of visits and backups it received, plus the configured pseudo-trials on decision nodes with a heuristic, and its value equals the arithmetic mean of the returns-from-that-node it was backed up with, the heuristic value counting as that many pseudo-returns. A node with no backups and no pseudo-trials has its initial value replaced entirely by the first return.",
 ["inputs", "histories"], "every sequence of visits and backups with arbitrary returns, all pseudo-trial settings",
 "The mean is an invariant over unbounded histories; tests check one or two hand-computed updates.",
 ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/uct_chance_node.cpp", "src/thts_decision_node.cpp", "src/thts_chance_node.cpp"],
 [("visit count, backup count, average return", "per-node UCT statistics", "include/algorithms/uct")],
 [("incremental mean", "UctDNode::backup, UctCNode::backup"), ("initialisation", "UctDNode constructor"), ("visit counting", "visit_itfc")],
 ["node statistics after visit_itfc / backup_itfc"])

prop("C09", "UCT and PUCT select an untried action first, otherwise a UCB maximiser",
 "Without a prior, while some legal action has no child the selected action is one of those; otherwise (and always with a prior) the selected action maximises over all legal actions value times the player's sign plus bias times exploration term times prior probability, where the exploration term is the algorithm's (square root of log N over n, or N to the configured power over n, counts below one read as one) and the automatic bias is the largest absolute child value but at least the documented minimum. With exploration probability e a uniformly drawn legal action may be taken instead. The chosen action is always legal and has a child afterwards.",
 ["inputs", "configurations", "histories"], "every legal action set, child statistics, bias, prior, player to move, random draw",
 "Tests compare a few hand-set tables; ties, opponent turns combined with priors or auto-bias, and unvisited children are combinations they do not enumerate.",
 ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/puct_decision_node.cpp", "src/helper_templates.cc"],
 [("child average returns and visit counts", "inputs of the UCB value", "include/algorithms/uct")],
 [("UCB computation", "UctDNode::fill_ucb_values, compute_ucb_term"), ("untried-first rule and epsilon exploration", "UctDNode::select_action")],
 ["select_action_itfc result and children"])

prop("C10", "Soft values are the exact soft-max backups of MENTS, RENTS and TENTS",
 "After a backup a MENTS decision node's soft value is (player sign) times temperature times log-sum-exp of its soft action values over temperature, the RENTS policy weights that exponential by the parent's policy (falling back to uniform weights when all vanish), and TENTS uses the sparse-max operator over its action values as refreshed for the action selected in this trial; an action without a child contributes the default value or its prior pseudo-value. A chance node's soft value is its local reward plus the backup-count-weighted mean of its children's soft values over children with at least one backup, and counts grow by exactly one per backup.",
 ["inputs", "histories", "configurations"], "all action sets, child values, temperatures (fixed or decayed), priors, player to move",
 "The values are real-valued functions of unboundedly many children; tests pin a few numeric examples with two or three children and no prior/opponent combinations.",
 ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/ments_chance_node.cpp", "src/algorithms/ments/rents/rents_decision_node.cpp", "src/algorithms/ments/tents/tents_decision_node.cpp"],
 [("soft value and backup count", "per-node statistics", "include/algorithms/ments")],
 [("soft backup", "MentsDNode::backup_soft, MentsCNode::backup_soft, TentsDNode::backup_tents"), ("action weights", "compute_action_weights"), ("soft action value", "get_soft_q_value")],
 ["soft value after backup_itfc"])

prop("C11", "Boltzmann search policies are valid distributions mixed as configured",
 "The distribution a MENTS-family decision node (MENTS, RENTS, TENTS, DB-MENTS, DENTS, EST) samples its action from gives each legal action (1-l)((1-m) * normalised weight + m * prior) + l / (number of actions), with l = min(exploration constant / log(visits+1), configured maximum) using the root constant at the root when set, m = prior weight / log(visits+3) when a prior weight is set and 0 otherwise; entries that are numerically zero are dropped and nothing else, entries are never negative and sum to one. The action selected is drawn from it, is legal and has a child afterwards.",
 ["inputs", "configurations", "histories"], "all weights, visit counts (including unvisited nodes), exploration and prior settings, root and inner nodes",
 "Tests check mixed entries for single parameter settings; normalisation and the mixture formula must hold for every visit count and parameter.",
 ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/rents/rents_decision_node.cpp", "src/algorithms/ments/tents/tents_decision_node.cpp"],
 [("action distribution", "what the action is sampled from", "src/algorithms/ments/ments_decision_node.cpp")],
 [("mixture", "MentsDNode::compute_action_distribution"), ("selection", "select_action of each algorithm")],
 ["compute_action_distribution output", "select_action_itfc result"])

prop("C12", "Dynamic-programming values are exact Bellman backups over tried children",
 "After a dynamic-programming backup a decision node's value is the maximum (minimum on the opponent's turns) of the values of its children that have been backed up, and a chance node's value is its local reward plus the mean of its children's values weighted by their backup counts, children without backups being ignored. Each backup raises the node's backup count by exactly one and changes no child.",
 ["inputs", "histories", "configurations"], "every set of children with arbitrary values and counts, either player",
 "Tests feed a few fixed child tables; the statement is over all tables, orders of iteration and signs.",
 ["src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/dp_chance_node.cpp", "include/algorithms/common/dp_decision_node.h", "include/algorithms/common/dp_chance_node.h", "src/algorithms/ments/dbments_decision_node.cpp", "src/algorithms/ments/dbments_chance_node.cpp"],
 [("dp value and backup count", "per-node statistics", "include/algorithms/common")],
 [("Bellman backups", "DPDNode::backup_dp, DPCNode::backup_dp"), ("use in the algorithms", "backup of DBMents, Dents and Est nodes")],
 ["dp value after backup_itfc"])

prop("C13", "DENTS and EST values combine value estimate, entropy and decayed weight",
 "In DENTS a decision node's subtree entropy is the (player-signed) entropy of its current policy plus the policy-weighted entropies of its children, a chance node's is the backup-count-weighted mean over its backed-up children, and soft action values are the value estimate (Bellman value, or mean return when so configured) plus the decayed entropy weight times the subtree entropy; EST uses the value estimate alone. Mean-return estimates are exact running means, and counts used as weights equal the number of backups (or leaf visits) received.",
 ["inputs", "histories", "configurations"], "all policies, child tables, value-estimate settings, either player, leaf and inner nodes",
 "Tests check isolated helper calls with fixed numbers; the composition inside the algorithms and the history invariants are not exercised.",
 ["src/algorithms/common/ent_decision_node.cpp", "src/algorithms/common/ent_chance_node.cpp", "src/algorithms/common/emp_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp", "src/algorithms/ments/dents/dents_chance_node.cpp", "src/algorithms/est/est_decision_node.cpp", "src/algorithms/est/est_chance_node.cpp"],
 [("subtree entropy, average return, counts", "per-node statistics", "include/algorithms/common")],
 [("entropy backups", "EntDNode::backup_ent, EntCNode::backup_ent"), ("empirical mean", "EmpNode::backup_emp"), ("combination", "DentsDNode/DentsCNode/EstDNode/EstCNode backup and get_soft_q_value")],
 ["node statistics after backup_itfc"])

prop("C14", "Recommendations are legal and optimal for the configured criterion",
 "The recommended action is always legal. It is, as configured, a most-visited tried action or an action of best value for the player to move (mean return, soft value, Bellman value or empirical value of the algorithm), where actions meeting the visit threshold take precedence over those that do not when the algorithm has a threshold; when nothing was tried and the criterion needs a tried action, it is some legal action. Recommending changes no statistics.",
 ["inputs", "configurations", "histories"], "every child table, threshold, player to move, recommendation mode and algorithm",
 "Tests check one table per mode; thresholds combined with opponent turns and missing children are not enumerated.",
 ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/emp_node.cpp", "src/algorithms/ments/dbments_decision_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp"],
 [],
 [("recommendation functions", "recommend_action of each algorithm"), ("arg-max", "helper::get_max_key_break_ties_randomly")],
 ["recommend_action_itfc result"])

prop("C15", "Sampling from weighted maps, uniform lists and mixtures is exact",
 "Sampling from a weighted map with a uniform draw u returns the key whose cumulative normalised weight interval (in iteration order) contains u: each key is returned exactly for a set of u of measure weight/total, keys of zero weight never, and it never fails on a proper distribution, whether the weights are normalised or are declared unnormalised with any positive total. A uniform list sampler returns the element at a uniformly drawn valid position, a mixture samples a component by its weight and returns that component's sample, and a random integer request for [a,b) returns a value in [a,b).",
 ["inputs"], "every non-empty map of non-negative weights, every draw in [0,1), every list and range",
 "Tests use fixed small maps and statistical tolerance; totals below one, zero-weight entries and boundary draws are not covered.",
 ["src/helper_templates.cc", "src/distributions/discrete_uniform_distribution.cc", "src/distributions/mixed_distribution.cc", "include/thts_manager.h"],
 [],
 [("inverse-CDF loop", "helper::sample_from_distribution"), ("index draw", "DiscreteUniformDistribution::sample, RandManager::get_rand_int"), ("mixture", "MixedDistribution::sample")],
 ["returned key as a function of the draw"])

prop("C16", "The alias table samples exactly the configured categorical distribution",
 "After construction, and after every table rebuild triggered by updates, drawing a uniform slot and a uniform threshold returns each key with probability exactly its weight divided by the total weight, including after the distribution was replaced by one of a different size or a key was added. Between rebuilds sampling keeps returning keys of the table it was built from and never reads outside it.",
 ["inputs", "histories"], "every weight table, every sequence of single-key and whole-distribution updates and rebuild frequencies",
 "Tests sample a few fixed tables statistically; the exactness of the table after arbitrary updates is an invariant over all tables.",
 ["src/distributions/categorical_distribution.cc", "include/distributions/categorical_distribution.h"],
 [("alias table", "threshold and two keys per slot", "include/distributions/categorical_distribution.h")],
 [("table construction", "CategoricalDistribution::construct_alias_table, reconstruct_alias_table"), ("updates", "CategoricalDistribution::update"), ("sampling", "CategoricalDistribution::sample")],
 ["table contents, sampled key as a function of the draws"])

prop("C17", "The arg-max helper returns a true maximiser and breaks ties by a uniform draw",
 "For every non-empty map of finite values the arg-max helper returns a key of the map whose value is at least every other value; every key attaining the maximum is returned for exactly one outcome of the uniform tie-breaking draw, and a key below the maximum for none. The map is not modified.",
 ["inputs"], "every non-empty map of finite values in every iteration order and every outcome of the tie-breaking draw",
 "Tests try a few maps; negative-only maps, late maxima and many-way ties in every iteration order are not enumerated.",
 ["src/helper_templates.cc", "include/helper_templates.h"],
 [],
 [("single pass collecting maximisers", "helper::get_max_key_break_ties_randomly")],
 ["returned key"])

prop("C18", "Equality of states, actions, observations is by value and hash-consistent",
 "For the provided integer, integer-pair, integer-triple and string state and action types, equality is an equivalence relation that holds exactly when the type and all components agree, never throws for objects of another type, and equal objects have equal hashes; the same holds for keys given as shared pointers and for (timestep, observation) node ids, so lookups in maps keyed by them depend on values only.",
 ["inputs"], "all pairs and triples of objects of the provided types",
 "Tests compare a few objects; the hash/equality law must hold for every pair.",
 ["src/thts_types.cpp", "include/thts_types.h", "src/helper_templates.cc"],
 [],
 [("equality and hash members", "IntState, IntPairState, Int3TupleState, IntAction, StringAction"), ("std::hash / std::equal_to specialisations", "src/thts_types.cpp")],
 ["operator==, std::equal_to, std::hash"])

prop("C19", "Monte-Carlo evaluation runs every rollout once and reports its statistics",
 "A request for R rollouts on K threads records exactly R returns; each rollout starts at the initial state with a reset policy, takes at most the configured number of actions, stops at a terminal state, and its return is the sum of the rewards of the steps taken. While the policy's search tree covers the history the policy acts by recommendation of the node reached by that history, afterwards by a uniformly random legal action; the reported mean and standard deviation are the sample mean and the sample standard deviation (n-1) of the recorded returns.",
 ["inputs", "schedules", "configurations"], "every rollout count and thread count (also when not divisible), every environment, tree and horizon, every interleaving of threads",
 "No test covers the evaluator at all.",
 ["src/mc_eval.cpp", "include/mc_eval.h"],
 [("recorded returns", "one entry per rollout", "include/mc_eval.h"), ("policy's current node", "node reached by the history, or none", "include/mc_eval.h")],
 [("rollout loop", "MCEvaluator::run_rollout"), ("division of rollouts over threads", "MCEvaluator::thread_run_rollouts, run_rollouts"), ("tree following", "EvalPolicy::update_step, get_action"), ("statistics", "get_mean_return, get_stddev_return")],
 ["recorded returns, mean, standard deviation, actions taken"])

prop("C20", "The logger records entries exactly when due, with consistent totals",
 "A fresh logger has seen no trials; it asks for an entry exactly when the trials since the last trial-triggered entry or the start of the run reach the trial interval or the total runtime reaches the next runtime threshold, an entry records the total runtime and the root's statistics at that moment, and the output is one header and one line per entry in order with the columns of that entry's kind. The runtime reported is the sum over the earlier runs plus the current one, so it never decreases across runs, and the pool counts every completed trial of a run exactly once.",
 ["histories", "schedules"], "every sequence of runs, trial completions, interval settings and clock readings",
 "No test covers logging; the initial state and the state carried across runs are history properties.",
 ["src/thts_logger.cpp", "include/thts_logger.h", "src/thts.cpp", "src/algorithms/uct/uct_logger.cpp", "src/algorithms/ments/ments_logger.cpp", "src/algorithms/ments/dbments_logger.cpp"],
 [("entries", "log lines so far", "include/thts_logger.h"), ("prior runtime, thresholds, trial counts", "logging schedule", "include/thts_logger.h")],
 [("schedule", "ThtsLogger::should_log, reset_start_time, trial_completed, update_prior_runtime"), ("entry creation", "log, add_origin_entry of each logger"), ("pool side", "ThtsPool::try_log, run_trials")],
 ["should_log result, entries, written output"])

prop("C21", "Default observations mirror the state; trial contexts behave as maps",
 "In a fully observable environment the default observation distribution puts probability one on the next state and sampling an observation returns it without consuming randomness; in a partially observable one the default refuses. A trial context behaves as two independent maps (mutable and constant values): a value read under a key is the last one stored there and not erased, other keys are unaffected, reading an absent key is an error, and every sampled context starts empty.",
 ["inputs", "histories"], "every state, action, and every sequence of context operations",
 "Tests store and read a couple of keys; the frame condition is over all sequences.",
 ["src/thts_env.cpp", "src/thts_env_context.cpp", "include/thts_env_context.h"],
 [("context maps", "key to value, mutable and constant", "include/thts_env_context.h")],
 [("defaults", "ThtsEnv::get_observation_distribution_itfc, sample_observation_distribution_itfc, sample_context_itfc"), ("context operations", "ThtsEnvContext put/get/erase")],
 ["returned observation/distribution, context reads"])

prop("C22", "Temperatures decay as configured and stay within their bounds",
 "The search temperature and the entropy weight equal the configured constant when no decay is set; otherwise they are the initial value times the decay function at (visits times scale), where the root uses its own scale when one is set, and never fall below the configured minimum. The provided decay functions are positive, at most one for non-negative arguments, equal to their documented formula and non-increasing, so the temperature is positive and never increases as visits grow.",
 ["inputs", "configurations"], "all visit counts, scales, initial and minimum temperatures",
 "Tests evaluate three points; monotonicity and bounds are over all reals.",
 ["src/algorithms/common/decaying_temp.cpp", "src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp", "src/algorithms/ments/dents/dents_chance_node.cpp"],
 [],
 [("decay", "compute_decayed_temp and the decay functions"), ("use", "get_temp, get_value_temp")],
 ["returned temperature"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
