From 847d490485907fec076d9145e5a8a93109161b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:47 +0000
Subject: [PATCH 01/11] fix: MC evaluation respects the trial length, keeps its
 context alive and reports the standard deviation

---
 src/mc_eval.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..c6742d0 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,11 +87,11 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-            shared_ptr<const Action> action = thread_policy.get_action(state, context);
+            shared_ptr<const Action> action = thread_policy.get_action(state, *context);
             shared_ptr<const State> next_state = thts_env->sample_transition_distribution_itfc(
                 state, action, rand_manager);
             shared_ptr<const Observation> obsv = thts_env->sample_observation_distribution_itfc(
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
@@ -168,6 +169,6 @@ namespace thts {
         for (double val : sampled_returns) {
             stddev += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(stddev);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8dd0f5d3cf1e70ce52d46e1e4cb4c5ab6dca6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:38 +0000
Subject: [PATCH 02/11] fix: sample_from_distribution no longer rejects proper
 distributions (unnormalised weights summing below one, zero weights after
 full mass)

---
 src/helper_templates.cc | 69 ++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..ed25dbf 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -51,61 +51,54 @@ namespace thts::helper {
     /**
      * Sampling from distribution
      * 
-     * Implementation includes useful (probabilistic) error checking on distributions (which should only occur when 
-     * normalised=true):
-     * - Firstly, if probability masses reach a sum of 1.0 or greater too quickly then we throw an exception. Consider 
-     *      if a distribution {s1: 1.0, s2: 0.5, s3: 0.5} is passed in. This exception will often catch these cases, 
-     *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
-     *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
+     * Normalises weights by their sum if 'normalised' is false. The key returned is the first one (in iteration order) 
+     * such that the mass of keys up to and including it is greater than the uniform random value drawn.
+     * 
+     * Implementation includes useful error checking on distributions (which should only occur when normalised=true):
+     * - Firstly, if probability masses sum to greater than 1.0 then we throw an exception. 
      * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
-     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
+     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights). (If they only 
+     *      sum to less than 1.0 by a rounding error, the last key considered with positive mass is returned).
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
-        double sum_weights = 1.0;
-        if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
+        double sum_weights = 0.0;
+        for (const pair<const T,double>& pr : distribution) {
+            sum_weights += pr.second;
         }
-        
-        int i = 0;
-        int distr_size = distribution.size();
+
         double rand_val = rand_manager.get_rand_uniform();
+
+        if (normalised && sum_weights > 1.0 + EPS) {
+            stringstream error_msg_ss;
+            error_msg_ss 
+                << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+            throw runtime_error(error_msg_ss.str());
+        }
+
+        double normaliser = normalised ? 1.0 : sum_weights;
         double running_prob_mass = 0.0;
+        const T* last_key = nullptr;
 
-        for (pair<T,double> pr : distribution) {
-            // update mass considered
-            running_prob_mass += pr.second / sum_weights;
-
-            // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
-            }
-            
-            // return if its time
+        for (const pair<const T,double>& pr : distribution) {
+            running_prob_mass += pr.second / normaliser;
             if (rand_val < running_prob_mass) {
                 return pr.first;
             }
+            if (pr.second > 0.0) {
+                last_key = &pr.first;
+            }
+        }
+
+        if (last_key != nullptr && running_prob_mass > 1.0 - EPS) {
+            return *last_key;
         }
 
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
             << unordered_map_pretty_print_string(distribution);
-        double sum = 0.0;
-        for (pair<T,double> pr : distribution) { 
-            sum += pr.second;
-        }
-        cout << sum << endl;
         throw runtime_error(error_msg_ss.str());
     }
 
-- 
2.43.0


From b47dd2048ea332ac4288d7174ec09c7be25c0f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:57 +0000
Subject: [PATCH 03/11] fix: alias table is rebuilt from scratch when the
 number of outcomes changes, and sampling never indexes outside it

---
 src/distributions/categorical_distribution.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..b75599c 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -57,20 +57,14 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
-     * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
+     * (reconstruct_alias_table handles the case that the distribution has changed in size)
     */
     template <typename T>
     void CategoricalDistribution<T>::update(shared_ptr<unordered_map<T,double>> new_distr) {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
-                reconstruct_alias_table(false);
-            } else {
-                alias_table.clear();
-                construct_alias_table();
-            }
+            reconstruct_alias_table(false);
         }
     }
     
@@ -122,6 +116,13 @@ namespace thts {
     */
     template <typename T>
     void CategoricalDistribution<T>::reconstruct_alias_table(bool just_constructed) {
+        // If the distribution has changed in size (num outcomes), then clear alias table and construct from scratch
+        if (!just_constructed && alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         double sum_weights = 0.0;
         for (pair<const T,double>& kv_pair : *distr) {
             sum_weights += kv_pair.second;
-- 
2.43.0


From adc0d230c9731e351732a7de480dbe7ee7b00ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:10 +0000
Subject: [PATCH 04/11] fix: set_new_env refuses while trials run, and join
 cannot miss the end of a timed out run

---
 include/thts.h |  3 +++
 src/thts.cpp   | 21 ++++++++++-----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..bf9ffdb 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -29,6 +29,8 @@ namespace thts {
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
      *          A condition variable used to coordinate when workers are working.
+     *      workers_idle_cv: 
+     *          A condition variable notified by workers when they find that there is no work left, waited on by 'join'.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any workers_idle_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..f34c3b2 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -29,6 +29,7 @@ namespace thts {
         shared_ptr<ThtsLogger> logger) :
             workers(num_threads),
             work_left_cv(),
+            workers_idle_cv(),
             work_left_lock(),
             logging_lock(),
             thread_pool_alive(true),
@@ -37,7 +38,7 @@ namespace thts {
             start_time(std::chrono::system_clock::now()),
             max_run_time(0.0),
             trials_remaining(0),
-            num_threads_working(num_threads),
+            num_threads_working(0),
             trials_completed(0),
             logger(logger),
             thts_manager(thts_manager),
@@ -78,7 +79,8 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
-        if (work_left()) {
+        lock_guard<mutex> lg(work_left_lock);
+        if (work_left() || num_threads_working > 0) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
         thts_manager = new_thts_manager;
@@ -285,9 +287,8 @@ namespace thts {
      * The worker thread function.
      * 
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
-     * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
-     * - if can't work (run a trial): 
-     *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     * - while can't work (run a trial): 
+     *      - notify workers_idle_cv to signal any threads waiting on workers completing
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -295,6 +296,7 @@ namespace thts {
      *      - decrement trials remaining to indicate we're going to run a trial
      *      - increment num_threads_working to indicate we're starting some work
      *      - run trial
+     *      - decrement num_threads_working to indicate that the trial/unit of work is completed
      * 
      * A lock_guard is used to make sure that the work_left_lock is locked throughout the routine, except while waiting 
      * on work_left_cv, and when unlocked around running a trial.
@@ -302,12 +304,8 @@ namespace thts {
     void ThtsPool::worker_fn() {
         lock_guard<mutex> lg(work_left_lock);
         while (thread_pool_alive) {
-            num_threads_working--;
-
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                workers_idle_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -319,6 +317,7 @@ namespace thts {
             work_left_lock.unlock();
             run_thts_trial(trials_remaining_copy);
             work_left_lock.lock();
+            num_threads_working--;
         }
     }
 
@@ -328,7 +327,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            workers_idle_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 196288c237a3312ba0cd69ee16bf0366f6d97d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:50 +0000
Subject: [PATCH 05/11] fix: logger counts from zero, keeps its intervals per
 run and accounts for the runtime of every run

---
 include/thts_logger.h |  7 ++++---
 src/thts.cpp          |  9 +++------
 src/thts_logger.cpp   | 16 +++++++++++-----
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..c7f877d 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -53,9 +53,9 @@ namespace thts {
      *      entries: 
      *          A vector of LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
-     *          The amount of runtime logger from previous calls to ThtsPool run_trials
+     *          The amount of runtime already accounted for (previous calls to ThtsPool run_trials and completed trials)
      *      start_time: 
-     *          The time at the start of the last run_trials call in ThtsPool
+     *          The time from which runtime isn't accounted for in 'prior_runtime' yet
      *      trials_completed: 
      *          The number of trials completed (number of times 'trial_completed' called)
      *      trials_delta: 
@@ -147,7 +147,8 @@ namespace thts {
             virtual void log(std::shared_ptr<ThtsDNode> node);
 
             /**
-             * Call this when all trials have been run
+             * Call this when trials have been run, to add the runtime since 'start_time' to 'prior_runtime', and to 
+             * move 'start_time' to the current time
              */
             void update_prior_runtime();
 
diff --git a/src/thts.cpp b/src/thts.cpp
index f34c3b2..406c767 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -261,9 +261,8 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node. Calls 'update_prior_runtime' 
+    * after every trial, as any trial may turn out to be the last one of a 'run_trials' call (runs may time out).
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
@@ -276,9 +275,7 @@ namespace thts {
                 logger->log(root_node);
             }
 
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
+            logger->update_prior_runtime();
         }
     }
 
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..e58e046 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,12 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        start_time(chrono::system_clock::now()),
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
@@ -50,8 +54,8 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
+        last_log_num_trials = trials_completed;
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -65,7 +69,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
@@ -83,8 +87,10 @@ namespace thts {
     }
     
     void ThtsLogger::update_prior_runtime() {
-        chrono::duration<double> runtime = chrono::system_clock::now() - start_time;
+        chrono::time_point<chrono::system_clock> cur_time = chrono::system_clock::now();
+        chrono::duration<double> runtime = cur_time - start_time;
         prior_runtime += runtime;
+        start_time = cur_time;
     }
 
     void ThtsLogger::write_to_ostream(ostream& os) {
-- 
2.43.0


From 2a51ac0a41bbda0415b2d2a66dbb70143b483766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:08 +0000
Subject: [PATCH 06/11] fix: logger entries keep the fields of their own type

---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 10 +++++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c7f877d..60a89a1 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime already accounted for (previous calls to ThtsPool run_trials and completed trials)
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index e58e046..922df3f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -47,7 +47,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -81,7 +81,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -96,12 +96,12 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
+        LoggerEntry& first_entry = *entries[0];
         first_entry.write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From 0d6da66a6c000c7a2ef8e46036281d3636878e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:24 +0000
Subject: [PATCH 07/11] fix: pseudo q-value shift uses the mean of all log
 weights

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 3630412e59b269febc6ed28eb11bc013ed125696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:24 +0000
Subject: [PATCH 08/11] fix: no exploration mass (rather than NaN) without an
 exploration constant at an unvisited node

---
 src/algorithms/ments/ments_decision_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..441feaa 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,7 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 0a5c5a5696e4449d1945bde75d2aca642868521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:19 +0000
Subject: [PATCH 09/11] fix: leaf visits of DENTS nodes count as entropy
 backups

---
 include/algorithms/ments/dents/dents_decision_node.h | 8 ++++++++
 src/algorithms/ments/dents/dents_decision_node.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/algorithms/ments/dents/dents_decision_node.h b/include/algorithms/ments/dents/dents_decision_node.h
index 83aca30..c08d0bc 100644
--- a/include/algorithms/ments/dents/dents_decision_node.h
+++ b/include/algorithms/ments/dents/dents_decision_node.h
@@ -45,6 +45,14 @@ namespace thts {
                 std::shared_ptr<const DentsCNode> parent=nullptr); 
 
             virtual ~DentsDNode() = default;
+
+            /**
+             * Visit calls dbmentsdnode's and entdnode's visit functions
+             * 
+             * Args:
+             *      ctx: A context
+             */
+            virtual void visit(ThtsEnvContext& ctx);
             
             /**
              * Helper to get the temperature that should be used for computing the soft value to use in ments functions.
diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..3055da0 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -27,6 +27,14 @@ namespace thts {
         backup_ent<DentsCNode>(children, action_distr, is_opponent());
     }
 
+    /**
+     * Call both dbments and entropy visit functions
+     */
+    void DentsDNode::visit(ThtsEnvContext& ctx) {
+        DBMentsDNode::visit(ctx);
+        EntDNode::visit_ent(is_leaf());
+    }
+
     /**
      * Get decayed temp
      */
-- 
2.43.0


From d582653f64c727af3902bf0a098001ed1d628fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:04 +0000
Subject: [PATCH 10/11] fix: transposition table is guarded by one mutex and
 tolerates deleted nodes

---
 include/thts_manager.h   |  4 ++--
 src/thts_chance_node.cpp | 22 ++++++++++------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..acde594 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -169,8 +169,8 @@ namespace thts {
      *          unnecessary, as an chance nodes that are transpositions, will be children of decision nodes that are 
      *          transpositions.
      *      dmap_mutexes:
-     *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
-     *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *          A vector of mutexes to use for protection around the dmap. Any access to 'dmap' should be protected by 
+     *          'dmap_mutexes[0]'.
      */
     class ThtsManager : public RandManager {
         public:
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..3e1b33f 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -91,8 +91,10 @@ namespace thts {
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
      * the table, we make the child and insert it in children and the transposition table.
      * 
-     * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * The table doesn't own the nodes, so if the node in the table has been deleted since, then we replace it.
+     * 
+     * Additionally, we protect accessing 'dmap' with the mutex 'thts_manager->dmap_mutexes[0]', by locking it using a 
+     * lock_guard. (The same mutex is used for all ids, because inserting one id modifies the table for all others).
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -108,19 +110,15 @@ namespace thts {
         DNodeTable& dmap = thts_manager->dmap;
         DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);
 
-        int mutex_indx = 0;
-        if (thts_manager->dmap_mutexes.size() > 1) {
-            size_t tpl_hash = hash<DNodeIdTuple>()(dnode_id);
-            mutex_indx = tpl_hash % thts_manager->dmap_mutexes.size();
-        }
-
-        lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
+        lock_guard<mutex> lg(thts_manager->dmap_mutexes[0]);
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            shared_ptr<ThtsDNode> child_node = dmap[dnode_id].lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
-- 
2.43.0


From 82f287f1f382a386453d3fc62413cffe34427a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:42 +0000
Subject: [PATCH 11/11] fix: chance nodes lock shared decision nodes in a
 global order

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  5 +++++
 src/thts_chance_node.cpp                    | 19 ++++++++++++++++---
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..aaddaf7 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_all_nodes(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..e629da4 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_all_nodes(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..e4b8c0f 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -97,6 +97,11 @@ namespace thts {
              */
             std::mutex& get_lock();
 
+            /**
+             * Helper function to lock all nodes in a children map, in an order that is the same for all threads.
+             */
+            static void lock_all_nodes(const DNodeChildMap& nodes);
+
             /**
              * Helper function to lock all children nodes.
              */
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 3e1b33f..b25029b 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -7,6 +7,7 @@
 #include <cstddef>
 #include <functional>
 #include <mutex>
+#include <set>
 #include <tuple>
 #include <utility>
 
@@ -57,13 +58,25 @@ namespace thts {
         return node_lock; 
     }
 
+    /**
+     * Locks nodes in order of their addresses. With a transposition table nodes can be children of multiple chance 
+     * nodes, so all threads need to lock them in the same order.
+     */
+    void ThtsCNode::lock_all_nodes(const DNodeChildMap& nodes) {
+        set<ThtsDNode*> ordered_nodes;
+        for (auto obsv_node_pair : nodes) {
+            ordered_nodes.insert(obsv_node_pair.second.get());
+        }
+        for (ThtsDNode* node : ordered_nodes) {
+            node->lock();
+        }
+    }
+
     /**
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_all_nodes(children);
     }
 
     /**
-- 
2.43.0

