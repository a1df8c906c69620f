From 8099b9bdde4466f6d1bcf9bac8a26b85765dabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 01/76] fix: read ThreadPool::stopped_ only under the pool's
 mutex

The worker loop tested stopped_ without holding the mutex while Stop()
writes it, which is a data race.
---
 src/lib/thread-pool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..8a3b794 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -14,13 +14,15 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
 }
 
 void ThreadPool::Run() {
-    while(!stopped_) {
+    while(true) {
         Task* task = NULL;
         {
             boost::mutex::scoped_lock lock(mutex_);
             if(tasks_.empty() && !stopped_)
                 thread_needed_.wait(lock);
-            if(!stopped_ && !tasks_.empty()) {
+            if(stopped_)
+                break;
+            if(!tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
             }
-- 
2.43.0


From b290ee2eee79d87a3a294ad1edad81edc75464d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 02/76] fix: ThreadPool::Wait returns only when every submitted
 task has finished

Wait() tested the queue without the mutex, could miss the last notification
and block forever, and guessed with sleep(1) that running tasks were done.
---
 src/include/travatar/thread-pool.h |  1 +
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..18d380e 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -46,6 +46,7 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    int running_; // The number of tasks that are being executed
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index 8a3b794..23a1707 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        queue_limit_(queue_limit), running_(0) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -25,12 +25,15 @@ void ThreadPool::Run() {
             if(!tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                running_++;
             }
         }
         if(task) {
             task->Run();
             if(delete_tasks_)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            running_--;
         }
         thread_available_.notify_all();
     }
@@ -47,11 +50,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ > 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From e6ac3556910234a13f2c450195ccb9b8a1b3482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 03/76] fix: guard the binarizer's symbol cache with a mutex

The binarizer is shared by all decoding threads, but GetBarredSymbol()
looked up and inserted into its map without any synchronisation.
---
 src/include/travatar/binarizer.h | 2 ++
 src/lib/binarizer.cc             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..d3932bc 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,6 +3,7 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <string>
 
@@ -13,6 +14,7 @@ class Binarizer : public GraphTransformer {
 
 protected:
     std::map<int,int> barred_map_;
+    mutable boost::mutex barred_mutex_;
 
 public:
 
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..c9bf68d 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,6 +25,8 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
+    // A single binarizer is shared by all decoding threads
+    boost::mutex::scoped_lock lock(barred_mutex_);
     map<int,int>::const_iterator it = barred_map_.find(sym);
     if(it != barred_map_.end()) return it->second;
     WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-- 
2.43.0


From 75edb2cd8acbb432075094c8ff073bbeec6e2ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 04/76] fix: HyperPath::GetTreeStr reads past the end of paths
 with one edge

The tree was always started from the second edge, which is the root rule
only if exactly one language model has added an edge above it.
---
 src/lib/hyper-graph.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..d2cba66 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -399,12 +399,16 @@ void HyperPath::Print(std::ostream & out) const {
 
 
 std::string HyperPath::GetTreeStr() const{
-    if ((int)edges_.size() < 1) return "";
+    // The edges that language model states add at the root have no source side
+    int first = 0;
+    while(first < (int)edges_.size() && edges_[first]->GetSrcStr().empty())
+        first++;
+    if(first == (int)edges_.size()) return "";
 
-    string tree = edges_[1]->GetSrcStr();
+    string tree = edges_[first]->GetSrcStr();
     boost::regex e ("\\bx[0-9]:(.*?) ");
     boost::smatch m;
-    for(int i = 2; i < (int)edges_.size(); i++){
+    for(int i = first+1; i < (int)edges_.size(); i++){
        string nextTree = edges_[i]->GetSrcStr() + " ";
        if(boost::regex_search(tree, m, e) == true){
            tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
-- 
2.43.0


From 55a6fc48b9b32d0277e0042de942186339319b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 05/76] fix: guard the BLEU statistics cache with a mutex

---
 src/include/travatar/eval-measure-bleu.h | 5 ++++-
 src/lib/eval-measure-bleu.cc             | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..709e95d 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -13,6 +13,7 @@
 
 #include <travatar/eval-measure.h>
 #include <travatar/real.h>
+#include <boost/thread/mutex.hpp>
 #include <boost/shared_ptr.hpp>
 #include <map>
 #include <vector>
@@ -104,7 +105,7 @@ public:
     NgramStats * ExtractNgrams(const Sentence & sentence) const;
 
     // Clear the ngram cache
-    virtual void ClearCache() { cache_.clear(); }
+    virtual void ClearCache() { boost::mutex::scoped_lock lock(cache_mutex_); cache_.clear(); }
 
     int GetNgramOrder() const { return ngram_order_; }
     void SetNgramOrder(int ngram_order) { ngram_order_ = ngram_order; }
@@ -118,6 +119,8 @@ protected:
     Real smooth_val_;
     // A cache to hold the stats
     StatsCache cache_;
+    // Measures are shared by the threads of the tuner
+    boost::mutex cache_mutex_;
     // The scope
     BleuScope scope_;
     // The weight of precision in F-measure, from one to zero (default 1)
diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..750f80e 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -27,6 +27,7 @@ EvalMeasureBleu::NgramStats * EvalMeasureBleu::ExtractNgrams(const Sentence & se
 
 boost::shared_ptr<EvalMeasureBleu::NgramStats> EvalMeasureBleu::GetCachedStats(const Sentence & sent, int cache_id) {
     if(cache_id == INT_MAX) return boost::shared_ptr<NgramStats>(ExtractNgrams(sent));
+    boost::mutex::scoped_lock lock(cache_mutex_);
     StatsCache::const_iterator it = cache_.find(cache_id);
     if(it == cache_.end()) {
         boost::shared_ptr<NgramStats> new_stats(ExtractNgrams(sent));
-- 
2.43.0


From 1c3189077de14e9f7c96847c54bfd80aa09b6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 06/76] fix: lock a tuning forest while it is rescored

---
 src/include/travatar/tuning-example-forest.h |  3 +++
 src/lib/tuning-example-forest.cc             | 12 ++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..ad8f02e 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -75,6 +76,8 @@ protected:
 
     EvalMeasure * measure_;
     boost::shared_ptr<HyperGraph> forest_;
+    // Scoring changes the forest, and one forest is shared by all tuning threads
+    mutable boost::mutex forest_mutex_;
     std::vector<Sentence> refs_;
     // The score that the best hypothesis in the forest achieves
     Real oracle_score_;
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..5bff929 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -133,10 +133,14 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
         }
     }
     // Calculate the score of the current best hypothesis
-    forest_->ResetViterbiScores();
-    Weights wval(weights);
-    forest_->ScoreEdges(wval);
-    NbestList nbest_list = forest_->GetNbest(1);
+    NbestList nbest_list;
+    {
+        boost::mutex::scoped_lock lock(forest_mutex_);
+        forest_->ResetViterbiScores();
+        Weights wval(weights);
+        forest_->ScoreEdges(wval);
+        nbest_list = forest_->GetNbest(1);
+    }
     EvalStatsPtr curr_stats = measure_->CalculateCachedStats(refs_, nbest_list[0]->GetTrgData(), id_);
     curr_stats->TimesEquals(mult_);
     // If we are not active, return the simple convex hull
-- 
2.43.0


From d9d1309c481345f15d41346d80548f49463cedb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 07/76] fix: set the sign of the L-BFGS gradient before the
 tuning threads start

---
 src/lib/tune-lbfgs.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/tune-lbfgs.cc b/src/lib/tune-lbfgs.cc
index c3df3fa..075726c 100644
--- a/src/lib/tune-lbfgs.cc
+++ b/src/lib/tune-lbfgs.cc
@@ -24,6 +24,8 @@ TuneLbfgs::~TuneLbfgs() {
 
 void TuneLbfgs::Init(const SparseMap & init_weights) {
     gradient_->Init(init_weights, examps_);
+    // L-BFGS minimizes
+    gradient_->SetMult(-1);
 }
 
 Real TuneLbfgs::operator()(size_t n, const Real * x, Real * g) const {
@@ -45,9 +47,6 @@ Real TuneLbfgs::RunTuning(SparseMap & kv) {
     // The final score
     Real last_score = 0.0;
 
-    // Initialize the gradient
-    gradient_->SetMult(-1);
-
     // Initialize the weights appropriately
     vector<Real> weights;
     if(!use_init_)
-- 
2.43.0


From 9dccb14f4b6b239fe458a74129961e5eab346112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 08/76] fix: greedy MERT crashes when its last iteration finds
 no improvement

---
 src/lib/tune-greedy-mert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..20e2154 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -115,7 +115,8 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     do {
         result = TuneOnce(weights);
     } while(result.gain > gain_threshold_);
-    return result.after->ConvertToScore();
+    // The last iteration may have found no result at all, so score the final weights
+    return TuneMert::LineSearch(weights, SparseMap(), examps_).after->ConvertToScore();
 }
 
 Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From 6ab25e496d91e9b5384dc87c83f867101a40ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 09/76] fix: make the result of multi-threaded greedy MERT
 independent of thread timing

---
 src/include/travatar/tune-greedy-mert.h | 14 ++++---
 src/lib/tune-greedy-mert.cc             | 56 +++++++++++++++++--------
 2 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/src/include/travatar/tune-greedy-mert.h b/src/include/travatar/tune-greedy-mert.h
index 20ff1ec..2f4fd66 100644
--- a/src/include/travatar/tune-greedy-mert.h
+++ b/src/include/travatar/tune-greedy-mert.h
@@ -6,7 +6,9 @@
 #include <travatar/sentence.h>
 #include <travatar/task.h>
 #include <travatar/tune.h>
+#include <travatar/tune-mert.h>
 #include <boost/thread.hpp>
+#include <map>
 #include <vector>
 #include <cfloat>
 
@@ -53,19 +55,21 @@ public:
     // Return the improvement in score
     LineSearchResult TuneOnce(SparseMap & weights);
 
-    void UpdateBest(const SparseMap &gradient, const LineSearchResult &result);
+    // Add the result for the id-th feature
+    void AddResult(int id, const SparseMap &gradient, const LineSearchResult &result);
 
     const SparseMap & GetCurrentWeights() { return curr_weights_; }
-    Real GetBestGain(); // { return best_result_.gain; }
+    // The best gain found by the features before the id-th
+    Real GetBestGain(int id);
     bool GetEarlyTerminate() { return early_terminate_; }
     int GetThreads() const { return threads_; }
     void SetThreads(int threads) { threads_ = threads; }
 
 protected:
 
-    // The best line search result we've found so far and its gradient
-    LineSearchResult best_result_;
-    SparseMap best_gradient_;
+    // The gradients and line search results of the features tried so far
+    typedef std::map<int, std::pair<SparseMap, LineSearchResult> > ResultMap;
+    ResultMap results_;
 
     // Create weights
     SparseMap curr_weights_;
diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 20e2154..ad4fbac 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -20,7 +20,7 @@ using namespace travatar;
 
 void GreedyMertTask::Run() {
     // Check to make sure that our potential is still higher than the current best
-    Real best = tgm_->GetBestGain();
+    Real best = tgm_->GetBestGain(id_);
     if((potential_ <= best) ||
        (tgm_->GetEarlyTerminate() && best >= tgm_->GetGainThreshold()))
         return;
@@ -30,7 +30,7 @@ void GreedyMertTask::Run() {
     pair<Real,Real> gradient_range = tgm_->FindGradientRange(tgm_->GetCurrentWeights(), feature_);
     LineSearchResult result = TuneMert::LineSearch(tgm_->GetCurrentWeights(), gradient, tgm_->GetExamples(), gradient_range);
     if(result.gain > best) {
-        tgm_->UpdateBest(gradient, result);
+        tgm_->AddResult(id_, gradient, result);
         best = result.gain;
     }
     ostringstream oss;
@@ -45,13 +45,21 @@ void GreedyMertTask::Run() {
 TuneGreedyMert::TuneGreedyMert() : Tune(),
                        early_terminate_(false) { }
 
-void TuneGreedyMert::UpdateBest(const SparseMap &gradient, const LineSearchResult &result) {
+void TuneGreedyMert::AddResult(int id, const SparseMap &gradient, const LineSearchResult &result) {
     boost::mutex::scoped_lock lock(result_mutex_);
-    if(best_result_.gain < result.gain) {
-        best_gradient_ = gradient;
-        best_result_ = result;
-        cerr << "NEW MAX: " << Dict::WSym(gradient.begin()->first) << "=" << result.gain << endl;
+    results_[id] = make_pair(gradient, result);
+}
+
+// Only results of tasks that come earlier in the order of the potential count, so
+// that which features are skipped does not depend on the timing of the threads
+Real TuneGreedyMert::GetBestGain(int id) {
+    boost::mutex::scoped_lock lock(result_mutex_);
+    Real best = LineSearchResult().gain;
+    BOOST_FOREACH(const ResultMap::value_type & val, results_) {
+        if(val.first >= id) break;
+        best = max(best, val.second.second.gain);
     }
+    return best;
 }
 
 // Find the best value to tune and tune it
@@ -60,8 +68,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
     curr_weights_ = weights;
 
     // Initialize
-    best_result_ = LineSearchResult();
-    best_gradient_ = SparseMap();
+    LineSearchResult best_result;
+    SparseMap best_gradient;
+    results_.clear();
     PRINT_DEBUG("Calculating potential gains..." << endl, 2);
     SparseMap potential;
     BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_) {
@@ -86,8 +95,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
     // Dispatch jobs until the best value exceeds the expected value
     BOOST_REVERSE_FOREACH(const DIPair & val, vals) {
-        if((val.first < best_result_.gain) || 
-           (early_terminate_ && best_result_.gain >= gain_threshold_))
+        Real best_gain = GetBestGain(task_id);
+        if((val.first < best_gain) || 
+           (early_terminate_ && best_gain >= gain_threshold_))
             break;
         GreedyMertTask* task = new GreedyMertTask(task_id++, *this, val.second, val.first, out_collect.get());
         // If the threads are not correct
@@ -99,14 +109,28 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
     if(thread_pool)
         thread_pool->Stop(true);
 
+    // Find the best of the results, ignoring those of features that would have
+    // been skipped if the features had been tried one by one
+    for(int i = 0; i < task_id; i++) {
+        if((vals[vals.size()-1-i].first <= best_result.gain) ||
+           (early_terminate_ && best_result.gain >= gain_threshold_))
+            break;
+        ResultMap::const_iterator it = results_.find(i);
+        if(it != results_.end() && it->second.second.gain > best_result.gain) {
+            best_gradient = it->second.first;
+            best_result = it->second.second;
+            cerr << "NEW MAX: " << Dict::WSym(best_gradient.begin()->first) << "=" << best_result.gain << endl;
+        }
+    }
+
     // Update with the best value
-    if(best_result_.gain > gain_threshold_) {
-        PRINT_DEBUG("Updating: " << Dict::PrintSparseMap(best_gradient_) << " * " << best_result_.pos << endl, 2);
-        weights += best_gradient_ * best_result_.pos;
+    if(best_result.gain > gain_threshold_) {
+        PRINT_DEBUG("Updating: " << Dict::PrintSparseMap(best_gradient) << " * " << best_result.pos << endl, 2);
+        weights += best_gradient * best_result.pos;
     }
 
     PRINT_DEBUG("Features: " << Dict::PrintSparseMap(weights) << endl, 2);
-    return best_result_;
+    return best_result;
 }
 
 // Tune new weights using greedy mert until the threshold is exceeded
@@ -118,5 +142,3 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     // The last iteration may have found no result at all, so score the final weights
     return TuneMert::LineSearch(weights, SparseMap(), examps_).after->ConvertToScore();
 }
-
-Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
-- 
2.43.0


From b5a81c059059c590d1a1d3179a3e6c5b2126a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 10/76] fix: -rand_seed determines the result of batch tuning
 with several threads

---
 src/include/travatar/batch-tune-runner.h  |  3 ++-
 src/include/travatar/tune-greedy-mert.h   |  2 +-
 src/include/travatar/tune-lbfgs.h         |  2 +-
 src/include/travatar/tune-mert.h          |  2 +-
 src/include/travatar/tune-online.h        |  2 +-
 src/include/travatar/tune.h               |  5 +++--
 src/include/travatar/weights-online-pro.h |  4 ++++
 src/lib/batch-tune-runner.cc              | 23 ++++++++++++-----------
 src/lib/tune-greedy-mert.cc               |  2 +-
 src/lib/tune-lbfgs.cc                     |  2 +-
 src/lib/tune-mert.cc                      |  6 ++++--
 src/lib/tune-online.cc                    |  9 +++++++--
 src/lib/weights-online-pro.cc             |  8 +++-----
 13 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/include/travatar/batch-tune-runner.h b/src/include/travatar/batch-tune-runner.h
index c3146a2..c651e7b 100644
--- a/src/include/travatar/batch-tune-runner.h
+++ b/src/include/travatar/batch-tune-runner.h
@@ -21,7 +21,7 @@ class BatchTuneRunnerTask : public Task {
 public:
     BatchTuneRunnerTask(
         int task_id, const std::string & task_name,
-        Tune & tune, const SparseMap & weights);
+        Tune & tune, const SparseMap & weights, unsigned seed);
 
     const SparseMap & GetWeights() { return weights_; }
     Real GetScore() { return score_; }
@@ -33,6 +33,7 @@ private:
     std::string task_name_;
     Tune * tune_;
     SparseMap weights_;
+    unsigned seed_;
     Real score_;
 
 };
diff --git a/src/include/travatar/tune-greedy-mert.h b/src/include/travatar/tune-greedy-mert.h
index 2f4fd66..01e1b9a 100644
--- a/src/include/travatar/tune-greedy-mert.h
+++ b/src/include/travatar/tune-greedy-mert.h
@@ -49,7 +49,7 @@ public:
     TuneGreedyMert();
 
     // Tune new weights using greedy mert
-    virtual Real RunTuning(SparseMap & weights);
+    virtual Real RunTuning(SparseMap & weights, unsigned seed = 1);
 
     // Tune pick a single weight to tune and tune it
     // Return the improvement in score
diff --git a/src/include/travatar/tune-lbfgs.h b/src/include/travatar/tune-lbfgs.h
index 8181458..f2af33e 100644
--- a/src/include/travatar/tune-lbfgs.h
+++ b/src/include/travatar/tune-lbfgs.h
@@ -28,7 +28,7 @@ public:
     virtual void Init(const SparseMap & init_weights);
 
     // Tune new weights to maximize the expectation of the evaluation measure
-    virtual Real RunTuning(SparseMap & weights);
+    virtual Real RunTuning(SparseMap & weights, unsigned seed = 1);
 
     // For tuning with LBFGS
     Real operator()(size_t n, const Real * x, Real * g) const;
diff --git a/src/include/travatar/tune-mert.h b/src/include/travatar/tune-mert.h
index d8c0a22..fe894c8 100644
--- a/src/include/travatar/tune-mert.h
+++ b/src/include/travatar/tune-mert.h
@@ -59,7 +59,7 @@ public:
     TuneMert();
 
     // Tune new weights using MERT
-    virtual Real RunTuning(SparseMap & weights);
+    virtual Real RunTuning(SparseMap & weights, unsigned seed = 1);
 
     // Initialize
     virtual void Init(const SparseMap & init_weights);
diff --git a/src/include/travatar/tune-online.h b/src/include/travatar/tune-online.h
index 689448d..cd1af58 100644
--- a/src/include/travatar/tune-online.h
+++ b/src/include/travatar/tune-online.h
@@ -25,7 +25,7 @@ public:
                    algorithm_("pairwise"), rate_(1), margin_scale_(0) { }
 
     // Tune new weights using an online learning algorithm
-    virtual Real RunTuning(SparseMap & weights);
+    virtual Real RunTuning(SparseMap & weights, unsigned seed = 1);
 
     void SetUpdate(const std::string & update) { update_ = update; }
     void SetAlgorithm(const std::string & algorithm) { algorithm_ = algorithm; }
diff --git a/src/include/travatar/tune.h b/src/include/travatar/tune.h
index 990441a..243439e 100644
--- a/src/include/travatar/tune.h
+++ b/src/include/travatar/tune.h
@@ -20,8 +20,9 @@ public:
     // **** Non-static Members ****
     Tune();
 
-    // Tune weights
-    virtual Real RunTuning(SparseMap & weights) = 0;
+    // Tune weights, drawing any random numbers from a generator with this seed
+    // (runs can be concurrent, so they cannot share the state of rand())
+    virtual Real RunTuning(SparseMap & weights, unsigned seed = 1) = 0;
 
     // Initialize any parameters
     virtual void Init(const SparseMap & init_weights) { }
diff --git a/src/include/travatar/weights-online-pro.h b/src/include/travatar/weights-online-pro.h
index aaaea13..57d74e1 100644
--- a/src/include/travatar/weights-online-pro.h
+++ b/src/include/travatar/weights-online-pro.h
@@ -4,6 +4,7 @@
 #include <travatar/real.h>
 #include <travatar/weights.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/random/mersenne_twister.hpp>
 
 namespace travatar {
 
@@ -17,6 +18,8 @@ public:
 
     // Adjust the weights according to the n-best list
     void SetAlphaScale(Real alpha_scale) { alpha_scale_ = alpha_scale; }
+    // Set the seed of the sampler
+    void SetSeed(unsigned seed) { gen_.seed(seed); }
 
     // Adjust the weights according to the n-best list
     // Scores are current model scores and evaluation scores
@@ -34,6 +37,7 @@ protected:
     int num_updates_;
     Real diff_threshold_;
     Real alpha_scale_;
+    boost::mt19937 gen_;
 
 };
 
diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..53641ff 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -31,12 +31,12 @@ using namespace boost;
 
 BatchTuneRunnerTask::BatchTuneRunnerTask(
         int task_id, const std::string & task_name,
-        Tune & tune, const SparseMap & weights) :
+        Tune & tune, const SparseMap & weights, unsigned seed) :
     task_id_(task_id), task_name_(task_name), tune_(&tune),
-    weights_(weights), score_(-REAL_MAX) { }
+    weights_(weights), seed_(seed), score_(-REAL_MAX) { }
 
 void BatchTuneRunnerTask::Run() {
-    score_ = tune_->RunTuning(weights_);
+    score_ = tune_->RunTuning(weights_, seed_);
     PRINT_DEBUG(task_name_<<": " << Dict::PrintSparseMap(weights_) << " => " << score_ << endl, 1);
 }
 
@@ -211,20 +211,21 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     ThreadPool pool(threads, threads*5);
     pool.SetDeleteTasks(false);
     
+    // Randomize if necessary
+    if(config.GetInt("rand_seed") == 0)
+        srand(time(NULL));
+    else
+        srand(config.GetInt("rand_seed"));
+
     // Set up tasks for each amount of weights
     vector<boost::shared_ptr<BatchTuneRunnerTask> > tasks(runs);
-    tasks[0] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(0, "Init", *tune, weights));
+    tasks[0] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(0, "Init", *tune, weights, rand()));
     pool.Submit(tasks[0].get());
 
     // Set up zeroed weights
-    tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, SparseMap()));
+    tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, SparseMap(), rand()));
     pool.Submit(tasks[1].get());
     
-    // Randomize if necessary
-    if(config.GetInt("rand_seed") == 0)
-        srand(time(NULL));
-    else
-        srand(config.GetInt("rand_seed"));
     for(int i = 2; i < runs; i++) {
         // Randomize the weights
         SparseMap rand_weights = weights;
@@ -232,7 +233,7 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(rw.first != tune->GetScaleId())
                 rw.second *= rand()/(Real)RAND_MAX;
         ostringstream oss; oss << "Rand " << i;
-        tasks[i] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(i, oss.str(), *tune, rand_weights));
+        tasks[i] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(i, oss.str(), *tune, rand_weights, rand()));
         pool.Submit(tasks[i].get());
     }
     pool.Stop(true);
diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index ad4fbac..ab35505 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -134,7 +134,7 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 }
 
 // Tune new weights using greedy mert until the threshold is exceeded
-Real TuneGreedyMert::RunTuning(SparseMap & weights) {
+Real TuneGreedyMert::RunTuning(SparseMap & weights, unsigned) {
     LineSearchResult result;
     do {
         result = TuneOnce(weights);
diff --git a/src/lib/tune-lbfgs.cc b/src/lib/tune-lbfgs.cc
index 075726c..7f30b8c 100644
--- a/src/lib/tune-lbfgs.cc
+++ b/src/lib/tune-lbfgs.cc
@@ -33,7 +33,7 @@ Real TuneLbfgs::operator()(size_t n, const Real * x, Real * g) const {
 }
 
 // Tune new weights using the expected BLEU algorithm
-Real TuneLbfgs::RunTuning(SparseMap & kv) {
+Real TuneLbfgs::RunTuning(SparseMap & kv, unsigned) {
 
     // Sanity checks
     if(examps_.size() < 1)
diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index f8efe2d..9d589e5 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -3,6 +3,7 @@
 #include <boost/foreach.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/lexical_cast.hpp>
+#include <boost/random/mersenne_twister.hpp>
 #include <travatar/tuning-example.h>
 #include <travatar/tune-mert.h>
 #include <travatar/global-debug.h>
@@ -101,7 +102,8 @@ void TuneMert::Init(const SparseMap & init_weights) {
 }
 
 // Tune new weights using greedy mert until the threshold is exceeded
-Real TuneMert::RunTuning(SparseMap & weights) {
+Real TuneMert::RunTuning(SparseMap & weights, unsigned seed) {
+    boost::mt19937 gen(seed);
     // Continue
     Real best_score = 0;
     PRINT_DEBUG("Starting MERT Run: " << Dict::PrintSparseMap(weights) << endl, 2);
@@ -125,7 +127,7 @@ Real TuneMert::RunTuning(SparseMap & weights) {
         //  ** Random
         for(int i = 0; i < num_random_; i++) {
             BOOST_FOREACH(WordId val, potentials_)
-                gradients[curr_grad][val] = (rand()/(Real)RAND_MAX*2 - 1);
+                gradients[curr_grad][val] = (gen()/(Real)(gen.max)()*2 - 1);
             curr_grad++;
         }
         //  ** Xeval
diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 05b69ed..b4cc385 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -2,6 +2,7 @@
 #include <map>
 #include <boost/foreach.hpp>
 #include <boost/shared_ptr.hpp>
+#include <boost/random/mersenne_twister.hpp>
 #include <travatar/tuning-example.h>
 #include <travatar/tune-online.h>
 #include <travatar/global-debug.h>
@@ -22,7 +23,8 @@ using namespace boost;
 using namespace travatar;
 
 // Tune new weights using online learning
-Real TuneOnline::RunTuning(SparseMap & kv) {
+Real TuneOnline::RunTuning(SparseMap & kv, unsigned seed) {
+    boost::mt19937 gen(seed);
     PRINT_DEBUG("Starting Online Learning Run: " << Dict::PrintSparseMap(kv) << endl, 2);
 
     // Create a weight adjuster
@@ -50,6 +52,7 @@ Real TuneOnline::RunTuning(SparseMap & kv) {
         boost::shared_ptr<Weights> old_weights = weights;
         WeightsOnlinePro * wop = new WeightsOnlinePro(weights);
         wop->SetAlphaScale(examps_.size());
+        wop->SetSeed(gen());
         weights.reset(wop);
     } else if(algorithm_ != "pairwise") {
         THROW_ERROR("Unknown update algorithm for online learning");
@@ -74,7 +77,9 @@ Real TuneOnline::RunTuning(SparseMap & kv) {
     for(int iter = 0; iter < iters_; iter++) {
 
         // Shuffle the indexes
-        if(shuffle_) random_shuffle(order.begin(), order.end());
+        if(shuffle_)
+            for(int i = (int)order.size()-1; i > 0; i--)
+                swap(order[i], order[gen() % (i+1)]);
 
         // Perform learning
         BOOST_FOREACH(int idx, order) {
diff --git a/src/lib/weights-online-pro.cc b/src/lib/weights-online-pro.cc
index 0a21c3b..07b4404 100644
--- a/src/lib/weights-online-pro.cc
+++ b/src/lib/weights-online-pro.cc
@@ -7,7 +7,6 @@
 #include <boost/random/mersenne_twister.hpp>
 #include <cstdlib>
 #include <algorithm>
-#include <ctime>
 
 using namespace std;
 using namespace boost;
@@ -21,18 +20,17 @@ using namespace travatar;
 void WeightsOnlinePro::AdjustNbest(
         const std::vector<std::pair<Real,Real> > & scores,
         const std::vector<SparseVector*> & features) {
-    boost::mt19937 gen(time(0));
     // Sampling algorithm 1
     vector<pair<Real,pair<int,int> > > samples;
     for(int i = 0; i < num_samples_; i++) {
-        int id1 = gen() % scores.size(),
-            id2 = gen() % scores.size();
+        int id1 = gen_() % scores.size(),
+            id2 = gen_() % scores.size();
         // Make sure id1 is the oracle
         if(scores[id2].second > scores[id1].second)
             swap(id1, id2);
         // If the difference is big enough, and probability
         Real diff = (scores[id1].second-scores[id2].second) * alpha_scale_;
-        if( diff > diff_threshold_ && ((Real)gen())/RAND_MAX < diff )
+        if( diff > diff_threshold_ && ((Real)gen_())/RAND_MAX < diff )
             samples.push_back(
                 make_pair(scores[id2].second - scores[id1].second,
                     make_pair(id1,id2)));
-- 
2.43.0


From 6ad7d4216ef4dd3dcd8aa2e1e7d4ea08274013e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/76] fix: tuning on forests crashes when the decoder failed
 on a sentence

---
 src/lib/tuning-example-forest.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 5bff929..7219750 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -40,12 +40,19 @@ void TuningExampleForest::AddHypothesis(const boost::shared_ptr<HyperGraph> & hg
         forest_->AddNode(new HyperNode);
         forest_->SetWords(hg->GetWords());
     }
-    // Append the forest, and add an edge connecting to the root node
-    int id = forest_->Append(*hg);
-    HyperNode *root = forest_->GetNode(0), *child = forest_->GetNode(id);
-    HyperEdge *edge = new HyperEdge(root);
-    edge->AddTail(child); 
-    edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors, CfgData(Sentence(1,-1))));
+    HyperEdge *edge;
+    if(hg->NumNodes() == 0) {
+        // The decoder failed on this sentence, so its translation is empty
+        edge = new HyperEdge(forest_->GetNode(0));
+        edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors));
+    } else {
+        // Append the forest, and add an edge connecting to the root node
+        int id = forest_->Append(*hg);
+        edge = new HyperEdge(forest_->GetNode(0));
+        edge->AddTail(forest_->GetNode(id));
+        edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors, CfgData(Sentence(1,-1))));
+    }
+    HyperNode *root = forest_->GetNode(0);
     root->AddEdge(edge); forest_->AddEdge(edge);
 }
 
-- 
2.43.0


From 325cba2d7354eefdccb04da5c8f36c0c21a0affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 12/76] fix: the convex hull of an n-best list depends on
 memory addresses

---
 src/lib/tuning-example-nbest.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 44b53ea..d6f3325 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -48,6 +48,9 @@ inline Real FindIntersection(Real s1, Real v1, Real s2, Real v2) {
     return (s1==s2 ? REAL_MAX : (v1-v2)/(s2-s1));
 }
 
+// Order lines by slope and value only, never by the addresses of their statistics
+inline bool LineLess(const ScoredSpan & a, const ScoredSpan & b) { return a.first < b.first; }
+
 // Get the convex hull, which consists of scored spans in order of the span location
 ConvexHull TuningExampleNbest::CalculateConvexHull(
                         const SparseMap & weights,
@@ -62,7 +65,7 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
         lines.push_back(make_pair(make_pair(slope, val), examp.second));
     }
     // Sort in order of ascending slope
-    sort(lines.begin(), lines.end());
+    stable_sort(lines.begin(), lines.end(), LineLess);
     // Start at position zero
     // While we are not finished
     ConvexHull hull;
-- 
2.43.0


From 2cd985a0e5c23a69fe4ade8563930c67e783e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 13/76] fix: rule composer orders equally sized edges
 independently of their addresses

---
 src/lib/rule-composer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/rule-composer.cc b/src/lib/rule-composer.cc
index 28f8350..461527b 100644
--- a/src/lib/rule-composer.cc
+++ b/src/lib/rule-composer.cc
@@ -7,6 +7,11 @@ using namespace std;
 using namespace boost;
 using namespace travatar;
 
+// Compare by size only, as the order of the addresses differs from run to run
+static bool SizedEdgeLess(const pair<int,RuleEdge*> & l, const pair<int,RuleEdge*> & r) {
+    return l.first < r.first;
+}
+
 // Build composed edges
 void RuleComposer::BuildComposedEdges(int id,
                         const vector<vector<RuleEdge*> > & min_edges,
@@ -48,8 +53,8 @@ void RuleComposer::BuildComposedEdges(int id,
         }
         
     }
-    // Finally, sort the edges by size
-    sort(composed_edges[id].begin(), composed_edges[id].end());
+    // Finally, sort the edges by size, keeping edges of the same size in the order they were made
+    stable_sort(composed_edges[id].begin(), composed_edges[id].end(), SizedEdgeLess);
 }
 
 // Binarize the graph to the right
-- 
2.43.0


From 57ba1e9dba34c6315675333ac239aa1998f7284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 14/76] fix: lm filter does not mistake a line of the next
 batch for the last line of this one

---
 src/kenlm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kenlm/lm/filter/format.hh b/src/kenlm/lm/filter/format.hh
index 5a2e2db..bb3486f 100644
--- a/src/kenlm/lm/filter/format.hh
+++ b/src/kenlm/lm/filter/format.hh
@@ -230,6 +230,8 @@ class MultipleOutputBuffer {
         }
       }
       annotated_.clear();
+      // The lines of the next batch may be at the same addresses.
+      last_ = StringPiece();
     }
 
   private:
-- 
2.43.0


From 9801ccadd287bc5d55a3071d07be2aed4c4c59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 15/76] fix: lm filter gives back the sequence number of an
 unused batch

---
 src/kenlm/lm/filter/thread.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/lm/filter/thread.hh b/src/kenlm/lm/filter/thread.hh
index 6a6523f..8519822 100644
--- a/src/kenlm/lm/filter/thread.hh
+++ b/src/kenlm/lm/filter/thread.hh
@@ -125,7 +125,12 @@ template <class Filter, class OutputBuffer, class RealOutput> class Controller :
     }
 
     void Flush() {
-      FlushInput();
+      if (input_->Empty()) {
+        // The output worker waits for every sequence number, so give back this unused one.
+        --sequence_;
+      } else {
+        FlushInput();
+      }
       while (local_read_.size() < queue_size_) {
         MoveRead();
       }
-- 
2.43.0


From f6e5bb1212bfbb592a8a3b12667479e709d920c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 16/76] fix: do not normalize the probabilities of an empty
 graph

---
 src/lib/hyper-graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index d2cba66..073d395 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -513,6 +513,7 @@ vector< vector<HyperEdge*> > HyperGraph::GetReversedEdges() {
 
 // Perform the inside-outside algorithm, where each edge score is a log probability
 void HyperGraph::InsideOutsideNormalize() {
+    if(nodes_.size() == 0) return;
     // Calculate the inside and outside probabilities
     vector<Real> inside(nodes_.size(), -REAL_MAX), outside(nodes_.size(), -REAL_MAX);
     vector<vector<HyperEdge*> > rev_edges = GetReversedEdges();
-- 
2.43.0


From 245376d640d539f40fb22c5c3b0225dda8d94a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 17/76] fix: decoder does not delete cout or cerr after writing
 n-best lists or traces to them

---
 src/lib/travatar-runner.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..2213556 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -333,19 +333,21 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Open the n-best output stream if it exists
-    scoped_ptr<ostream> nbest_out;
+    scoped_ptr<ostream> nbest_file;
+    ostream * nbest_out = NULL;
     scoped_ptr<OutputCollector> nbest_collector;
     if(config.GetString("nbest_out") != "") {
         if (config.GetString("nbest_out") == "STDOUT") {
-            nbest_out.reset(&cout);
+            nbest_out = &cout;
         } else if (config.GetString("nbest_out") == "STDERR") {
-            nbest_out.reset(&cerr);
+            nbest_out = &cerr;
         } else {
-            nbest_out.reset(new ofstream(config.GetString("nbest_out").c_str()));
+            nbest_file.reset(new ofstream(config.GetString("nbest_out").c_str()));
+            nbest_out = nbest_file.get();
         }
         if(!*nbest_out)
             THROW_ERROR("Could not open nbest output file: " << config.GetString("nbest_out"));
-        nbest_collector.reset(new OutputCollector(nbest_out.get(), &cerr, config.GetBool("buffer")));
+        nbest_collector.reset(new OutputCollector(nbest_out, &cerr, config.GetBool("buffer")));
     } else if (!do_tuning_) {
         nbest_count_ = 1;
     }
@@ -366,19 +368,21 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
     // Open the trace output stream if it exists
-    scoped_ptr<ostream> trace_out;
+    scoped_ptr<ostream> trace_file;
+    ostream * trace_out = NULL;
     scoped_ptr<OutputCollector> trace_collector;
     if(config.GetString("trace_out") != "") {
         if (config.GetString("trace_out") == "STDOUT") {
-            trace_out.reset(&cout);
+            trace_out = &cout;
         } else if (config.GetString("trace_out") == "STDERR") {
-            trace_out.reset(&cerr);
+            trace_out = &cerr;
         } else {
-            trace_out.reset(new ofstream(config.GetString("trace_out").c_str()));
+            trace_file.reset(new ofstream(config.GetString("trace_out").c_str()));
+            trace_out = trace_file.get();
         }
         if(!*trace_out)
             THROW_ERROR("Could not open trace output file: " << config.GetString("trace_out"));
-        trace_collector.reset(new OutputCollector(trace_out.get(), &cerr, config.GetBool("buffer")));
+        trace_collector.reset(new OutputCollector(trace_out, &cerr, config.GetBool("buffer")));
     }
 
     // Create the thread pool
-- 
2.43.0


From 9e0ab798d647f8e40371c6bcc549d19426fd66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:02 +0000
Subject: [PATCH 18/76] fix: lm filter notices failures to read the vocabulary
 from standard input

---
 src/kenlm/lm/filter/filter_main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kenlm/lm/filter/filter_main.cc b/src/kenlm/lm/filter/filter_main.cc
index 82fdc1e..108b9fe 100644
--- a/src/kenlm/lm/filter/filter_main.cc
+++ b/src/kenlm/lm/filter/filter_main.cc
@@ -231,6 +231,8 @@ int main(int argc, char *argv[]) {
     std::ifstream cmd_file;
     std::istream *vocab;
     if (cmd_is_model) {
+      // With stdio in between, a failure to read looks like the end of the input.
+      std::ios_base::sync_with_stdio(false);
       vocab = &std::cin;
     } else {
       cmd_file.open(cmd_input, std::ios::in);
-- 
2.43.0


From 3a1306014bc6fd270222c3e64851ce23b009b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 19/76] fix: programs stop with an error when reading an input
 fails

---
 src/include/travatar/io-util.h     |  5 +++++
 src/lib/batch-tune-runner.cc       |  5 +++++
 src/lib/caser.cc                   |  2 ++
 src/lib/config-base.cc             |  2 ++
 src/lib/forest-extractor-runner.cc |  4 ++++
 src/lib/hiero-extractor-runner.cc  |  4 ++++
 src/lib/input-file-stream.cc       |  4 ++++
 src/lib/io-util.cc                 | 13 +++++++++++++
 src/lib/mt-evaluator-runner.cc     |  3 +++
 src/lib/mt-segmenter-runner.cc     |  5 +++++
 src/lib/rescorer-runner.cc         |  3 +++
 src/lib/tokenizer-runner.cc        |  2 ++
 src/lib/train-caser-runner.cc      |  2 ++
 src/lib/travatar-runner.cc         |  5 ++++-
 src/lib/tree-converter-runner.cc   |  5 ++++-
 15 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/io-util.h b/src/include/travatar/io-util.h
index e51e453..506ff11 100644
--- a/src/include/travatar/io-util.h
+++ b/src/include/travatar/io-util.h
@@ -75,6 +75,11 @@ public:
         return IoUtil::ReadUntil(in, delim.c_str(), forbid.c_str());
     }
 
+    // Make a stream throw an exception when reading fails, which otherwise looks like the end of the file
+    static void ThrowOnReadError(std::istream & in);
+    // Throw an error if reading from standard input has failed
+    static void CheckStandardInput();
+
 };
 
 }
diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 53641ff..91579be 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/batch-tune-runner.h>
 
 #include <travatar/eval-measure-loader.h>
@@ -141,6 +142,7 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
         ifstream weight_in(config.GetString("weight_in").c_str());
         if(!weight_in)
             THROW_ERROR("Could not find weights: " << config.GetString("weight_in"));
+        IoUtil::ThrowOnReadError(weight_in);
         weights = Dict::ParseSparseMap(weight_in);
         weight_in.close();
     }
@@ -198,6 +200,7 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             stat_in.reset(new ifstream(stat_files[i].c_str()));
             if(!*stat_in)
                 THROW_ERROR(stat_files[i] << " could not be opened for reading");
+            IoUtil::ThrowOnReadError(*stat_in);
         }
         // Actually load the files
         if(use_nbest) LoadNbests(sys_in, *tune, stat_in.get());
@@ -259,6 +262,7 @@ void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, con
     ifstream sys_in(config.GetString("nbest").c_str());
     if(!sys_in)
         THROW_ERROR(config.GetString("nbest") << " could not be opened for reading");
+    IoUtil::ThrowOnReadError(sys_in);
     // Open the output file
     ofstream stat_out(filename.c_str());
     if(!stat_out)
@@ -287,6 +291,7 @@ void BatchTuneRunner::Run(const ConfigBatchTune & config) {
     ifstream ref_in(config.GetMainArg(0).c_str());
     if(!ref_in)
         THROW_ERROR(config.GetMainArg(0) << " could not be opened for reading");
+    IoUtil::ThrowOnReadError(ref_in);
 
     // Load the references
     PRINT_DEBUG("Loading references..." << endl, 1);
diff --git a/src/lib/caser.cc b/src/lib/caser.cc
index ae26bc1..c59a8bd 100644
--- a/src/lib/caser.cc
+++ b/src/lib/caser.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/caser.h>
 #include <travatar/dict.h>
 #include <travatar/hyper-graph.h>
@@ -111,6 +112,7 @@ void Caser::LoadTrueCaseModel(const std::string & str) {
     ifstream in(str.c_str());
     if(!in)
         THROW_ERROR("Could not open truecasing model " << str);
+    IoUtil::ThrowOnReadError(in);
     string line;
     truecase_map_.clear();
     while(getline(in, line))
diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..a93601a 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/config-base.h>
 #include <travatar/global-debug.h>
 #include <boost/algorithm/string.hpp>
@@ -43,6 +44,7 @@ void ConfigBase::PrintConf() const {
 void ConfigBase::LoadConfig(const string & file_name) {
     ifstream in(file_name.c_str());
     if(!in) THROW_ERROR("Could not open config file " << file_name);
+    IoUtil::ThrowOnReadError(in);
     string line;
     while(getline(in, line)) {
         if(line.size() == 0 || line[0] == '#')
diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index fe4f552..3d6075d 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/tree-io.h>
 #include <travatar/forest-extractor.h>
@@ -60,10 +61,13 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
     const vector<string> & argv = config.GetMainArgs();
     ifstream src_in(argv[0].c_str());
     if(!src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+    IoUtil::ThrowOnReadError(src_in);
     ifstream trg_in(argv[1].c_str());
     if(!trg_in) THROW_ERROR("Could not find trg file: " << argv[1]);
+    IoUtil::ThrowOnReadError(trg_in);
     ifstream align_in(argv[2].c_str());
     if(!align_in) THROW_ERROR("Could not find align file: " << argv[2]);
+    IoUtil::ThrowOnReadError(align_in);
     // Create rule filters
     vector< boost::shared_ptr<RuleFilter> > rule_filters;
     rule_filters.push_back(boost::shared_ptr<RuleFilter>(new PseudoNodeFilter));
diff --git a/src/lib/hiero-extractor-runner.cc b/src/lib/hiero-extractor-runner.cc
index 58e6fac..5088916 100644
--- a/src/lib/hiero-extractor-runner.cc
+++ b/src/lib/hiero-extractor-runner.cc
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/tree-io.h>
 #include <travatar/hiero-extractor.h>
@@ -32,10 +33,13 @@ void HieroExtractorRunner::Run(const ConfigHieroExtractorRunner & config) {
     const vector<string> & argv = config.GetMainArgs();
     ifstream src_in(argv[0].c_str());
     if(!src_in) THROW_ERROR("Could not find source file: " << argv[0]);
+    IoUtil::ThrowOnReadError(src_in);
     ifstream trg_in(argv[1].c_str());
     if(!trg_in) THROW_ERROR("Could not find target file: " << argv[1]);
+    IoUtil::ThrowOnReadError(trg_in);
     ifstream alg_in(argv[2].c_str());
     if(!alg_in) THROW_ERROR("Could not find align file: " << argv[2]);
+    IoUtil::ThrowOnReadError(alg_in);
     
     string src_line,trg_line, align_line;
 
diff --git a/src/lib/input-file-stream.cc b/src/lib/input-file-stream.cc
index b1625fa..b1c41a8 100644
--- a/src/lib/input-file-stream.cc
+++ b/src/lib/input-file-stream.cc
@@ -20,6 +20,7 @@ License along with this library; if not, write to the Free Software
 Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
 ***********************************************************************/
 
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/input-file-stream.h>
 #include <boost/iostreams/filtering_streambuf.hpp>
@@ -51,6 +52,8 @@ InputFileStream::InputFileStream(std::string filePath)
        filePath.substr(filePath.size() - 3, 3) == ".gz") {
       filtering_streambuf<input> * in = new filtering_streambuf<input>;
       ifs_ = new ifstream(filePath.c_str());
+      if(!*ifs_)
+        THROW_ERROR("Can't read " << filePath);
       in->push(gzip_decompressor());
       in->push(*ifs_);
       m_streambuf = in;
@@ -64,6 +67,7 @@ InputFileStream::InputFileStream(std::string filePath)
       m_streambuf = fb;
     }
     this->init(m_streambuf);
+    IoUtil::ThrowOnReadError(*this);
 }
 
 InputFileStream::~InputFileStream()
diff --git a/src/lib/io-util.cc b/src/lib/io-util.cc
index cc80b58..5be6706 100644
--- a/src/lib/io-util.cc
+++ b/src/lib/io-util.cc
@@ -1,5 +1,6 @@
 #include <travatar/io-util.h>
 #include <travatar/global-debug.h>
+#include <cstdio>
 
 using namespace std;
 using namespace travatar;
@@ -40,3 +41,15 @@ string IoUtil::ReadUntil(istream & in, const char* delim, const char* forbid) {
     }
     return oss.str();
 }
+
+// Make a stream throw an exception when reading fails, which otherwise looks like the end of the file
+void IoUtil::ThrowOnReadError(istream & in) {
+    in.exceptions(ios::badbit);
+}
+
+// Throw an error if reading from standard input has failed
+void IoUtil::CheckStandardInput() {
+    // As cin is synchronized with stdin, cin takes a failure for the end of the file
+    if(cin.bad() || ferror(stdin))
+        THROW_ERROR("Could not read from standard input");
+}
diff --git a/src/lib/mt-evaluator-runner.cc b/src/lib/mt-evaluator-runner.cc
index 6658087..a9e987e 100644
--- a/src/lib/mt-evaluator-runner.cc
+++ b/src/lib/mt-evaluator-runner.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/string-util.h>
 #include <travatar/mt-evaluator-runner.h>
@@ -25,6 +26,7 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
     // Load the reference
     ifstream refin(config.GetString("ref").c_str());
     if(!refin) THROW_ERROR("Could not open reference: " << config.GetString("ref"));
+    IoUtil::ThrowOnReadError(refin);
     vector< vector<Sentence> > ref_sentences;
     string line;
     while(getline(refin, line))
@@ -75,6 +77,7 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
         int id = 0;
         ifstream sysin(filename.c_str());
         if(!sysin) THROW_ERROR("Could not open system file: " << filename);
+        IoUtil::ThrowOnReadError(sysin);
         while(getline(sysin, line)) {
             if(id >= ref_sentences.size())
               THROW_ERROR("File " << filename << " longer than reference file " << config.GetString("ref"));
diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..ab118d0 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <fstream>
 #include <algorithm>
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/mt-segmenter-runner.h>
 #include <travatar/config-mt-segmenter-runner.h>
@@ -98,6 +99,7 @@ void MTSegmenterRunner::Run(const ConfigMTSegmenterRunner & config) {
     ifstream refin(config.GetString("ref").c_str());
     if(!refin)
         THROW_ERROR("Could not open reference: " << config.GetString("ref"));
+    IoUtil::ThrowOnReadError(refin);
     vector<Sentence> ref_sents;
     string line;
     int max_ref_size = 0;
@@ -113,6 +115,9 @@ void MTSegmenterRunner::Run(const ConfigMTSegmenterRunner & config) {
     // Load the file to be split
     const string & filename = config.GetMainArg(0);
     ifstream sysin(filename.c_str());
+    if(!sysin)
+        THROW_ERROR("Could not open system file: " << filename);
+    IoUtil::ThrowOnReadError(sysin);
     Sentence sys_corpus;
     while(getline(sysin, line))
         BOOST_FOREACH(WordId wid, Dict::ParseWords(line))
diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 9671141..c87a27e 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/dict.h>
 #include <travatar/config-rescorer-runner.h>
 #include <travatar/rescorer-runner.h>
@@ -120,6 +121,7 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
         ifstream weight_in(config.GetString("weight_in").c_str());
         if(!weight_in)
             THROW_ERROR("Could not find weights: " << config.GetString("weight_in"));
+        IoUtil::ThrowOnReadError(weight_in);
         weights_ = Dict::ParseSparseMap(weight_in);
         rescore_weights_ = true;
         weight_in.close();
@@ -153,6 +155,7 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
     }
+    IoUtil::CheckStandardInput();
     Rescore(nbest);
     Print(nbest);
 
diff --git a/src/lib/tokenizer-runner.cc b/src/lib/tokenizer-runner.cc
index 0363d97..ac9b0ed 100644
--- a/src/lib/tokenizer-runner.cc
+++ b/src/lib/tokenizer-runner.cc
@@ -1,4 +1,5 @@
 
+#include <travatar/io-util.h>
 #include <travatar/config-tokenizer-runner.h>
 #include <travatar/tokenizer-runner.h>
 #include <travatar/tokenizer.h>
@@ -20,5 +21,6 @@ void TokenizerRunner::Run(const ConfigTokenizerRunner & config) {
     while(getline(cin, line)) {
         cout << tokenizer->Tokenize(line) << endl;
     }
+    IoUtil::CheckStandardInput();
 
 }
diff --git a/src/lib/train-caser-runner.cc b/src/lib/train-caser-runner.cc
index 2184112..06f7e87 100644
--- a/src/lib/train-caser-runner.cc
+++ b/src/lib/train-caser-runner.cc
@@ -1,3 +1,4 @@
+#include <travatar/io-util.h>
 #include <travatar/train-caser-runner.h>
 #include <travatar/config-train-caser-runner.h>
 #include <travatar/sentence.h>
@@ -26,6 +27,7 @@ void TrainCaserRunner::Run(const ConfigTrainCaserRunner & config) {
             if(!is_first[i])
                 counts[caser.ToLower(sent[i])][sent[i]]++;
     }
+    IoUtil::CheckStandardInput();
     // Find the best for each word
     BOOST_FOREACH(const DoubleMap::value_type & my_map, counts) {
         int max_cnt = -1;
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 2213556..025c6e6 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -231,8 +231,10 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         vector<string> ref_files = config.GetStringArray("tune_ref_files");
         if(ref_files.size() == 0)
             THROW_ERROR("When tuning, must specify at least one reference in tune_ref_files");
-        BOOST_FOREACH(const string & file, ref_files)
+        BOOST_FOREACH(const string & file, ref_files) {
             tune_ins.push_back(boost::shared_ptr<istream>(new ifstream(file.c_str())));
+            IoUtil::ThrowOnReadError(*tune_ins.back());
+        }
         // Set the weight ranges
         if(config.GetString("tune_weight_ranges") != "") {
             vector<string> ranges = Tokenize(config.GetString("tune_weight_ranges"), ' '), range_vals;
@@ -417,6 +419,7 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         cerr << (sent%100==0?'!':'.'); cerr.flush();
     }
     pool.Stop(true);
+    IoUtil::CheckStandardInput();
     // Make sure all the collector flushed their output
     if (trace_collector.get() != NULL)
         trace_collector->Flush();
diff --git a/src/lib/tree-converter-runner.cc b/src/lib/tree-converter-runner.cc
index 4f9079c..1750b57 100644
--- a/src/lib/tree-converter-runner.cc
+++ b/src/lib/tree-converter-runner.cc
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <travatar/tree-io.h>
 #include <travatar/tree-converter-runner.h>
@@ -90,7 +91,8 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
     istream * src_in;
     if(argv.size() == 1 && argv[0] != "-") {
         src_in = new ifstream(argv[0].c_str());
-        if(!src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+        if(!*src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+        IoUtil::ThrowOnReadError(*src_in);
     } else {
         src_in = &cin;
     }
@@ -138,5 +140,6 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
     } catch (std::runtime_error & e) {
         THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
     }
+    IoUtil::CheckStandardInput();
     cerr << endl;
 }
-- 
2.43.0


From 3ac7febbc4f726ce4d96ea3dfc97afd3159b880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:26 +0000
Subject: [PATCH 20/76] fix: lmplz stops instead of hanging when its main
 thread fails

---
 src/kenlm/lm/builder/pipeline.cc | 119 +++++++++++++++++++------------
 1 file changed, 75 insertions(+), 44 deletions(-)

diff --git a/src/kenlm/lm/builder/pipeline.cc b/src/kenlm/lm/builder/pipeline.cc
index fced0e3..111cf23 100644
--- a/src/kenlm/lm/builder/pipeline.cc
+++ b/src/kenlm/lm/builder/pipeline.cc
@@ -14,7 +14,10 @@
 #include "util/file.hh"
 #include "util/stream/io.hh"
 
+#include <boost/scoped_ptr.hpp>
+
 #include <algorithm>
+#include <cstdlib>
 #include <iostream>
 #include <fstream>
 #include <vector>
@@ -35,6 +38,13 @@ void PrintStatistics(const std::vector<uint64_t> &counts, const std::vector<uint
   }
 }
 
+// Threads of the chains use objects on this thread's stack and may wait for it
+// forever.  Therefore a failure of this thread must not unwind the stack.
+void FatalException(const std::exception &e) {
+  std::cerr << e.what() << std::endl;
+  abort();
+}
+
 class Master {
   public:
     explicit Master(PipelineConfig &config) 
@@ -226,14 +236,19 @@ void CountText(int text_file /* input */, int vocab_file /* output */, Master &m
   WordIndex type_count = config.vocab_estimate;
   util::FilePiece text(text_file, NULL, &std::cerr);
   text_file_name = text.FileName();
+  boost::scoped_ptr<util::stream::Sort<SuffixOrder, AddCombiner> > sorter;
   CorpusCount counter(text, vocab_file, token_count, type_count, prune_words, config.prune_vocab_file, chain.BlockSize() / chain.EntrySize(), config.disallowed_symbol_action);
-  chain >> boost::ref(counter);
-
-  util::stream::Sort<SuffixOrder, AddCombiner> sorter(chain, config.sort, SuffixOrder(config.order), AddCombiner());
-  chain.Wait(true);
-  std::cerr << "Unigram tokens " << token_count << " types " << type_count << std::endl;
-  std::cerr << "=== 2/5 Calculating and sorting adjusted counts ===" << std::endl;
-  master.InitForAdjust(sorter, type_count);
+  try {
+    chain >> boost::ref(counter);
+
+    sorter.reset(new util::stream::Sort<SuffixOrder, AddCombiner>(chain, config.sort, SuffixOrder(config.order), AddCombiner()));
+    chain.Wait(true);
+    std::cerr << "Unigram tokens " << token_count << " types " << type_count << std::endl;
+    std::cerr << "=== 2/5 Calculating and sorting adjusted counts ===" << std::endl;
+    master.InitForAdjust(*sorter, type_count);
+  } catch (const std::exception &e) {
+    FatalException(e);
+  }
 }
 
 void InitialProbabilities(const std::vector<uint64_t> &counts, const std::vector<uint64_t> &counts_pruned, const std::vector<Discount> &discounts, Master &master, Sorts<SuffixOrder> &primary,
@@ -243,24 +258,32 @@ void InitialProbabilities(const std::vector<uint64_t> &counts, const std::vector
 
   {
     Sorts<ContextOrder> sorts;
-    master.SetupSorts(sorts);
-    PrintStatistics(counts, counts_pruned, discounts);
-    lm::ngram::ShowSizes(counts_pruned);
-    std::cerr << "=== 3/5 Calculating and sorting initial probabilities ===" << std::endl;
-    master.SortAndReadTwice(counts_pruned, sorts, second, config.initial_probs.adder_in);
+    try {
+      master.SetupSorts(sorts);
+      PrintStatistics(counts, counts_pruned, discounts);
+      lm::ngram::ShowSizes(counts_pruned);
+      std::cerr << "=== 3/5 Calculating and sorting initial probabilities ===" << std::endl;
+      master.SortAndReadTwice(counts_pruned, sorts, second, config.initial_probs.adder_in);
+    } catch (const std::exception &e) {
+      FatalException(e);
+    }
   }
 
   util::stream::Chains gamma_chains(config.order);
-  InitialProbabilities(config.initial_probs, discounts, master.MutableChains(), second, gamma_chains, prune_thresholds, prune_vocab);
-  // Don't care about gamma for 0.  
-  gamma_chains[0] >> util::stream::kRecycle;
-  gammas.Init(config.order - 1);
-  for (std::size_t i = 1; i < config.order; ++i) {
-    gammas.push_back(util::MakeTemp(config.TempPrefix()));
-    gamma_chains[i] >> gammas[i - 1].Sink();
+  try {
+    InitialProbabilities(config.initial_probs, discounts, master.MutableChains(), second, gamma_chains, prune_thresholds, prune_vocab);
+    // Don't care about gamma for 0.
+    gamma_chains[0] >> util::stream::kRecycle;
+    gammas.Init(config.order - 1);
+    for (std::size_t i = 1; i < config.order; ++i) {
+      gammas.push_back(util::MakeTemp(config.TempPrefix()));
+      gamma_chains[i] >> gammas[i - 1].Sink();
+    }
+    // Has to be done here due to gamma_chains scope.
+    master.SetupSorts(primary);
+  } catch (const std::exception &e) {
+    FatalException(e);
   }
-  // Has to be done here due to gamma_chains scope.
-  master.SetupSorts(primary);
 }
 
 void InterpolateProbabilities(const std::vector<uint64_t> &counts, Master &master, Sorts<SuffixOrder> &primary, util::FixedArray<util::stream::FileBuffer> &gammas) {
@@ -269,20 +292,24 @@ void InterpolateProbabilities(const std::vector<uint64_t> &counts, Master &maste
   master.MaximumLazyInput(counts, primary);
 
   util::stream::Chains gamma_chains(config.order - 1);
-  for (std::size_t i = 0; i < config.order - 1; ++i) {
-    util::stream::ChainConfig read_backoffs(config.read_backoffs);
+  try {
+    for (std::size_t i = 0; i < config.order - 1; ++i) {
+      util::stream::ChainConfig read_backoffs(config.read_backoffs);
 
-    if(config.prune_vocab || config.prune_thresholds[i + 1] > 0)
-        read_backoffs.entry_size = sizeof(HashGamma);
-    else
-        read_backoffs.entry_size = sizeof(float);
+      if(config.prune_vocab || config.prune_thresholds[i + 1] > 0)
+          read_backoffs.entry_size = sizeof(HashGamma);
+      else
+          read_backoffs.entry_size = sizeof(float);
 
-    gamma_chains.push_back(read_backoffs);
-    gamma_chains.back() >> gammas[i].Source();
+      gamma_chains.push_back(read_backoffs);
+      gamma_chains.back() >> gammas[i].Source();
+    }
+    master >> Interpolate(std::max(master.Config().vocab_size_for_unk, counts[0] - 1 /* <s> is not included */), util::stream::ChainPositions(gamma_chains), config.prune_thresholds, config.prune_vocab, config.output_q);
+    gamma_chains >> util::stream::kRecycle;
+    master.BufferFinal(counts);
+  } catch (const std::exception &e) {
+    FatalException(e);
   }
-  master >> Interpolate(std::max(master.Config().vocab_size_for_unk, counts[0] - 1 /* <s> is not included */), util::stream::ChainPositions(gamma_chains), config.prune_thresholds, config.prune_vocab, config.output_q);
-  gamma_chains >> util::stream::kRecycle;
-  master.BufferFinal(counts);
 }
 
 } // namespace
@@ -305,28 +332,33 @@ void Pipeline(PipelineConfig &config, int text_file, Output &output) {
 
   Master master(config);
   // master's destructor will wait for chains.  But they might be deadlocked if
-  // this thread dies because e.g. it ran out of memory.
+  // this thread dies because e.g. it ran out of memory.  And they use these.
+  util::scoped_fd vocab_file;
+  std::vector<bool> prune_words;
+  std::vector<uint64_t> counts;
+  std::vector<uint64_t> counts_pruned;
+  std::vector<Discount> discounts;
   try {
-    util::scoped_fd vocab_file(config.vocab_file.empty() ? 
+    vocab_file.reset(config.vocab_file.empty() ? 
         util::MakeTemp(config.TempPrefix()) : 
         util::CreateOrThrow(config.vocab_file.c_str()));
     output.SetVocabFD(vocab_file.get());
     uint64_t token_count;
     std::string text_file_name;
-    
-    std::vector<bool> prune_words;
+
     CountText(text_file, vocab_file.get(), master, token_count, text_file_name, prune_words);
     
-    std::vector<uint64_t> counts;
-    std::vector<uint64_t> counts_pruned;
-    std::vector<Discount> discounts;
     master >> AdjustCounts(config.prune_thresholds, counts, counts_pruned, prune_words, config.discount, discounts);
 
     {
       util::FixedArray<util::stream::FileBuffer> gammas;
       Sorts<SuffixOrder> primary;
-      InitialProbabilities(counts, counts_pruned, discounts, master, primary, gammas, config.prune_thresholds, config.prune_vocab);
-      InterpolateProbabilities(counts_pruned, master, primary, gammas);
+      try {
+        InitialProbabilities(counts, counts_pruned, discounts, master, primary, gammas, config.prune_thresholds, config.prune_vocab);
+        InterpolateProbabilities(counts_pruned, master, primary, gammas);
+      } catch (const std::exception &e) {
+        FatalException(e);
+      }
     }
 
     std::cerr << "=== 5/5 Writing ARPA model ===" << std::endl;
@@ -335,9 +367,8 @@ void Pipeline(PipelineConfig &config, int text_file, Output &output) {
     output.Apply(PROB_SEQUENTIAL_HOOK, master.MutableChains());
     master >> util::stream::kRecycle;
     master.MutableChains().Wait(true);
-  } catch (const util::Exception &e) {
-    std::cerr << e.what() << std::endl;
-    abort();
+  } catch (const std::exception &e) {
+    FatalException(e);
   }
 }
 
-- 
2.43.0


From eec041b0bc909a148730dedd5442a503694ddd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 21/76] fix: online tuning does not crash when the decoder
 finds no translation

---
 src/lib/weights-pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/weights-pairwise.cc b/src/lib/weights-pairwise.cc
index c5f170e..b66ff50 100644
--- a/src/lib/weights-pairwise.cc
+++ b/src/lib/weights-pairwise.cc
@@ -26,6 +26,8 @@ void WeightsPairwise::Adjust(const Sentence & src,
             oracle_eval = my_eval;
         }
     }
+    // There is nothing to learn from if the decoder found no translation
+    if(oracle == -1) return;
     // Update given the oracle
     Real oracle_score = nbest[oracle]->GetScore();
     Real sys_score = nbest[0]->GetScore();
-- 
2.43.0


From 4e0a40016259c2d241c4776bf1a301a1fed67878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 22/76] fix: failed parses can be written in the rule and Moses
 XML formats

---
 src/lib/tree-io.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..7465145 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -184,7 +184,8 @@ void RuleTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
-    WriteNode(tree.GetWords(), *tree.GetNode(0), out);
+    if(tree.GetNodes().size() > 0)
+        WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
 HyperGraph * JSONTreeIO::ReadTree(istream & in) {
@@ -406,5 +407,8 @@ void MosesXMLTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void MosesXMLTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
-    WriteNode(tree.GetWords(), *tree.GetNode(0), out);
+    if(tree.GetNodes().size() == 0)
+        out << Dict::PrintWords(tree.GetWords());
+    else
+        WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
-- 
2.43.0


From a48ed7e9f9f6d16ce0a79d6c0dce7f446d1688d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 23/76] fix: programs stop with an error when writing an output
 fails

---
 src/include/travatar/io-util.h     |  2 ++
 src/lib/batch-tune-runner.cc       |  2 ++
 src/lib/forest-extractor-runner.cc |  1 +
 src/lib/hiero-extractor-runner.cc  |  1 +
 src/lib/io-util.cc                 | 11 +++++++++++
 src/lib/mt-evaluator-runner.cc     |  1 +
 src/lib/mt-segmenter-runner.cc     |  1 +
 src/lib/rescorer-runner.cc         |  3 +++
 src/lib/tokenizer-runner.cc        |  1 +
 src/lib/train-caser-runner.cc      |  1 +
 src/lib/travatar-runner.cc         | 11 ++++++-----
 src/lib/tree-converter-runner.cc   |  1 +
 12 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/io-util.h b/src/include/travatar/io-util.h
index 506ff11..2a10655 100644
--- a/src/include/travatar/io-util.h
+++ b/src/include/travatar/io-util.h
@@ -79,6 +79,8 @@ public:
     static void ThrowOnReadError(std::istream & in);
     // Throw an error if reading from standard input has failed
     static void CheckStandardInput();
+    // Flush, and if it is a file close, an output stream, and throw an error if it was not written completely
+    static void FinishOutput(std::ostream & out, const std::string & name);
 
 };
 
diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 91579be..f55e9e9 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -255,6 +255,7 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     // Print result
     PRINT_DEBUG("Best: " << Dict::PrintSparseMap(best_weights) << " => " << best_score << endl, 0);
     cout << Dict::PrintSparseMap(best_weights) << endl;
+    IoUtil::FinishOutput(cout, "standard output");
 }
 
 void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, const string & filename) {
@@ -278,6 +279,7 @@ void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, con
         EvalStatsPtr stats = eval_->CalculateCachedStats(refs_[id], hyps, id);
         stat_out << stats->WriteStats() << endl;
     }
+    IoUtil::FinishOutput(stat_out, filename);
 }
 
 // Run the model
diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index 3d6075d..3edd5f7 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -161,5 +161,6 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
             cerr << (sent % 100000 == 0 ? '!' : '.'); cerr.flush();
         }
     }
+    IoUtil::FinishOutput(cout, "standard output");
     cerr << endl;
 }
diff --git a/src/lib/hiero-extractor-runner.cc b/src/lib/hiero-extractor-runner.cc
index 5088916..970b83f 100644
--- a/src/lib/hiero-extractor-runner.cc
+++ b/src/lib/hiero-extractor-runner.cc
@@ -78,6 +78,7 @@ void HieroExtractorRunner::Run(const ConfigHieroExtractorRunner & config) {
             cerr << "Finished Processing: " << line << " lines. " << endl; 
         }
     }
+    IoUtil::FinishOutput(cout, "standard output");
 }
 
 string HieroExtractorRunner::PrintAlignment (const vector< pair<int,int> > & alignments) {
diff --git a/src/lib/io-util.cc b/src/lib/io-util.cc
index 5be6706..c1ca3bc 100644
--- a/src/lib/io-util.cc
+++ b/src/lib/io-util.cc
@@ -1,6 +1,7 @@
 #include <travatar/io-util.h>
 #include <travatar/global-debug.h>
 #include <cstdio>
+#include <fstream>
 
 using namespace std;
 using namespace travatar;
@@ -53,3 +54,13 @@ void IoUtil::CheckStandardInput() {
     if(cin.bad() || ferror(stdin))
         THROW_ERROR("Could not read from standard input");
 }
+
+// Flush, and if it is a file close, an output stream, and throw an error if it was not written completely
+void IoUtil::FinishOutput(ostream & out, const string & name) {
+    out.flush();
+    ofstream * file = dynamic_cast<ofstream*>(&out);
+    if(file != NULL)
+        file->close();
+    if(!out)
+        THROW_ERROR("Could not write to " << name);
+}
diff --git a/src/lib/mt-evaluator-runner.cc b/src/lib/mt-evaluator-runner.cc
index a9e987e..003478f 100644
--- a/src/lib/mt-evaluator-runner.cc
+++ b/src/lib/mt-evaluator-runner.cc
@@ -153,5 +153,6 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
             }
         }
     }
+    IoUtil::FinishOutput(cout, "standard output");
 
 }
diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index ab118d0..2b37b6a 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -130,5 +130,6 @@ void MTSegmenterRunner::Run(const ConfigMTSegmenterRunner & config) {
     // Print out the segmentation
     BOOST_FOREACH(const Sentence & sent, sys_sents)
         cout << Dict::PrintWords(sent) << endl;
+    IoUtil::FinishOutput(cout, "standard output");
 
 }
diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index c87a27e..1b5e8b3 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -158,5 +158,8 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
     IoUtil::CheckStandardInput();
     Rescore(nbest);
     Print(nbest);
+    IoUtil::FinishOutput(cout, "standard output");
+    if(nbest_out_.get() != NULL)
+        IoUtil::FinishOutput(*nbest_out_, config.GetString("nbest_out"));
 
 }
diff --git a/src/lib/tokenizer-runner.cc b/src/lib/tokenizer-runner.cc
index ac9b0ed..ac0b546 100644
--- a/src/lib/tokenizer-runner.cc
+++ b/src/lib/tokenizer-runner.cc
@@ -22,5 +22,6 @@ void TokenizerRunner::Run(const ConfigTokenizerRunner & config) {
         cout << tokenizer->Tokenize(line) << endl;
     }
     IoUtil::CheckStandardInput();
+    IoUtil::FinishOutput(cout, "standard output");
 
 }
diff --git a/src/lib/train-caser-runner.cc b/src/lib/train-caser-runner.cc
index 06f7e87..0ac5d24 100644
--- a/src/lib/train-caser-runner.cc
+++ b/src/lib/train-caser-runner.cc
@@ -40,4 +40,5 @@ void TrainCaserRunner::Run(const ConfigTrainCaserRunner & config) {
         }
         cout << Dict::WSym(best) << endl;
     }
+    IoUtil::FinishOutput(cout, "standard output");
 }
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 025c6e6..6fded9b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -420,13 +420,14 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
     pool.Stop(true);
     IoUtil::CheckStandardInput();
-    // Make sure all the collector flushed their output
+    // Make sure that all the output has been written
+    IoUtil::FinishOutput(cout, "standard output");
     if (trace_collector.get() != NULL)
-        trace_collector->Flush();
+        IoUtil::FinishOutput(*trace_out, config.GetString("trace_out"));
     if (nbest_collector.get() != NULL)
-        nbest_collector->Flush();
+        IoUtil::FinishOutput(*nbest_out, config.GetString("nbest_out"));
     if (forest_collector.get() != NULL)
-        forest_collector->Flush();
+        IoUtil::FinishOutput(*forest_out, config.GetString("forest_out"));
 
     // Finished translating
     PRINT_DEBUG(endl << "Done translating [" << timer << " sec]" << endl, 1);
@@ -439,7 +440,7 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
             THROW_ERROR("Could open tune_weight_out file: " << config.GetString("tune_weight_out"));
         BOOST_FOREACH(const SparseMap::value_type & val, weights_->GetFinal())
             weight_out << Dict::WSym(val.first) << "=" << val.second << endl;
-        weight_out.close();
+        IoUtil::FinishOutput(weight_out, config.GetString("tune_weight_out"));
     }
 
 }
diff --git a/src/lib/tree-converter-runner.cc b/src/lib/tree-converter-runner.cc
index 1750b57..1e44348 100644
--- a/src/lib/tree-converter-runner.cc
+++ b/src/lib/tree-converter-runner.cc
@@ -141,5 +141,6 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
         THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
     }
     IoUtil::CheckStandardInput();
+    IoUtil::FinishOutput(cout, "standard output");
     cerr << endl;
 }
-- 
2.43.0


From eb6193e4e0d895b501be98477654f5910cbca011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 24/76] fix: lm filter can stop when not all of its threads can
 be created

---
 src/kenlm/util/thread_pool.hh | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/kenlm/util/thread_pool.hh b/src/kenlm/util/thread_pool.hh
index d1a883a..47c8846 100644
--- a/src/kenlm/util/thread_pool.hh
+++ b/src/kenlm/util/thread_pool.hh
@@ -61,18 +61,20 @@ template <class HandlerT> class ThreadPool : boost::noncopyable {
     typedef typename Handler::Request Request;
 
     template <class Construct> ThreadPool(size_t queue_length, size_t workers, Construct handler_construct, Request poison) : in_(queue_length), poison_(poison) {
-      for (size_t i = 0; i < workers; ++i) {
-        workers_.push_back(new Worker<Handler>(in_, handler_construct, poison));
+      workers_.reserve(workers);
+      try {
+        for (size_t i = 0; i < workers; ++i) {
+          workers_.push_back(new Worker<Handler>(in_, handler_construct, poison));
+        }
+      } catch (...) {
+        // The workers that already run have to finish before they are destroyed.
+        Finish();
+        throw;
       }
     }
 
     ~ThreadPool() {
-      for (size_t i = 0; i < workers_.size(); ++i) {
-        Produce(poison_);
-      }
-      for (typename boost::ptr_vector<Worker<Handler> >::iterator i = workers_.begin(); i != workers_.end(); ++i) {
-        i->Join();
-      }
+      Finish();
     }
 
     void Produce(const Request &request) {
@@ -83,6 +85,15 @@ template <class HandlerT> class ThreadPool : boost::noncopyable {
     PCQueue<Request> &In() { return in_; }
 
   private:
+    void Finish() {
+      for (size_t i = 0; i < workers_.size(); ++i) {
+        Produce(poison_);
+      }
+      for (typename boost::ptr_vector<Worker<Handler> >::iterator i = workers_.begin(); i != workers_.end(); ++i) {
+        i->Join();
+      }
+    }
+
     PCQueue<Request> in_;
 
     boost::ptr_vector<Worker<Handler> > workers_;
-- 
2.43.0


From 8d91cc318a9f167669c5088489939c636b2c9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 25/76] fix: language model programs notice failures to write
 to standard output

---
 src/kenlm/lm/builder/dump_counts_main.cc | 2 ++
 src/kenlm/lm/fragment_main.cc            | 7 +++++++
 src/kenlm/lm/ngram_query.hh              | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/src/kenlm/lm/builder/dump_counts_main.cc b/src/kenlm/lm/builder/dump_counts_main.cc
index fa00167..827bb2c 100644
--- a/src/kenlm/lm/builder/dump_counts_main.cc
+++ b/src/kenlm/lm/builder/dump_counts_main.cc
@@ -33,4 +33,6 @@ int main(int argc, char *argv[]) {
     // TODO don't use std::cout because it is slow.  Add fast uint64_t printing support to FakeOFStream.
     std::cout << *reinterpret_cast<const uint64_t*>(words + order) << '\n';
   }
+  std::cout.flush();
+  UTIL_THROW_IF(!std::cout, util::Exception, "Could not write to standard output.");
 }
diff --git a/src/kenlm/lm/fragment_main.cc b/src/kenlm/lm/fragment_main.cc
index 0267cd4..dae087b 100644
--- a/src/kenlm/lm/fragment_main.cc
+++ b/src/kenlm/lm/fragment_main.cc
@@ -1,8 +1,12 @@
 #include "lm/binary_format.hh"
 #include "lm/model.hh"
 #include "lm/left.hh"
+#include "util/exception.hh"
 #include "util/tokenize_piece.hh"
 
+#include <cstdio>
+#include <iostream>
+
 template <class Model> void Query(const char *name) {
   Model model(name);
   std::string line;
@@ -14,6 +18,9 @@ template <class Model> void Query(const char *name) {
     }
     std::cout << scorer.Finish() << '\n';
   }
+  UTIL_THROW_IF(std::cin.bad() || std::ferror(stdin), util::Exception, "Could not read from standard input.");
+  std::cout.flush();
+  UTIL_THROW_IF(!std::cout, util::Exception, "Could not write to standard output.");
 }
 
 int main(int argc, char *argv[]) {
diff --git a/src/kenlm/lm/ngram_query.hh b/src/kenlm/lm/ngram_query.hh
index 5f330c5..4568f82 100644
--- a/src/kenlm/lm/ngram_query.hh
+++ b/src/kenlm/lm/ngram_query.hh
@@ -91,6 +91,8 @@ template <class Model, class Printer> void Query(const Model &model, bool senten
       pow(10.0, -((corpus_total - corpus_total_oov_only) / static_cast<double>(corpus_tokens - corpus_oov))), // PPL excluding OOVs
       corpus_oov,
       corpus_tokens);
+  std::cout.flush();
+  UTIL_THROW_IF(!std::cout, util::Exception, "Could not write to standard output.");
 }
 
 template <class Model> void Query(const char *file, const Config &config, bool sentence_context, bool show_words) {
-- 
2.43.0


From 9d25ec129b8a8e669faf3669bcea86873f17fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 26/76] fix: lmplz does not wait forever for a thread that it
 failed to keep track of

---
 src/kenlm/lm/builder/multi_stream.hh  | 2 ++
 src/kenlm/util/stream/chain.cc        | 2 ++
 src/kenlm/util/stream/chain.hh        | 3 +++
 src/kenlm/util/stream/multi_stream.hh | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/src/kenlm/lm/builder/multi_stream.hh b/src/kenlm/lm/builder/multi_stream.hh
index 707a98c..b45b3d0 100644
--- a/src/kenlm/lm/builder/multi_stream.hh
+++ b/src/kenlm/lm/builder/multi_stream.hh
@@ -99,11 +99,13 @@ class Chains : public FixedArray<util::stream::Chain> {
     explicit Chains(std::size_t limit) : FixedArray<util::stream::Chain>(limit) {}
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
       return *this;
     }
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
       return *this;
     }
diff --git a/src/kenlm/util/stream/chain.cc b/src/kenlm/util/stream/chain.cc
index ce29e42..f719859 100644
--- a/src/kenlm/util/stream/chain.cc
+++ b/src/kenlm/util/stream/chain.cc
@@ -55,11 +55,13 @@ ChainPosition Chain::Add() {
 }
 
 Chain &Chain::operator>>(const WriteAndRecycle &writer) {
+  threads_.reserve(threads_.size() + 1);
   threads_.push_back(new Thread(Complete(), writer));
   return *this;
 }
 
 Chain &Chain::operator>>(const PWriteAndRecycle &writer) {
+  threads_.reserve(threads_.size() + 1);
   threads_.push_back(new Thread(Complete(), writer));
   return *this;
 }
diff --git a/src/kenlm/util/stream/chain.hh b/src/kenlm/util/stream/chain.hh
index 5086508..3226ca0 100644
--- a/src/kenlm/util/stream/chain.hh
+++ b/src/kenlm/util/stream/chain.hh
@@ -170,6 +170,7 @@ class Chain {
      */
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
       assert(!complete_called_);
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new Thread(Add(), worker));
       return *this;
     }
@@ -184,6 +185,7 @@ class Chain {
    */
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
       assert(!complete_called_);
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new Thread(Add(), worker));
       return *this;
     }
@@ -192,6 +194,7 @@ class Chain {
 
     // To complete the loop, call CompleteLoop(), >> kRecycle, or the destructor.  
     void CompleteLoop() {
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new Thread(Complete(), kRecycle));
     }
 
diff --git a/src/kenlm/util/stream/multi_stream.hh b/src/kenlm/util/stream/multi_stream.hh
index 0ee7fab..d2856f9 100644
--- a/src/kenlm/util/stream/multi_stream.hh
+++ b/src/kenlm/util/stream/multi_stream.hh
@@ -40,11 +40,13 @@ class Chains : public util::FixedArray<util::stream::Chain> {
     explicit Chains(std::size_t limit) : util::FixedArray<util::stream::Chain>(limit) {}
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
       return *this;
     }
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
+      threads_.reserve(threads_.size() + 1);
       threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
       return *this;
     }
-- 
2.43.0


From c1229532585f1cb77078e3d89063d4c43aac583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 27/76] fix: a thread pool that is destroyed stops its threads
 first

---
 src/include/travatar/thread-pool.h |  3 +++
 src/lib/thread-pool.cc             | 13 +++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index 18d380e..293cd35 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -20,6 +20,9 @@ public:
     // Create a thread pool with a certain number of threads
     ThreadPool(int size, int queue_limit = 0);
 
+    // Stop the threads, if they have not been stopped yet
+    ~ThreadPool();
+
     // Submit a task for execution
     void Submit(Task * task);
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index 23a1707..4010247 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -9,8 +9,17 @@ using namespace boost;
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
         queue_limit_(queue_limit), running_(0) {
-    for(int i = 0; i < num_threads; i++)
-        threads_.create_thread(bind(&ThreadPool::Run, this));
+    try {
+        for(int i = 0; i < num_threads; i++)
+            threads_.create_thread(bind(&ThreadPool::Run, this));
+    } catch(...) {
+        Stop(false);
+        throw;
+    }
+}
+
+ThreadPool::~ThreadPool() {
+    Stop(false);
 }
 
 void ThreadPool::Run() {
-- 
2.43.0


From e65237f6926100bbc15e4132d0344148964dc30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 28/76] fix: lmplz stops when a worker of a chain cannot be
 started

---
 src/kenlm/lm/builder/multi_stream.hh  | 16 ++++++++++----
 src/kenlm/util/stream/chain.cc        | 16 ++++++++++----
 src/kenlm/util/stream/chain.hh        | 32 ++++++++++++++++++++-------
 src/kenlm/util/stream/multi_stream.hh | 16 ++++++++++----
 4 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/kenlm/lm/builder/multi_stream.hh b/src/kenlm/lm/builder/multi_stream.hh
index b45b3d0..e08e5e0 100644
--- a/src/kenlm/lm/builder/multi_stream.hh
+++ b/src/kenlm/lm/builder/multi_stream.hh
@@ -99,14 +99,22 @@ class Chains : public FixedArray<util::stream::Chain> {
     explicit Chains(std::size_t limit) : FixedArray<util::stream::Chain>(limit) {}
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      } catch (const std::exception &e) {
+        util::stream::Thread::UnhandledException(e);
+      }
       return *this;
     }
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      } catch (const std::exception &e) {
+        util::stream::Thread::UnhandledException(e);
+      }
       return *this;
     }
 
diff --git a/src/kenlm/util/stream/chain.cc b/src/kenlm/util/stream/chain.cc
index f719859..84ab727 100644
--- a/src/kenlm/util/stream/chain.cc
+++ b/src/kenlm/util/stream/chain.cc
@@ -55,14 +55,22 @@ ChainPosition Chain::Add() {
 }
 
 Chain &Chain::operator>>(const WriteAndRecycle &writer) {
-  threads_.reserve(threads_.size() + 1);
-  threads_.push_back(new Thread(Complete(), writer));
+  try {
+    threads_.reserve(threads_.size() + 1);
+    threads_.push_back(new Thread(Complete(), writer));
+  } catch (const std::exception &e) {
+    Thread::UnhandledException(e);
+  }
   return *this;
 }
 
 Chain &Chain::operator>>(const PWriteAndRecycle &writer) {
-  threads_.reserve(threads_.size() + 1);
-  threads_.push_back(new Thread(Complete(), writer));
+  try {
+    threads_.reserve(threads_.size() + 1);
+    threads_.push_back(new Thread(Complete(), writer));
+  } catch (const std::exception &e) {
+    Thread::UnhandledException(e);
+  }
   return *this;
 }
 
diff --git a/src/kenlm/util/stream/chain.hh b/src/kenlm/util/stream/chain.hh
index 3226ca0..41cdbe4 100644
--- a/src/kenlm/util/stream/chain.hh
+++ b/src/kenlm/util/stream/chain.hh
@@ -80,9 +80,13 @@ class Thread {
       }
     }
 
-  private:
-    void UnhandledException(const std::exception &e);
+    /**
+     * Ends the program.  Other workers may be using objects on the stack of this thread and waiting for it forever, so neither a
+     * worker that fails nor a failure to start a worker can be passed on to the caller.
+     */
+    static void UnhandledException(const std::exception &e);
 
+  private:
     boost::thread thread_;
 };
 
@@ -170,8 +174,12 @@ class Chain {
      */
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
       assert(!complete_called_);
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new Thread(Add(), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new Thread(Add(), worker));
+      } catch (const std::exception &e) {
+        Thread::UnhandledException(e);
+      }
       return *this;
     }
 
@@ -185,8 +193,12 @@ class Chain {
    */
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
       assert(!complete_called_);
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new Thread(Add(), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new Thread(Add(), worker));
+      } catch (const std::exception &e) {
+        Thread::UnhandledException(e);
+      }
       return *this;
     }
 
@@ -194,8 +206,12 @@ class Chain {
 
     // To complete the loop, call CompleteLoop(), >> kRecycle, or the destructor.  
     void CompleteLoop() {
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new Thread(Complete(), kRecycle));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new Thread(Complete(), kRecycle));
+      } catch (const std::exception &e) {
+        Thread::UnhandledException(e);
+      }
     }
 
     /** 
diff --git a/src/kenlm/util/stream/multi_stream.hh b/src/kenlm/util/stream/multi_stream.hh
index d2856f9..e1d01d3 100644
--- a/src/kenlm/util/stream/multi_stream.hh
+++ b/src/kenlm/util/stream/multi_stream.hh
@@ -40,14 +40,22 @@ class Chains : public util::FixedArray<util::stream::Chain> {
     explicit Chains(std::size_t limit) : util::FixedArray<util::stream::Chain>(limit) {}
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const Worker &worker) {
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      } catch (const std::exception &e) {
+        util::stream::Thread::UnhandledException(e);
+      }
       return *this;
     }
 
     template <class Worker> typename CheckForRun<Worker>::type &operator>>(const boost::reference_wrapper<Worker> &worker) {
-      threads_.reserve(threads_.size() + 1);
-      threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      try {
+        threads_.reserve(threads_.size() + 1);
+        threads_.push_back(new util::stream::Thread(ChainPositions(*this), worker));
+      } catch (const std::exception &e) {
+        util::stream::Thread::UnhandledException(e);
+      }
       return *this;
     }
 
-- 
2.43.0


From 90db723c86363bc5a5ca38f9d75ea029aa422490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 29/76] fix: L-BFGS tuning stops when the optimizer runs out of
 memory

---
 src/liblbfgs/lbfgs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/liblbfgs/lbfgs.hpp b/src/liblbfgs/lbfgs.hpp
index 37baf6a..a31ac75 100644
--- a/src/liblbfgs/lbfgs.hpp
+++ b/src/liblbfgs/lbfgs.hpp
@@ -10,6 +10,7 @@
 #include <cmath>
 #include <cstddef>
 #include <limits>
+#include <new>
 #include <vector>
 
 #include <liblbfgs/lbfgs.h>
@@ -53,7 +54,8 @@ namespace liblbfgs
       x_opt_.reserve(n);
       x_opt_.insert(x_opt_.end(), x, x + n);
       
-      lbfgs(n, x, &objective_, _evaluate, 0, this, &param_);
+      if (lbfgs(n, x, &objective_, _evaluate, 0, this, &param_) == LBFGSERR_OUTOFMEMORY)
+        throw std::bad_alloc();
       
       // copy the result back to x...
       std::copy(x_opt_.begin(), x_opt_.end(), x);
-- 
2.43.0


From 8d72bd09d0f9b51caa00bbcd11eb3dc54b25cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 30/76] fix: final perceptron weights are not read from
 released memory

---
 src/lib/weights-average-perceptron.cc | 4 +++-
 src/lib/weights-perceptron.cc         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..6cc5b83 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -12,7 +12,9 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 // Get the final values of the weights
 const SparseMap & WeightsAveragePerceptron::GetFinal() {
     if(curr_iter_) {
-        BOOST_FOREACH(SparseMap::value_type final_val, current_) {
+        // GetCurrent removes weights that become zero, so go through a copy
+        const SparseMap copy = current_;
+        BOOST_FOREACH(const SparseMap::value_type & final_val, copy) {
             // Save the old value and get the new value in the range
             int prev_iter = last_update_[final_val.first];
             Real avg_val = final_[final_val.first];
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..99b045f 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,10 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // GetCurrent removes weights that become zero, so go through a copy
+    const SparseMap copy = current_;
+    BOOST_FOREACH(const SparseMap::value_type & val, copy)
+        GetCurrent(val.first);
     return current_;
 }
 
-- 
2.43.0


From 35c7bea7e6f28de3e5be07a83cf42d1c8940d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 31/76] fix: lmplz counts the last n-gram of each order by its
 own adjusted count

---
 src/kenlm/lm/builder/adjust_counts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/lm/builder/adjust_counts.cc b/src/kenlm/lm/builder/adjust_counts.cc
index 03ccbb9..9a9dddb 100644
--- a/src/kenlm/lm/builder/adjust_counts.cc
+++ b/src/kenlm/lm/builder/adjust_counts.cc
@@ -336,7 +336,7 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
       }
     }
       
-    stats.Add(s - streams.begin(), lower_count, (*s)->IsMarked());
+    stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
   }
   // Poison everyone!  Except the N-grams which were already poisoned by the input.
-- 
2.43.0


From 3d48252136bdef97c2dabe647d5724ebf2f2e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 32/76] fix: the header of a binary language model is completed
 before it is marked as valid

---
 src/kenlm/lm/binary_format.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/kenlm/lm/binary_format.cc b/src/kenlm/lm/binary_format.cc
index 4811740..ee779c4 100644
--- a/src/kenlm/lm/binary_format.cc
+++ b/src/kenlm/lm/binary_format.cc
@@ -65,10 +65,15 @@ std::size_t TotalHeaderSize(unsigned char order) {
   return ALIGN8(sizeof(Sanity) + sizeof(FixedWidthParameters) + sizeof(uint64_t) * order);
 }
 
-void WriteHeader(void *to, const Parameters &params) {
+// The part of the header that marks the file as complete.
+void WriteSanity(void *to) {
   Sanity header = Sanity();
   header.SetToReference();
   std::memcpy(to, &header, sizeof(Sanity));
+}
+
+// Everything in the header after Sanity.
+void WriteParameters(void *to, const Parameters &params) {
   char *out = reinterpret_cast<char*>(to) + sizeof(Sanity);
 
   *reinterpret_cast<FixedWidthParameters*>(out) = params.fixed;
@@ -264,15 +269,21 @@ void BinaryFormat::FinishFile(const Config &config, ModelType model_type, unsign
   params.fixed.search_version = search_version;
   switch (write_method_) {
     case Config::WRITE_MMAP:
-      WriteHeader(mapping_.get(), params);
+      // Sanity goes last so that an interrupted build is never mistaken for a complete one.
+      WriteParameters(mapping_.get(), params);
+      WriteSanity(mapping_.get());
       util::SyncOrThrow(mapping_.get(), mapping_.size());
       break;
     case Config::WRITE_AFTER:
       {
         std::vector<uint8_t> buffer(TotalHeaderSize(counts.size()));
-        WriteHeader(&buffer[0], params);
+        WriteSanity(&buffer[0]);
+        WriteParameters(&buffer[0], params);
+        // Sanity goes last so that an interrupted build is never mistaken for a complete one.
+        util::SeekOrThrow(file_.get(), sizeof(Sanity));
+        util::WriteOrThrow(file_.get(), &buffer[0] + sizeof(Sanity), buffer.size() - sizeof(Sanity));
         util::SeekOrThrow(file_.get(), 0);
-        util::WriteOrThrow(file_.get(), &buffer[0], buffer.size());
+        util::WriteOrThrow(file_.get(), &buffer[0], sizeof(Sanity));
       }
       break;
   }
-- 
2.43.0


From cfced6a1255567776a0434fa3f51acba6e2c6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 33/76] hook: smaller trie sort buffers with
 TRAVATAR_SIMULATION defined

---
 src/kenlm/lm/search_trie.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/lm/search_trie.cc b/src/kenlm/lm/search_trie.cc
index 5b0f55f..fb64431 100644
--- a/src/kenlm/lm/search_trie.cc
+++ b/src/kenlm/lm/search_trie.cc
@@ -585,7 +585,13 @@ template <class Quant, class Bhiksha> void TrieSearch<Quant, Bhiksha>::Initializ
     temporary_prefix = file;
   }
   // At least 1MB sorting memory.
-  SortedFiles sorted(config, f, counts, std::max<size_t>(config.building_memory, 1048576), temporary_prefix, vocab);
+#ifdef TRAVATAR_SIMULATION
+  // Simulated runs sort small models in several batches.
+  const size_t min_building_memory = 64;
+#else
+  const size_t min_building_memory = 1048576;
+#endif
+  SortedFiles sorted(config, f, counts, std::max<size_t>(config.building_memory, min_building_memory), temporary_prefix, vocab);
 
   BuildTrie(sorted, counts, config, *this, quant_, vocab, backing);
 }
-- 
2.43.0


From 38534f5c2ffe2902da2974dfb8c06aee2755b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 34/76] hook: small text and output buffers with
 TRAVATAR_SIMULATION defined

---
 src/kenlm/util/fake_ofstream.hh | 9 ++++++++-
 src/kenlm/util/file_piece.cc    | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/util/fake_ofstream.hh b/src/kenlm/util/fake_ofstream.hh
index 987fa80..c50808d 100644
--- a/src/kenlm/util/fake_ofstream.hh
+++ b/src/kenlm/util/fake_ofstream.hh
@@ -17,9 +17,16 @@
 namespace util {
 class FakeOFStream {
   public:
+#ifdef TRAVATAR_SIMULATION
+    // Simulated runs write small files in several pieces.
+    enum { kDefaultBuffer = 160 };
+#else
+    enum { kDefaultBuffer = 1048576 };
+#endif
+
     // Does not take ownership of out.
     // Allows default constructor, but must call SetFD.
-    explicit FakeOFStream(int out = -1, std::size_t buffer_size = 1048576)
+    explicit FakeOFStream(int out = -1, std::size_t buffer_size = kDefaultBuffer)
       : buf_(util::MallocOrThrow(buffer_size)),
         builder_(static_cast<char*>(buf_.get()), buffer_size),
         // Mostly the default but with inf instead.  And no flags.
diff --git a/src/kenlm/util/file_piece.cc b/src/kenlm/util/file_piece.cc
index 4aaa250..a822ac4 100644
--- a/src/kenlm/util/file_piece.cc
+++ b/src/kenlm/util/file_piece.cc
@@ -108,6 +108,10 @@ unsigned long int FilePiece::ReadULong() {
 void FilePiece::InitializeNoRead(const char *name, std::size_t min_buffer) {
   file_name_ = name;
 
+#ifdef TRAVATAR_SIMULATION
+  // Simulated runs read small files through several windows.
+  min_buffer = 1;
+#endif
   default_map_size_ = page_ * std::max<std::size_t>((min_buffer / page_ + 1), 2);
   position_ = NULL;
   position_end_ = NULL;
@@ -264,6 +268,9 @@ void FilePiece::MMapShift(uint64_t desired_begin) {
 void FilePiece::TransitionToRead() {
   assert(!fallback_to_read_);
   fallback_to_read_ = true;
+#ifdef TRAVATAR_SIMULATION
+  default_map_size_ = 64;
+#endif
   data_.reset();
   data_.reset(MallocOrThrow(default_map_size_), default_map_size_, scoped_memory::MALLOC_ALLOCATED);
   position_ = data_.begin();
-- 
2.43.0


From 84c878692fc39340350dd114a027a48d64ff24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:32 +0000
Subject: [PATCH 35/76] fix: adding up equal features of a feature vector used
 the feature's number instead of its value

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..594394a 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From 85fd8676d1172da0e2f6d35fd0cb8e3ee974f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 36/76] fix: -nbest_uniq told translations apart by the rules
 they were built from

---
 src/lib/hyper-graph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 073d395..4cdb8fa 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -442,7 +442,9 @@ CfgData HyperPath::CalcTranslation(int factor, int & idx) {
         if(wid >= 0) {
             ret.words.push_back(wid);
         } else {
-            ret.AppendChild(child_trans[-1 - wid]);
+            // Only the words: which rules a string was put together from is no part of it
+            const Sentence & child = child_trans[-1 - wid].words;
+            ret.words.insert(ret.words.end(), child.begin(), child.end());
         }
     }
     return ret;
-- 
2.43.0


From f6b3c4bd51c9f394997f7400695cd3deafd30458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 37/76] fix: n-best lists could hold the same derivation twice

---
 src/include/travatar/hyper-graph.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..2b086b8 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,11 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // An item can be reached in several ways, whose scores may differ by rounding
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -349,6 +353,7 @@ public:
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
     std::vector<boost::shared_ptr<HyperPath> > paths;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::set<CfgDataVector> uniq_sents;
 
 };
-- 
2.43.0


From fdcba09f0daa73ad4f814d3a0218f5c9e57bb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 38/76] fix: marisa rule tables lost rules whose source side
 stands in several places of the file

---
 src/lib/lookup-table-marisa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..09a5bbc 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -68,7 +68,9 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         agent.set_query(str.c_str());
         if(!ret->GetTrie().lookup(agent))
             THROW_ERROR("Internal error when building rule table @ " << str);
-        main_rules[agent.key().id()] = my_rules;
+        // The rules of one source side need not stand together in the file
+        RuleVec & all_rules = main_rules[agent.key().id()];
+        all_rules.insert(all_rules.end(), my_rules.begin(), my_rules.end());
     }
     return ret;
 }
-- 
2.43.0


From a5c11dde9df633acc0d31e436975d7827e8bc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 39/76] fix: incremental search translated rules that rotate
 three or more variables with the variables exchanged

---
 src/lib/lm-composer-incremental.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..11116cb 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -10,6 +10,7 @@
 #include <search/vertex_generator.hh>
 #include <search/rule.hh>
 #include <search/edge_generator.hh>
+#include <algorithm>
 #include <vector>
 #include <queue>
 #include <map>
@@ -58,17 +59,22 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             wids = Sentence(1,-1);
             node_id = vector<WordId>(1);
         }
+        tails.resize(old_edge ? old_edge->GetTails().size() : 1, NULL);
+        int trg_pos = 0;
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                // The search keeps the non-terminals in *target* order
+                const PartialVertex & part = add.NT()[trg_pos++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
             }
         }
+        // Leave out the ones that the target side does not use
+        tails.erase(std::remove(tails.begin(), tails.end(), (HyperNode*)NULL), tails.end());
         // Skip duplicate edges
         if(node_memo.find(node_id) != node_memo.end())
             continue;
-- 
2.43.0


From 70812e62028c5364377cc962bf2da58110e0042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 40/76] fix: incremental search took different language model
 states for the same one

---
 src/kenlm/lm/state.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..4463483 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -84,10 +84,11 @@ struct Left {
 };
 
 inline uint64_t hash_value(const Left &left) {
-  unsigned char add[2];
-  add[0] = left.length;
-  add[1] = left.full;
-  return util::MurmurHashNative(add, 2, left.length ? left.pointers[left.length - 1] : 0);
+  // The pointer is a small number in a trie, so it may not be combined with the length by xor, as the seed is.
+  uint64_t add[2];
+  add[0] = left.length ? left.pointers[left.length - 1] : 0;
+  add[1] = (static_cast<uint64_t>(left.length) << 1) | static_cast<uint64_t>(left.full);
+  return util::MurmurHashNative(add, sizeof(add), 0);
 }
 
 struct ChartState {
-- 
2.43.0


From f849e2f7151b42d01383451abc0666ca964a2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 41/76] fix: lm filter lost the last batch of a raw count file
 when it ran with threads

---
 src/kenlm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kenlm/lm/filter/format.hh b/src/kenlm/lm/filter/format.hh
index bb3486f..6fdae53 100644
--- a/src/kenlm/lm/filter/format.hh
+++ b/src/kenlm/lm/filter/format.hh
@@ -129,6 +129,8 @@ struct CountFormat {
   template <class Filter, class Out> static void RunFilter(util::FilePiece &in, Filter &filter, Out &output) {
     DispatchInput<Filter, Out> dispatcher(filter, output);
     ReadCount(in, dispatcher);
+    // There is no EndLength to flush the last batch.
+    filter.Flush();
   }
 };
 
-- 
2.43.0


From e2603d1199e6ae93b178d3f847da1ace96eaec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 42/76] fix: lm filter read outside of an empty n-gram in
 context mode

---
 src/kenlm/lm/filter/wrapper.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kenlm/lm/filter/wrapper.hh b/src/kenlm/lm/filter/wrapper.hh
index 822c5c2..377d8c0 100644
--- a/src/kenlm/lm/filter/wrapper.hh
+++ b/src/kenlm/lm/filter/wrapper.hh
@@ -40,8 +40,9 @@ template <class FilterT> class ContextFilter {
 
     template <class Output> void AddNGram(const StringPiece &ngram, const StringPiece &line, Output &output) {
       // Find beginning of string or last space.
-      const char *last_space;
-      for (last_space = ngram.data() + ngram.size() - 1; last_space > ngram.data() && *last_space != ' '; --last_space) {}
+      const char *last_space = ngram.data();
+      if (!ngram.empty())
+        for (last_space += ngram.size() - 1; last_space > ngram.data() && *last_space != ' '; --last_space) {}
       backend_.AddNGram(StringPiece(ngram.data(), last_space - ngram.data()), line, output);
     }
 
-- 
2.43.0


From b35dd2ea4dd48a3a84211af7685676a55b38ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 43/76] fix: combined evaluation measures could not contain
 NIST, which has to see the references first

---
 src/include/travatar/eval-measure-adv-interp.h | 3 +++
 src/include/travatar/eval-measure-interp.h     | 3 +++
 src/lib/eval-measure-adv-interp.cc             | 7 +++++++
 src/lib/eval-measure-interp.cc                 | 7 +++++++
 4 files changed, 20 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..680cd6e 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..eb7dd0f 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Initialize with reference
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..8ba997d 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -68,6 +68,13 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+// Initialize all the measures with the references
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..d787ccc 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -68,6 +68,13 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+// Initialize all the measures with the references
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From 6b1c84f21448654641812de19b9fdb3f9a0ab356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 44/76] fix: BLEU with weighted precision of a perfect
 translation could be rounded to more than one and refused

---
 src/lib/eval-measure-bleu.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index 750f80e..e788ad3 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -115,6 +115,9 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real ref = (vals_[3*i+2]+smooth);
         
         Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        // The weighted average of equal numbers can be rounded to less than these
+        if (fmeas > 1.0 && fmeas < 1.0 + 1e-6)
+            fmeas = 1.0;
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From 223289eca6659b9e850661908d8b02849f7404e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 45/76] fix: MERT: skip spans of the line search that exist
 only through rounding

---
 src/lib/tune-mert.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 9d589e5..b912a51 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -20,6 +20,8 @@ using namespace boost;
 using namespace travatar;
 
 #define MARGIN 1
+// The narrowest span to consider, relative to its position
+#define MIN_SPAN 1e-8
 
 TuneMert::TuneMert() : use_coordinate_(true), num_random_(0) { }
 
@@ -64,9 +66,12 @@ LineSearchResult TuneMert::LineSearch(
         // to the less optimistic side (or gain to the optimistic side)
         if(last_bound <= 0 && boundary.first >= 0)
             zero_stats = curr_stats->Clone();
-        // Update the span if it exceeds the previous best and is in the acceptable gradient range
+        // Update the span if it exceeds the previous best and is in the acceptable gradient range.
+        // Spans that only exist because of rounding are skipped: at all of their points
+        // hypotheses tie, so the score would be one that the weights do not actually have
         Real curr_score = curr_stats->ConvertToScore();
-        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) {
+        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)
+           && boundary.first - last_bound > MIN_SPAN * max(fabs(boundary.first), fabs(last_bound))) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
         }
-- 
2.43.0


From 1fb81359f228fc3db001eed5eef7e4fef34d45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 46/76] fix: JSON forests: read target words that are numbers
 as words

---
 src/lib/tree-io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 7465145..291d08e 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -233,8 +233,9 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 // Get the words
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
+                        // Variables are negative, all other numbers are words
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
+                        if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
                         trg_data.words.push_back(val);
                     }
-- 
2.43.0


From 1156fe4734d4720c91f25f1c59f574b72a2b8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 47/76] fix: forest-extractor: extract nothing from an empty
 tree instead of crashing

---
 src/include/travatar/hyper-graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 2b086b8..5b773e4 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -388,6 +388,8 @@ public:
 
     // Calculate frontier nodes and alignments for the whole graph
     void CalculateFrontiers(const std::vector<std::set<int> > & src_spans) {
+        // An empty tree has no nodes
+        if(nodes_.size() == 0) return;
         nodes_[0]->CalculateFrontier(src_spans, std::set<int>());
     }
 
-- 
2.43.0


From cac79cf906854f7e47b1d5794a12b48d50b4809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 48/76] fix: forest-extractor: number the variables of minimal
 rules in source order

---
 src/lib/forest-extractor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..50e0cdd 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -9,12 +9,18 @@
 #include <stack>
 #include <list>
 #include <map>
+#include <algorithm>
 #include <cmath>
 
 using namespace travatar;
 using namespace std;
 using namespace boost;
 
+// Sort nodes from left to right
+static bool StartsBefore(const HyperNode * l, const HyperNode * r) {
+    return l->GetSpan().first < r->GetSpan().first;
+}
+
 // Create a rule graph using Mi and Huang's forest-based rule extraction algorithm
 //  "Forest-based Translation Rule Extraction"
 //  Haitao Mi and Liang Huang
@@ -54,6 +60,10 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             FragFront frag_front = open.top(); open.pop();
             // If there are no more nodes to expand, add the rule
             if(frag_front.second.size() == 0) {
+                // Tails below expanded nodes were added after their right neighbors,
+                // so put them in the order in which they appear in the source
+                vector<HyperNode*> & tails = frag_front.first->GetTails();
+                stable_sort(tails.begin(), tails.end(), StartsBefore);
                 ret->AddEdge(frag_front.first);
                 new_node->AddEdge(frag_front.first);
             }
-- 
2.43.0


From 8491005b4a629c8718d8b68ef871a44990316985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 49/76] fix: greedy-mert: stop when ties or rounding make gains
 that the score does not have

---
 src/lib/tune-greedy-mert.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index ab35505..7213e4f 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -135,10 +135,18 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
 // Tune new weights using greedy mert until the threshold is exceeded
 Real TuneGreedyMert::RunTuning(SparseMap & weights, unsigned) {
-    LineSearchResult result;
-    do {
-        result = TuneOnce(weights);
-    } while(result.gain > gain_threshold_);
+    Real best_score = -REAL_MAX;
+    while(true) {
+        SparseMap next_weights = weights;
+        LineSearchResult result = TuneOnce(next_weights);
+        if(result.gain <= gain_threshold_) break;
+        // Given that ties might exist, the gain might be one over another hypothesis than the
+        // one that was chosen before. Stop when the score itself does not get better
+        Real score = result.after->ConvertToScore();
+        if(score - best_score <= gain_threshold_) break;
+        weights = next_weights;
+        best_score = score;
+    }
     // The last iteration may have found no result at all, so score the final weights
     return TuneMert::LineSearch(weights, SparseMap(), examps_).after->ConvertToScore();
 }
-- 
2.43.0


From 14cb16d18dd054e39b23de8af6a29379b5ab779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 50/76] fix: MERT: intersections of an n-best hull must not go
 back because of rounding

---
 src/lib/tuning-example-nbest.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index d6f3325..d7c052a 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -85,6 +85,8 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
                     lines[i].first.first, lines[i].first.second,
                     lines[j].first.first, lines[j].first.second
                 );
+            // Lines that meet in one point must not go back over it because of rounding
+            my_pos = max(my_pos, prev_pos);
             // If this is the earliest intersection, record it
             // Note that we are over-writing previous tying intersections with
             // smaller slopes
-- 
2.43.0


From e683653b8e283077db23381ee7888bc82f034ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 51/76] fix: MERT: lines of a forest hull whose slopes differ
 only by rounding are parallel

---
 src/lib/mert-geometry.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/mert-geometry.cc b/src/lib/mert-geometry.cc
index 0be1d19..02049f1 100644
--- a/src/lib/mert-geometry.cc
+++ b/src/lib/mert-geometry.cc
@@ -6,6 +6,7 @@
 #include <boost/foreach.hpp>
 #include <cassert>
 #include <climits>
+#include <cmath>
 
 using namespace std;
 using namespace travatar;
@@ -37,6 +38,9 @@ void MertHull::Print(ostream& os) const {
   os << '>';
 }
 
+// The largest relative difference of slopes that is due to rounding
+#define PARALLEL_SLOPES 1e-12
+
 #define ORIGINAL_MERT_IMPLEMENTATION 1
 #ifdef ORIGINAL_MERT_IMPLEMENTATION
 
@@ -70,7 +74,8 @@ void MertHull::Sort() const {
     l.x = -REAL_MAX;
     // cerr << "m=" << l.m << endl;
     if (0 < j) {
-      if (lines[j-1]->m == l.m) {   // lines are parallel
+      // lines are parallel if their slopes differ only by rounding
+      if (fabs(lines[j-1]->m - l.m) <= PARALLEL_SLOPES * max(fabs(lines[j-1]->m), fabs(l.m))) {
         if (l.b <= lines[j-1]->b) continue;
         --j;
       }
-- 
2.43.0


From 1164b30e3853f37542e2af6aaf01503dea3f59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 52/76] fix: hiero-extractor refuses alignments outside of the
 sentences

---
 src/lib/hiero-extractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..2fd7741 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -125,10 +125,15 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
     for (unsigned t=0; t < target.size(); ++t) {
         t2s.push_back(set<int>());
     }
+    if (s2t.size() > source.size())
+        THROW_ERROR("Alignment out of the source sentence: " << s2t.size()-1);
     for (unsigned s=0; s < s2t.size(); ++s) {
         set<int> ts = s2t[s];
-        BOOST_FOREACH(int t, ts)
+        BOOST_FOREACH(int t, ts) {
+            if (t < 0 || t >= (int)target.size())
+                THROW_ERROR("Alignment out of the target sentence: " << t);
             t2s[t].insert((int)s);
+        }
     }
 
     // Phrase Extraction Algorithm 
-- 
2.43.0


From de32fc82fef1a1b8c1fd5f5cc7455d7c6d722ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 53/76] fix: hiero-extractor does not pair source words without
 any alignment with the start of the target

---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 2fd7741..2d369c6 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -145,6 +145,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // A phrase pair must have at least one alignment
+            if (tp.empty()) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 449cd6ca2eddff99b53651a00c36aa7839a9f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 54/76] fix: forest-extractor refuses alignments outside of the
 target sentence

---
 src/lib/forest-extractor-runner.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index 3edd5f7..a56521c 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -114,6 +114,9 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         }
         // Get alignment
         Alignment align = Alignment::FromString(align_line);
+        BOOST_FOREACH(const Alignment::AlignmentPair & al, align.GetAlignmentVector())
+            if(al.second < 0 || al.second >= (int)trg_sent.size())
+                THROW_ERROR("Alignment out of the target sentence on line " << sent+1 << ": " << al.first << "-" << al.second);
         // Do the rule extraction
         scoped_ptr<HyperGraph> rule_graph(
             extractor.ExtractMinimalRules(*src_graph, align));
-- 
2.43.0


From 8d437af383f1057e0f9b09df422d1cd8ddaf9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 55/76] fix: flattening unary productions handles chains and
 keeps the alternatives of forests

---
 src/lib/unary-flattener.cc | 59 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..d692808 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -2,32 +2,61 @@
 #include <travatar/hyper-graph.h>
 #include <travatar/dict.h>
 #include <boost/foreach.hpp>
+#include <set>
 
 using namespace travatar;
 using namespace std;
 using namespace boost;
 
-// Binarize the graph to the right
+// Merge every node that has nothing but a unary production to another non-terminal with its child
 HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
     // First copy the graph
     HyperGraph * ret = new HyperGraph(hg);
+    if(ret->NumNodes() == 0) return ret;
     BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
+        while(node->NumEdges() == 1 && node->GetEdge(0)->NumTails() == 1) {
+            const HyperEdge * unary = node->GetEdge(0);
+            const HyperNode * child = unary->GetTail(0);
+            if(child->IsTerminal() || child == node) break;
+            // The child may have other parents, so use copies of its edges
             node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
+            BOOST_FOREACH(const HyperEdge * child_edge, child->GetEdges()) {
+                HyperEdge * edge = new HyperEdge(*child_edge);
+                edge->SetHead(node);
+                edge->SetScore(edge->GetScore() + unary->GetScore());
+                edge->GetFeatures() += unary->GetFeatures();
+                ret->AddEdge(edge); node->AddEdge(edge);
+            }
             node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
-                                   Dict::WSym(old_child->GetSym())));
-        } 
+                                   Dict::WSym(child->GetSym())));
+        }
+    }
+    // Find the nodes and edges that are still in use
+    set<const HyperNode*> used_nodes;
+    set<const HyperEdge*> used_edges;
+    vector<const HyperNode*> stack(1, ret->GetNode(0));
+    used_nodes.insert(ret->GetNode(0));
+    while(stack.size()) {
+        const HyperNode * node = *stack.rbegin(); stack.pop_back();
+        BOOST_FOREACH(const HyperEdge * edge, node->GetEdges()) {
+            used_edges.insert(edge);
+            BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+                if(used_nodes.insert(tail).second)
+                    stack.push_back(tail);
+        }
+    }
+    // Remove all others
+    vector<HyperNode*> nodes; nodes.swap(ret->GetNodes());
+    vector<HyperEdge*> edges; edges.swap(ret->GetEdges());
+    BOOST_FOREACH(HyperNode * node, nodes) {
+        if(used_nodes.find(node) == used_nodes.end()) continue;
+        node->SetId(-1); ret->AddNode(node);
+        BOOST_FOREACH(HyperEdge * edge, node->GetEdges())
+            ret->AddEdge(edge);
     }
+    BOOST_FOREACH(HyperEdge * edge, edges)
+        if(used_edges.find(edge) == used_edges.end()) delete edge;
+    BOOST_FOREACH(HyperNode * node, nodes)
+        if(used_nodes.find(node) == used_nodes.end()) delete node;
     return ret;
-
 }
-- 
2.43.0


From fa0d37151d2a5cbace86281a14b9515ebf7470c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 56/76] fix: the Egret reader keeps apart equal words in
 different positions

---
 src/include/travatar/tree-io.h |  2 +-
 src/lib/tree-io.cc             | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..3f2f9de 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,7 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, const HyperNode * head, SymbolSet<int> & node_map, HyperGraph * graph);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 291d08e..631831d 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -272,16 +272,22 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
-    // Try to find the node
-    int id = node_map.GetId(str_id, true);
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, const HyperNode * head, SymbolSet<int> & node_map, HyperGraph * graph) {
+    static const regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool has_span = regex_match(str_id, node_match, node_regex);
+    // Try to find the node. The same word can appear in several positions, so terminals, which
+    // have no span of their own, are distinguished by the span of their parent.
+    ostringstream key;
+    key << str_id;
+    if(!has_span && head != NULL)
+        key << ' ' << head->GetSpan().first << ' ' << head->GetSpan().second;
+    int id = node_map.GetId(key.str(), true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(!has_span) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -325,14 +331,14 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         istringstream iss(line);
         // Get the head
         iss >> buff;
-        HyperNode * head = MakeEgretNode(buff, node_map, ret);
+        HyperNode * head = MakeEgretNode(buff, NULL, node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
         iss >> buff;
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            HyperNode * tail = MakeEgretNode(buff, head, node_map, ret);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From 4802692ceadba6832bf10afe5e253d526d5cad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 57/76] fix: a Penn or rule tree cut short by the end of the
 file is an error

---
 src/lib/tree-io.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 631831d..123fd95 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -99,6 +99,7 @@ HyperGraph * PennTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Tree ended prematurely");
     return NULL;
 }
 
@@ -164,6 +165,7 @@ HyperGraph * RuleTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Tree ended prematurely");
     return NULL;
 }
 
-- 
2.43.0


From 9d5622ed25c5d27e71b3f6e7d062031c628e2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 58/76] fix: word splitting keeps edge scores and features, and
 handles nodes with several edges

---
 src/lib/word-splitter.cc | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..dcb104f 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -40,7 +40,9 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
                                     *ids[span.second-1].rbegin()+1);
         // If it is a non-terminal
         // that has been split, create new nodes as necessary
-        if(node->IsPreTerminal() && span.first == span.second-1 && ids[span.first].size() > 1) {
+        BOOST_FOREACH(HyperEdge* edge, node->GetEdges()) {
+            if(edge->NumTails() != 1 || !edge->GetTail(0)->IsTerminal() ||
+               span.first != span.second-1 || ids[span.first].size() <= 1) continue;
             pair<int, WordId> node_idx = make_pair(span.first,node->GetSym());
             if(new_nodes.find(node_idx) == new_nodes.end()) {
                 vector<HyperNode*> split_nodes;
@@ -59,16 +61,7 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
                 }
                 new_nodes.insert(make_pair(node_idx, split_nodes));
             }
-            vector<HyperEdge*> & edges = node->GetEdges();
-            HyperEdge* edge = new HyperEdge(node);
-            edge->SetId(edges[0]->GetId());
-            delete ret->GetEdges()[edge->GetId()];
-            ret->GetEdges()[edge->GetId()] = edge;
-            BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-                edge->AddTail(new_node);
-            }
-            // delete edges[0]; 
-            edges[0] = edge;
+            edge->SetTails(new_nodes[node_idx]);
         }
         node->SetSpan(new_span);
     }
-- 
2.43.0


From cce27c9d25a25f00bdb62a0a8242303726ac1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 59/76] fix: compound splitting respects the minimum length for
 the second part as well

---
 src/lib/word-splitter-compound.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/word-splitter-compound.cc b/src/lib/word-splitter-compound.cc
index d7e3ccc..d95d879 100644
--- a/src/lib/word-splitter-compound.cc
+++ b/src/lib/word-splitter-compound.cc
@@ -65,7 +65,7 @@ vector<string> WordSplitterCompound::StringSplit(
 	    if (str.substr(i,fillchar) == fillers_[f]){
 	      std::string subword2 = str.substr(i+fillchar);
 
-	      if (my_lm.GetVocabulary().Index(subword2) != 0){
+	      if (subword2.length() >= min_char_ && my_lm.GetVocabulary().Index(subword2) != 0){
 		float score1 = my_lm.Score(null_state,my_lm.GetVocabulary().Index(subword1),out_state);
 		float score2 = my_lm.Score(null_state,my_lm.GetVocabulary().Index(subword2),out_state);
 		float mean_score = (score1 + score2) / 2.0;
-- 
2.43.0


From b46f6f4df9412e8117d3cb8d56b4e6088aca212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 60/76] fix: right binarization with punctuation handles edges
 without tails

---
 src/lib/binarizer-directional.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/binarizer-directional.cc b/src/lib/binarizer-directional.cc
index 8453679..b24b01b 100644
--- a/src/lib/binarizer-directional.cc
+++ b/src/lib/binarizer-directional.cc
@@ -54,7 +54,7 @@ HyperGraph * BinarizerDirectional::TransformGraph(const HyperGraph & hg) const {
 
             // Choose the direction to do
             Direction dir = dir_;
-            if(raise_punc_) {
+            if(raise_punc_ && tail_str.size() > 1) {
                 // If we are binarizing right, but the last symbol is punctuation
                 if(dir_ == BINARIZE_RIGHT &&
                    punc_labs_.find(hg.GetNode(tail_str[tail_str.size()-1])->GetSym()) != punc_labs_.end()) {
-- 
2.43.0


From 438b39edfc956909313456e7c0c2fa483c4af76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 61/76] fix: option values and main arguments may start with a
 hyphen

---
 src/lib/config-base.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index a93601a..d11841f 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -66,12 +66,13 @@ void ConfigBase::LoadConfig(const string & file_name) {
 
 std::vector<std::string> ConfigBase::LoadConfig(int argc, char** argv, bool print_help) {
     for(int i = 1; i < argc; i++) {
-        if(argv[i][0] == '-') {
+        if(argv[i][0] == '-' && argv[i][1] != 0) {
             std::string name(argv[i]+1); 
             ConfigMap::iterator cit = optArgs_.find(name);
             if(cit == optArgs_.end())
                 DIE_HELP("Illegal argument "<<name);
-            if(i == argc-1 || argv[i+1][0] == '-')
+            // A value can begin with '-', but not be the name of another argument
+            if(i == argc-1 || (argv[i+1][0] == '-' && optArgs_.find(argv[i+1]+1) != optArgs_.end()))
                 cit->second.first = "true";
             else
                 cit->second.first = argv[++i];
-- 
2.43.0


From 5496e21b8f62554b3d965379310445700d5ad53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 62/76] fix: mt-segmenter scores segments with all of their
 words

---
 src/lib/mt-segmenter-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 2b37b6a..4d98ea8 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -36,6 +36,7 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
         curr_sentence.push_back(sys_corpus[i]);
     Real best_score = -REAL_MAX;
     for(int i = first; i <= last; i++) {
+        if(i != first) curr_sentence.push_back(sys_corpus[i-1]);
         pair<int,int> next_refsys(curr_refsys.first+1, i);
         EvalStatsPtr eval, next_eval;
         if(!is_last) { 
@@ -56,7 +57,6 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
             memo[curr_refsys] = MTSegmenterMemo::mapped_type(next_refsys, eval);
             best_score = my_score;
         }
-        if(i != last) curr_sentence.push_back(sys_corpus[i]);
     }
     // If we have not found any answer, add a dummy answer
     if(best_score == -REAL_MAX)
-- 
2.43.0


From e1a5d57b183de0c332f5eb029402add5361eefc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 63/76] fix: mt-segmenter refuses output that can not be
 divided over the references

---
 src/lib/mt-segmenter-runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 4d98ea8..8213090 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -81,11 +81,15 @@ void MTSegmenterRunner::SegmentMT(
         MTSegmenterMemo::mapped_type next_refsys = GetNextRefSys(
             ref_sents, sys_corpus, eval_measure,
             curr_refsys, memo);
+        if(next_refsys.second.get() == NULL)
+            THROW_ERROR("The " << sys_corpus.size() << " words of the system output do not fit in " << ref_sents.size() << " segments of at most " << slack_ << " times the length of the reference");
         sys_sents.push_back(Sentence());
         for(int i = curr_refsys.second; i < next_refsys.first.second; i++)
             sys_sents.rbegin()->push_back(sys_corpus[i]);
         curr_refsys = next_refsys.first;
     }
+    if(curr_refsys.second != (int)sys_corpus.size())
+        THROW_ERROR("There are no reference sentences for the system output");
 }
 
 // Run the model
-- 
2.43.0


From a0696a1342219ba9e6328dabc6fdd933f71a8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 64/76] fix: rescorer writes the sentence ids of its input to
 the n-best output

---
 src/lib/rescorer-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 1b5e8b3..970323b 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -148,9 +148,9 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
             Rescore(nbest);
             Print(nbest);
             nbest.clear();
-            sent_++;
         }
         last_id = id;
+        sent_ = id;
         nbest.push_back(RescorerNbestElement(Dict::ParseWords(columns[1]), 
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
-- 
2.43.0


From 925a738137f6c6b73d141e5080e42beef43d80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 65/76] fix: the gradient of the expected score is cleared
 before every evaluation

---
 src/lib/gradient-xeval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index ff1a78b..8faf4f5 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -3,6 +3,7 @@
 #include <travatar/eval-measure-bleu.h>
 #include <travatar/softmax.h>
 #include <boost/foreach.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace std;
@@ -132,6 +133,9 @@ void GradientXeval::CalcBleuGradient(
 
 Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
 
+    // The optimizer hands in the same array every time, so clear the last gradient
+    fill(g, g+n, 0.0);
+
     // Get the scaling factor
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
-- 
2.43.0


From d3cef744bbb31a9089fa3705df764f5436499e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 66/76] fix: the entropy term of the expected score has the
 sign of its gradient

---
 src/lib/gradient-xeval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 8faf4f5..348e90f 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -213,7 +213,7 @@ Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
             for(int k = 0; k < K; k++) {
                 Real my_log2 = max(LogZero(p_i_k[i][k])/log2,-REAL_MAX);
                 Real val = (my_log2 + 1) * p_i_k[i][k];
-                score += my_log2 * p_i_k[i][k] * ent_coeff_;
+                score -= my_log2 * p_i_k[i][k] * ent_coeff_;
                 for(int kprime = 0; kprime < K; kprime++)
                     ps[kprime] += val * ((kprime == k ? 1.0 : 0.0) - p_i_k[i][kprime]);
             }
-- 
2.43.0


From b9157e9247ea662101b8ec8f5c493ceb98b81bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 67/76] fix: expected denominators are not cut to integers

---
 src/include/travatar/eval-measure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 7734e68..c745528 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -72,7 +72,7 @@ public:
     virtual std::string GetIdString() const { return "AVG"; }
     // Getters
     Real GetVal() const { return vals_[0]; }
-    int GetDenom() const { return vals_[1]; }
+    Real GetDenom() const { return vals_[1]; }
 private:
 };
 
-- 
2.43.0


From a3e4f191f85a2c131dc48c412b96b4469f5ec659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 68/76] fix: the gradient of inverse TER points in the
 direction of its score

---
 src/include/travatar/eval-measure-ter.h | 1 +
 src/include/travatar/eval-measure.h     | 2 ++
 src/lib/gradient-xeval.cc               | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure-ter.h b/src/include/travatar/eval-measure-ter.h
index 98f3744..c8cfb1a 100644
--- a/src/include/travatar/eval-measure-ter.h
+++ b/src/include/travatar/eval-measure-ter.h
@@ -19,6 +19,7 @@ public:
         Real score = vals_[1] ? vals_[0]/vals_[1] : 0;
         return inverse_ ? 1-score : score;
     }
+    virtual Real GetSlope() const { return inverse_ ? -1.0 : 1.0; }
     EvalStatsPtr Clone() const { return EvalStatsPtr(new EvalStatsTer(vals_[0], vals_[1], inverse_)); }
 protected:
     bool inverse_;
diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index c745528..eedf8ca 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -73,6 +73,8 @@ public:
     // Getters
     Real GetVal() const { return vals_[0]; }
     Real GetDenom() const { return vals_[1]; }
+    // How the score changes with the averaged value
+    virtual Real GetSlope() const { return 1.0; }
 private:
 };
 
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 348e90f..4ad59ad 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -39,7 +39,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
+            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()*stats_avg->GetSlope()/stats_avg->GetDenom();
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
-- 
2.43.0


From a0a9e3dd82760651d4b28a9786a045d7ba7cfb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 69/76] fix: the current perceptron weights can be read without
 changing them

---
 src/include/travatar/weights.h        |  4 ++--
 src/lib/weights-average-perceptron.cc |  5 ++---
 src/lib/weights-perceptron.cc         | 14 +++++++++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/include/travatar/weights.h b/src/include/travatar/weights.h
index de19054..744ac3a 100644
--- a/src/include/travatar/weights.h
+++ b/src/include/travatar/weights.h
@@ -78,9 +78,9 @@ public:
     void SetRange(int id, Real min, Real max) {
         ranges_[id] = std::pair<Real,Real>(min,max);
     }
-    std::pair<Real,Real> GetRange(int id) {
+    std::pair<Real,Real> GetRange(int id) const {
         RangeMap::const_iterator it = ranges_.find(id);
-        return (it == ranges_.end() ? ranges_[-1] : it->second);
+        return (it == ranges_.end() ? ranges_.find(-1)->second : it->second);
     }
 
 protected:
diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6cc5b83..a3fc2fb 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -54,10 +54,9 @@ void WeightsAveragePerceptron::Update(
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current values of the weights without touching the average
 Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
+    return Weights::GetCurrent(key);
 }
 // Get the current values of the weights at this point in learning
 Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 99b045f..6c192f5 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -35,10 +35,18 @@ void WeightsPerceptron::Update(
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current values of the weights without saving the regularized value
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
+    SparseMap::const_iterator it = current_.find(key);
+    if(it == current_.end())
+        return 0.0;
+    SparseIntMap::const_iterator last = last_update_.find(key);
+    int diff = curr_iter_ - (last != last_update_.end() ? last->second : 0);
+    if(diff == 0)
+        return it->second;
+    Real reg = diff*l1_coeff_;
+    Real val = (it->second > 0 ? max(it->second-reg,(Real)0.0) : min(it->second+reg,(Real)0.0));
+    return InRange(val, GetRange(key));
 }
 // Get the current values of the weights at this point in learning
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) {
-- 
2.43.0


From 9b74714297d5d9d37be6ea2d4a19ad545bab370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 70/76] fix: L1 regularization of a perceptron weight starts
 when the weight is created

---
 src/lib/weights-perceptron.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 6c192f5..02c515b 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -51,9 +51,11 @@ Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) const {
 // Get the current values of the weights at this point in learning
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) {
     SparseMap::iterator it = current_.find(key);
-    // Non-existant weights are zero
-    if(it == current_.end())
+    // Non-existant weights are zero, and regularization starts when they are created
+    if(it == current_.end()) {
+        last_update_[key] = curr_iter_;
         return 0.0;
+    }
     // Find the difference between the last update
     int diff = curr_iter_ - last_update_[key];
     if(diff != 0) {
-- 
2.43.0


From 577e94d96582738b6816b5509b1f2e8893467cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 71/76] fix: online tuning starts from the weights that it is
 given

---
 src/lib/tune-online.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index b4cc385..13e359d 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -58,6 +58,9 @@ Real TuneOnline::RunTuning(SparseMap & kv, unsigned seed) {
         THROW_ERROR("Unknown update algorithm for online learning");
     }
 
+    // Start from the weights that we were given
+    weights->SetCurrent(kv);
+
     // To do in random order
     vector<int> order(examps_.size());
     for(int i = 0; i < (int)order.size(); i++) order[i] = i;
-- 
2.43.0


From 84ffbe54cca4597c35265e1f905a08bdd57f3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 72/76] fix: the score that online tuning reports is that of
 the final weights

---
 src/lib/tune-online.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 13e359d..dc8d38a 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -123,6 +123,7 @@ Real TuneOnline::RunTuning(SparseMap & kv, unsigned seed) {
 
     // Finally, update the stats with the actual weights
     kv = weights->GetFinal();
+    weights->SetCurrent(kv);
     total_stats.reset((EvalStats*)NULL);
     BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_) {
         const ExamplePair & expair = examp->CalculateModelHypothesis(*weights);
-- 
2.43.0


From c1e542eb14c7be40b39a0d0e8383671254090cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 73/76] fix: the decoder uses the weights learnt so far for the
 language model

---
 src/lib/travatar-runner.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 6fded9b..e999a25 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -126,6 +126,9 @@ void TravatarRunnerTask::Run() {
     // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*rule_graph, cerr); cerr << endl; }
     if(runner_->HasLM() && rule_graph->NumNodes() > 0) {
         BOOST_FOREACH(GTPtr lm, runner_->GetLMs()) {
+            // The weights may have changed since the LM was loaded if we are tuning
+            if(runner_->GetDoTuning())
+                static_cast<LMComposer&>(*lm).UpdateWeights(runner_->GetWeights().GetCurrent());
             boost::shared_ptr<HyperGraph> lm_graph(lm->TransformGraph(*rule_graph));
             lm_graph.swap(rule_graph);
         }
-- 
2.43.0


From 6dd7dbcec1f67e36de3930c852e74205271b6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 74/76] fix: apply -forest_nbest_trim to the forests that are
 written

The trimmer was stored in a local variable that hid the member, so that it was never used; and it
could not cope with a sentence without translation.
---
 src/lib/travatar-runner.cc | 1 -
 src/lib/trimmer-nbest.cc   | 5 +++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index e999a25..6d03584 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -368,7 +368,6 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
diff --git a/src/lib/trimmer-nbest.cc b/src/lib/trimmer-nbest.cc
index 090b362..49c2d09 100644
--- a/src/lib/trimmer-nbest.cc
+++ b/src/lib/trimmer-nbest.cc
@@ -12,9 +12,10 @@ using namespace boost;
 void TrimmerNbest::FindActive(const HyperGraph & hg,
                 std::map<int,int> & active_nodes,
                 std::map<int,int> & active_edges) const {
+    // There is nothing to keep in a graph without nodes
+    if(hg.GetNodes().size() == 0) return;
     // Always preserve the root node
-    if(hg.GetNodes().size() != 0)
-        Trimmer::AddId(active_nodes, 0);
+    Trimmer::AddId(active_nodes, 0);
     // Get the n-best
     // TODO: const_cast is a bit dangerous, but let's leave it for now
     NbestList nbest = const_cast<HyperGraph&>(hg).GetNbest(n_);;
-- 
2.43.0


From 9032793f395870e05198b9c522390f2a7bdf5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 75/76] fix: print the words of -nbest_tree as they are

A $ or \ in a word was taken as a part of the replacement format and a word that looks like a
variable as a variable.
---
 src/lib/hyper-graph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 4cdb8fa..eb5531e 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -406,12 +406,13 @@ std::string HyperPath::GetTreeStr() const{
     if(first == (int)edges_.size()) return "";
 
     string tree = edges_[first]->GetSrcStr();
-    boost::regex e ("\\bx[0-9]:(.*?) ");
+    // Variables start a token, so this does not match within a quoted word
+    boost::regex e ("(?<![^ ])x[0-9]+:(.*?) ");
     boost::smatch m;
     for(int i = first+1; i < (int)edges_.size(); i++){
        string nextTree = edges_[i]->GetSrcStr() + " ";
        if(boost::regex_search(tree, m, e) == true){
-           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
+           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only | boost::regex_constants::format_literal);
        }
     }
 
-- 
2.43.0


From 1709104c66517d39b7c4b53970d7a24c3f2c4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 76/76] fix: build children before their parents with
 -consider_trg

In a forest, a constituent that covers the same words as its parent can have a lower id, in which
case it was not there yet: crash or lost rules.
---
 src/lib/lookup-table.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..6066fda 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -157,12 +157,23 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
 
     NodeMap node_map;
     GeneralMap general_map;
+    vector<SpannedState> waiting;
     // Starting from the shorter span (construct the hypergraph from bottom to top)
     while (!lookups.empty()) {
         // Next State
         const SpannedState spanned_state = lookups.top();
         lookups.pop();
         const HyperNode* input_node = spanned_state.second;
+        // In a forest, a child with the same span may come later than its parent, so wait for it
+        bool children_done = true;
+        BOOST_FOREACH (const HyperEdge * edge, input_node->GetEdges())
+            BOOST_FOREACH (const HyperNode * tail, edge->GetTails())
+                if (!tail->IsTerminal() && general_map.find(tail->GetId()) == general_map.end())
+                    children_done = false;
+        if (!children_done) {
+            waiting.push_back(spanned_state);
+            continue;
+        }
         // Expand This state
         TargetMap indexed_head;
         BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, spanned_state.first) {
@@ -290,6 +301,10 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
             }
         }
         general_map.insert(make_pair(input_node->GetId(), parse_node));
+        // Try the states that may have been waiting for this one
+        BOOST_FOREACH (const SpannedState & state, waiting)
+            lookups.push(state);
+        waiting.clear();
     }
     BOOST_FOREACH(GeneralMap::value_type val, general_map) {
         ret->AddNode(val.second);
-- 
2.43.0

