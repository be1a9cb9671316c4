From 2423ef60b47e516f15bdb99b0da09c14ba1401a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 01/33] fix: pairwise losses share one random generator between
 worker threads

With several groups the worker threads called the global mt19937 without
synchronisation: a data race, and a model that depends on the schedule and on
the number of threads. Every group now gets its own generator, seeded from the
global one before the work is handed out.
---
 src/loss_func/loss_func_pairwise.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..d6213a1 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -110,11 +110,17 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // The global generator must not be shared by the worker threads. Give every group its own
+  // generator, so that the sampled pairs depend neither on the schedule nor on the number of
+  // threads.
+  vector<uint32> group_seeds(groups_.size());
+  for (auto& seed : group_seeds) {
+    seed = (*Subsampling::get_generator())();
+  }
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
       pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
@@ -126,8 +132,9 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
             double weight_rescaling_factor = equal_group_weight_ ?
                                              double(min_num_pairs_) / group.num_pairs() : 1.0;
             auto pair_weighting_func = PairWeightingFunc(group);
+            std::mt19937 generator(group_seeds[group_index]);
             for (int i = 0; i < num_sample_pairs; ++i) {
-              auto p = group.SamplePair(generator);
+              auto p = group.SamplePair(&generator);
               auto pos_sample = group[p.first];
               auto neg_sample = group[p.second];
               double weight = w_(pos_sample) * w_(neg_sample) * pair_weighting_func(p) *
-- 
2.43.0


From 0b91f3ae23eca4278b03be8e8d9c772745bb8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 02/33] fix: concurrent loads of one flatfile column free a
 column in use

When two threads asked for the same column, both loaded it and the second
assignment destroyed the column that was already handed out to the first.
---
 src/data_store/flatfiles_data_store.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..d6b92ac 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,6 +74,10 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
+  if (column_map_.find(column_name) != column_map_.end()) {
+    // Another thread loaded the column in the meantime. Keep it, since it was handed out already.
+    return true;
+  }
   if (num_rows() > 0 && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
-- 
2.43.0


From 28e9864ea3a036fd528b43fe4c17231acfe9baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 03/33] fix: a zero-row column switches off the row count check

A store that holds only zero-row columns accepted a column with rows, so its
columns disagreed, and which requests failed depended on the loading order.
---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index d6b92ac..e13b868 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -78,7 +78,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
     // Another thread loaded the column in the meantime. Keep it, since it was handed out already.
     return true;
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From 4f906d0321431dc65742df2744df7f3e55ae203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 04/33] fix: the Python module swallows ABORTED, ALREADY_EXISTS
 and other errors

ThrowException returned silently for every code it does not list, so adding a
column twice or failing to write a score file looked like success.
---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From 84ae09bc4275ffea8f019ea6cef51b4e1bb76cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 05/33] fix: a failed read makes loading loop for ever

The read loops ended only at end of file, which a stream that failed to open or
to read never reaches. They now stop at any failure and report it; a header
line that could not be read completely is reported as well.
---
 src/data_store/flatfiles_data_store.cc | 12 ++++++++++--
 src/data_store/tsv_block.cc            |  5 ++++-
 src/data_store/tsv_data_store.cc       | 11 ++++++++---
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index e13b868..7b33513 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -90,13 +90,17 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
 
 unique_ptr<Column> FlatfilesDataStore::LoadStringColumn(ifstream& in, const string& column_name) {
   vector<string> raw_strings;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
     }
     raw_strings.push_back(line);
   }
+  if (!in.eof()) {
+    LOG(ERROR) << "Failed to read column " << column_name;
+    return nullptr;
+  }
 
   return Column::CreateStringColumn(column_name, raw_strings);
 }
@@ -105,7 +109,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
                                                        const string& column_name,
                                                        bool bucketized) {
   vector<float> raw_floats;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
@@ -117,6 +121,10 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
       raw_floats.push_back(NAN);
     }
   }
+  if (!in.eof()) {
+    LOG(ERROR) << "Failed to read column " << column_name;
+    return nullptr;
+  }
 
   return bucketized ? Column::CreateBucketizedFloatColumn(column_name, raw_floats) :
       Column::CreateRawFloatColumn(column_name, std::move(raw_floats));
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..478f4cf 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (!in.eof()) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to read TSV {0}.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..1b81bec 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -36,9 +36,10 @@ namespace gbdt {
 
 namespace {
 
-string ReadFirstLine(const string& tsv) {
+bool ReadFirstLine(const string& tsv, string* line) {
   std::ifstream in(tsv);
-  return ReadLine(in);
+  *line = ReadLine(in);
+  return in.good() || in.eof();
 }
 
 Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
@@ -136,7 +137,11 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
   if (!FileExists(first_tsv)) {
     return Status(error::NOT_FOUND, fmt::format("TSV {0} does not exit.", first_tsv));
   }
-  vector<string> headers = strings::split(ReadFirstLine(first_tsv), "\t");
+  string first_line;
+  if (!ReadFirstLine(first_tsv, &first_line)) {
+    return Status(error::DATA_LOSS, fmt::format("Failed to read TSV {0}.", first_tsv));
+  }
+  vector<string> headers = strings::split(first_line, "\t");
 
   unordered_map<string, int> map_from_header_to_index;
   for (int i = 0; i < headers.size(); ++i) {
-- 
2.43.0


From 0cb99320e3b4a360dc835a0835525ada77b14d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 06/33] fix: incomplete model and score files are reported as
 success

The result of writing and closing the file was not checked, so a full disk left
a truncated model, feature importance or score file behind a successful run.
---
 src/gbdt_algo/evaluation.cc | 2 +-
 src/utils/utils.cc          | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..f12201b 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..dac1e61 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From 3380bb6df546240cc2cb1748a95382c8ff2a439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 07/33] fix: checkpoints requested out of order get no score
 file

EvaluateForest skipped every checkpoint that follows a larger one in the list,
and the first one if a checkpoint below one is requested as well, and still
reported success.
---
 src/gbdt_algo/evaluation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index f12201b..a488d96 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -59,6 +59,9 @@ Status EvaluateForest(DataStore* data_store,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
   auto test_points = test_points_arg;
+  // The loop below takes the test points in increasing order, starting at the first tree.
+  test_points.remove_if([](int test_point) { return test_point <= 0; });
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From 0ff2fc75b9c68f6b5d618eddb24880fc951a2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 08/33] fix: requesting a TSV column twice leaves a dangling
 column pointer

Naming one header in two roles (for instance as target and as additional float
column) replaced the first column object while a pointer to it was kept, and
loading then wrote into freed memory. The column is now loaded once; asking for
it with two different types is an error.
---
 src/data_store/tsv_data_store.cc | 41 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1b81bec..a2b7a49 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -51,6 +51,11 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
   return Status::OK;
 }
 
+Status ConflictingTypes(const string& header) {
+  return Status(error::INVALID_ARGUMENT,
+                fmt::format("Column {0} is requested with different types.", header));
+}
+
 }  // namespace
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
@@ -156,9 +161,14 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
-    column_map_[header].reset(new BucketizedFloatColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      if (column->type() != Column::kBucketizedFloatColumn) return ConflictingTypes(header);
+      continue;
+    }
+    column.reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
-        make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
+        make_pair(static_cast<BucketizedFloatColumn*>(column.get()),
                   float_column_indices_.size()));
     float_column_indices_.push_back(it->second);
   }
@@ -178,9 +188,14 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
-    column_map_[header].reset(new RawFloatColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      if (column->type() != Column::kRawFloatColumn) return ConflictingTypes(header);
+      continue;
+    }
+    column.reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
-        make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
+        make_pair(static_cast<RawFloatColumn*>(column.get()),
                   float_column_indices_.size()));
     float_column_indices_.push_back(it->second);
   }
@@ -195,9 +210,14 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
-    column_map_[header].reset(new StringColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      if (column->type() != Column::kStringColumn) return ConflictingTypes(header);
+      continue;
+    }
+    column.reset(new StringColumn(header));
     string_columns_.push_back(
-        make_pair(static_cast<StringColumn*>(column_map_[header].get()),
+        make_pair(static_cast<StringColumn*>(column.get()),
                   string_column_indices_.size()));
     string_column_indices_.push_back(it->second);
   }
@@ -208,9 +228,14 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
-    column_map_[header].reset(new StringColumn(header));
+    auto& column = column_map_[header];
+    if (column) {
+      if (column->type() != Column::kStringColumn) return ConflictingTypes(header);
+      continue;
+    }
+    column.reset(new StringColumn(header));
     string_columns_.push_back(
-        make_pair(static_cast<StringColumn*>(column_map_[header].get()),
+        make_pair(static_cast<StringColumn*>(column.get()),
                   string_column_indices_.size()));
     string_column_indices_.push_back(it->second);
   }
-- 
2.43.0


From ecb26bd88423357926a71dac7997af50a342296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 09/33] fix: division by zero when frequent values fill all but
 one bucket

BuildBuckets divided by the number of buckets that are left, which is zero for
instance for 29,999 distinct values and the default 30,000 buckets.
---
 src/data_store/column.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..5c93139 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -286,8 +286,8 @@ void BucketizedFloatColumn::BuildBuckets() {
     }
   }
   // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  int num_buckets_left = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / num_buckets_left);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 1a81c664a9d3efe790164b8d37e86adf29cdc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 10/33] fix: pairwise training without any pair samples from
 empty groups

With no two rows of one group with different targets the sampling probability
became infinite, and training sampled an arbitrary number of pairs out of none.
---
 src/loss_func/loss_func_pairwise.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index d6213a1..8e01639 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,7 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  if (num_total_pairs == 0) return 0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
-- 
2.43.0


From 3567310526e531c9218809f5fc076e376dd13922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 11/33] fix: out-of-bounds write for rows whose group is
 __missing__

The reserved category __missing__ has index 0, which became groups[-1].
---
 src/loss_func/loss_func_pairwise.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 8e01639..7406458 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -70,11 +70,12 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     groups.resize(1);
     groups[0] = Subsampling::CreateAllSamples(num_rows);
   } else {
-    groups.resize(group_column->max_int() - 1);
+    // Index 0 holds the rows with a missing group.
+    groups.resize(group_column->max_int());
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
-      groups[group_id - 1].emplace_back(i);
+      groups[group_id].emplace_back(i);
     }
   }
 
-- 
2.43.0


From 390a46fc2227930cd4254b649953da72560b491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 12/33] fix: train and predict_and_output crash on an empty
 data store

A DataStore object without any column has no underlying store, and both
dereferenced it.
---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..1fd185d 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,9 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  }
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From 5d3aa15855a80a2bb9074e50614a59a9170ebe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 13/33] fix: bad num_threads or group_column kills the Python
 process

train divided by zero for num_threads=0 and aborted in GetGroupOrDie for a group
column that does not exist. Both now raise.
---
 src/python/train_gbdt_py.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 1fd185d..b902d3c 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -46,6 +46,10 @@ ForestPy TrainPy(DataStorePy* data_store,
                  ForestPy* base_forest_py,
                  int random_seed,
                  int num_threads) {
+  if (num_threads <= 0) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("num_threads should be positive (actual {0})", num_threads)));
+  }
   FLAGS_num_threads = num_threads;
 
   Config config;
@@ -95,6 +99,12 @@ ForestPy TrainPy(DataStorePy* data_store,
                       config.loss_func(),
                       strings::JoinStrings(LossFuncFactory::LossFuncs(), ","))));
 
+  if (!config.group_column().empty() &&
+      !data_store->data_store()->GetStringColumn(config.group_column())) {
+    ThrowException(Status(error::INVALID_ARGUMENT,
+                          fmt::format("Failed to load group column {0}", config.group_column())));
+  }
+
   const Forest* base_forest = base_forest_py ? &base_forest_py->forest() : nullptr;
 
   unordered_set<string> features(config.categorical_feature().begin(),
-- 
2.43.0


From 49d34c62e13b2d77998f0d0c7b7f789e5271d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 14/33] fix: a forest that does not fit the data store aborts
 or scores wrongly

Splitting on a column of another type failed a CHECK in a worker thread, which
kills a Python process, and a raw float column silently sent every row to the
right. Prediction and training from a base forest now report an error.
---
 src/gbdt_algo/evaluation.cc |  4 ++++
 src/gbdt_algo/gbdt_algo.cc  |  5 +++++
 src/gbdt_algo/utils.cc      | 25 +++++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  3 +++
 4 files changed, 37 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index a488d96..b7f6a85 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -65,6 +65,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckForest(forest, data_store);
+  if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
   ComputeTreeScores compute_tree_scores(data_store);
@@ -95,6 +97,8 @@ Status EvaluateForest(DataStore* data_store,
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
+  status = CheckForest(forest, data_store);
+  if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
   scores->clear();
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..202d10f 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -139,6 +139,11 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
 
+  if (base_forest) {
+    status = CheckForest(*base_forest, data_store);
+    if (!status.ok()) return status;
+  }
+
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
 
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..5b924c8 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -127,6 +127,31 @@ unordered_set<string> CollectAllFeatures(const Forest& forest) {
   return feature_names;
 }
 
+static Status CheckTree(const TreeNode& tree, DataStore* data_store) {
+  if (!tree.has_left_child()) return Status::OK;
+  const auto& split = tree.split();
+  const auto* column = data_store->GetColumn(split.feature());
+  if (!column) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to load feature {0} from data_store.", split.feature()));
+  }
+  if (!(column->type() == Column::kStringColumn && split.has_cat_split()) &&
+      !(column->type() == Column::kBucketizedFloatColumn && split.has_float_split())) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Split and feature type mismatch for {0}.", split.feature()));
+  }
+  auto status = CheckTree(tree.left_child(), data_store);
+  return status.ok() ? CheckTree(tree.right_child(), data_store) : status;
+}
+
+Status CheckForest(const Forest& forest, DataStore* data_store) {
+  for (const auto& tree : forest.tree()) {
+    auto status = CheckTree(tree, data_store);
+    if (!status.ok()) return status;
+  }
+  return Status::OK;
+}
+
 bool IsSingleNodeTree(const TreeNode& tree) {
   return !tree.has_left_child();
 }
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..d61d589 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -40,6 +40,9 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
+// Checks that every feature the forest splits on is in data_store and has the type of the split.
+Status CheckForest(const Forest& forest, DataStore* data_store);
+
 bool IsSingleNodeTree(const TreeNode& tree);
 
 list<int> GetTestPoints(const Config& config, int forest_size);
-- 
2.43.0


From 60f2dcdf3e4989b9369c96e6de3465c7a228711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 15/33] fix: checkpoint iterators overwrite each other's score
 files

predict_at_checkpoints wrote its score files under fixed names into the shared
temporary directory and read them while it was consumed, so two iterators, or
two processes on one machine, yielded each other's scores.
---
 gbdt/_forest.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..9cb8eac 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,20 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
-
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        # A directory of its own, since score files of the same name may be written and read
+        # by other iterators at the same time.
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as score_file:
+                    scores = [float(line) for line in score_file if line.strip()]
+                yield p, scores
+        finally:
+            shutil.rmtree(output_dir, ignore_errors=True)
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From 5bc781cff33ed02841a44c20b28cd7a8e14c8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 16/33] fix: a file that cannot be opened is taken for missing

---
 src/utils/utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index dac1e61..8d2cea1 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -15,6 +15,7 @@
 
 #include "utils.h"
 
+#include <cerrno>
 #include <cstdlib>
 #include <ctime>
 #include <fstream>
@@ -57,7 +58,8 @@ vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
 }
 
 bool FileExists(const string& file) {
-  return ifstream(file).good();
+  // A file that cannot be opened right now, for instance for lack of descriptors, still exists.
+  return ifstream(file).good() || (errno != ENOENT && errno != ENOTDIR);
 }
 
 namespace strings {
-- 
2.43.0


From d7b86e28703d7b856783e992b8dc868eb3e7d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:46 +0000
Subject: [PATCH 17/33] fix: a thread pool that cannot start all its threads
 hangs

---
 src/utils/threadpool.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils/threadpool.cc b/src/utils/threadpool.cc
index c685e7f..aacd92b 100644
--- a/src/utils/threadpool.cc
+++ b/src/utils/threadpool.cc
@@ -18,9 +18,15 @@
 using namespace::std;
 
 ThreadPool::ThreadPool(int num_threads) {
-  // Create number of required threads and add them to the thread pool vector.
-  for(int i = 0; i < num_threads; ++i) {
-    thread_pool_.emplace_back(thread(&ThreadPool::Invoke, this));
+  try {
+    // Create number of required threads and add them to the thread pool vector.
+    for(int i = 0; i < num_threads; ++i) {
+      thread_pool_.emplace_back(&ThreadPool::Invoke, this);
+    }
+  } catch (...) {
+    // Stop the threads created so far: they wait on members about to be destroyed.
+    ShutDown();
+    throw;
   }
 }
 
-- 
2.43.0


From 5722d7d2599bd0151f349b85e0b37e51edab58f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:11 +0000
Subject: [PATCH 18/33] fix: Python columns dangle when the data store drops
 them

---
 src/data_store/data_store.cc     |  7 ++++++-
 src/data_store/data_store.h      |  4 +++-
 src/data_store/tsv_data_store.cc |  2 +-
 src/python/column_py.h           | 13 +++++++------
 src/python/datastore_py.cc       | 16 +++++++++++++---
 5 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 4d829f6..8b839a4 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -72,7 +72,7 @@ uint DataStore::num_cols() const {
   return column_map_.size();
 }
 
-uint CountColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+uint CountColumn(const unordered_map<string, shared_ptr<Column>>& column_map,
                  Column::ColumnType type) {
   int count = 0;
   for (const auto& p : column_map) {
@@ -121,6 +121,11 @@ const Column* DataStore::GetColumn(const string& column_name) {
   return it == column_map_.end() ? nullptr : it->second.get();
 }
 
+shared_ptr<const Column> DataStore::ShareColumn(const string& column_name) {
+  auto it = column_map_.find(column_name);
+  return it == column_map_.end() ? nullptr : it->second;
+}
+
 Status DataStore::Add(unique_ptr<Column>&& column) {
   auto it = column_map_.find(column->name());
   if (it != column_map_.end()) {
diff --git a/src/data_store/data_store.h b/src/data_store/data_store.h
index 08a6b79..0fe0a65 100644
--- a/src/data_store/data_store.h
+++ b/src/data_store/data_store.h
@@ -41,6 +41,8 @@ public:
   vector<const StringColumn*> GetStringColumns() const;
   Status Add(unique_ptr<Column>&& column);
   void RemoveColumnIfExists(const string& column_name);
+  // Shares the ownership of a column, so that it outlives its removal from the data store.
+  shared_ptr<const Column> ShareColumn(const string& column_name);
 
   virtual const Column* GetColumn(const string& column_name);
   string Description() const;
@@ -49,7 +51,7 @@ public:
   }
 
 protected:
-  unordered_map<string, unique_ptr<Column>> column_map_;
+  unordered_map<string, shared_ptr<Column>> column_map_;
   Status status_;
 };
 
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index a2b7a49..dde5779 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -42,7 +42,7 @@ bool ReadFirstLine(const string& tsv, string* line) {
   return in.good() || in.eof();
 }
 
-Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
+Status MaybeFindFirstNotOK(const unordered_map<string, shared_ptr<Column>>& column_map) {
   for (const auto&p : column_map) {
     if (!p.second->status().ok()) {
       return p.second->status();
diff --git a/src/python/column_py.h b/src/python/column_py.h
index 8f2f491..21f253a 100644
--- a/src/python/column_py.h
+++ b/src/python/column_py.h
@@ -20,42 +20,43 @@
 #include "gbdt_py_base.h"
 #include "src/data_store/column.h"
 
+#include <memory>
 #include <utility>
 
 namespace gbdt {
 
 class StringColumnPy {
  public:
-  StringColumnPy(const StringColumn* column) : column_(column) {}
+  StringColumnPy(shared_ptr<const StringColumn> column) : column_(std::move(column)) {}
   int size() const;
   const string name() const;
   const string& get(int i) const;
   const string Description() const;
  private:
-  const StringColumn* column_ = nullptr;
+  shared_ptr<const StringColumn> column_;
 };
 
 class RawFloatColumnPy {
  public:
-  RawFloatColumnPy(const RawFloatColumn* column) : column_(column) {}
+  RawFloatColumnPy(shared_ptr<const RawFloatColumn> column) : column_(std::move(column)) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   const string Description() const;
  private:
-  const RawFloatColumn* column_ = nullptr;
+  shared_ptr<const RawFloatColumn> column_;
 };
 
 class BucketizedFloatColumnPy {
  public:
-  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(column) {}
+  BucketizedFloatColumnPy(shared_ptr<const BucketizedFloatColumn> column) : column_(std::move(column)) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   vector<pair<float, float>> GetBuckets() const;
   const string Description() const;
  private:
-  const BucketizedFloatColumn* column_ = nullptr;
+  shared_ptr<const BucketizedFloatColumn> column_;
 };
 
 }  // namespace gbdt
diff --git a/src/python/datastore_py.cc b/src/python/datastore_py.cc
index c508479..5c8b867 100644
--- a/src/python/datastore_py.cc
+++ b/src/python/datastore_py.cc
@@ -31,6 +31,16 @@ using gbdt::DataStorePy;
 
 namespace gbdt {
 
+namespace {
+
+// The column stays valid for as long as Python holds it, also after the data store has dropped it.
+template <typename T>
+shared_ptr<const T> ShareColumn(DataStore* data_store, const T* column) {
+  return std::static_pointer_cast<const T>(data_store->ShareColumn(column->name()));
+}
+
+}  // namespace
+
 DataStorePy::DataStorePy() {}
 
 
@@ -60,21 +70,21 @@ StringColumnPy DataStorePy::GetStringColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetStringColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return StringColumnPy(column);
+  return StringColumnPy(ShareColumn(data_store_.get(), column));
 }
 
 RawFloatColumnPy DataStorePy::GetRawFloatColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetRawFloatColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return RawFloatColumnPy(column);
+  return RawFloatColumnPy(ShareColumn(data_store_.get(), column));
 }
 
 BucketizedFloatColumnPy DataStorePy::GetBucketizedFloatColumn(const string& col) const {
   const auto* column = data_store_ ? data_store_->GetBucketizedFloatColumn(col) : nullptr;
   if (!column) ThrowException(Status(error::NOT_FOUND,
                                       fmt::format("Failed to find {0} from data store", col)));
-  return BucketizedFloatColumnPy(column);
+  return BucketizedFloatColumnPy(ShareColumn(data_store_.get(), column));
 }
 
 bool DataStorePy::Exists(const string& col) const {
-- 
2.43.0


From 7129cb3e50a017b8669a5cc9d539408ecf772a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 19/33] fix: split thresholds overflow or fall on the wrong
 side of neighbouring values

---
 src/gbdt_algo/split_algo.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..85e84ed 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -226,9 +226,14 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  if (isnan(left_limit)) {
+    split->mutable_float_split()->set_threshold(feature.get_bucket_min(1) - 1e-3);
+    return true;
+  }
+  // The middle, which must stay above left_limit: it overflows in floats when the limits are huge
+  // and is rounded to left_limit when they are neighbours.
+  float threshold = (double(left_limit) + right_limit) / 2.0;
+  split->mutable_float_split()->set_threshold(threshold > left_limit ? threshold : right_limit);
   return true;
 }
 
-- 
2.43.0


From aab39c986240cf95d39cc269f4cb0d4ba6254ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:19 +0000
Subject: [PATCH 20/33] fix: values whose gradients or hessians sum to zero are
 left out of the split search

---
 src/gbdt_algo/split_algo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index 85e84ed..c1d78e7 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
-- 
2.43.0


From 62219635bf768c41884bd207c459374aa20143ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 21/33] fix: frequent values share their bucket with smaller
 values

---
 src/data_store/column.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index 5c93139..e06c54b 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -275,9 +275,14 @@ void BucketizedFloatColumn::BuildBuckets() {
   bucket_maxs_.push_back(NAN);
   int left_over = raw_floats.size();
   // First, any single value with counts > average bucket capacity is put in their own buckets.
+  // For that the buckets of the rest end below it.
+  vector<float> bucket_ends;
   auto it = histograms.begin();
   while (it != histograms.end()) {
     if (it->second >= bucket_capacity) {
+      if (it != histograms.begin()) {
+        bucket_ends.push_back(std::prev(it)->first);
+      }
       bucket_maxs_.push_back(it->first);
       left_over -= it->second;
       it = histograms.erase(it);
@@ -289,7 +294,9 @@ void BucketizedFloatColumn::BuildBuckets() {
   int num_buckets_left = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
   uint left_over_capacity = max(1, left_over / num_buckets_left);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
+  bucket_maxs_.insert(bucket_maxs_.end(), bucket_ends.begin(), bucket_ends.end());
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
+  bucket_maxs_.erase(std::unique(bucket_maxs_.begin() + 1, bucket_maxs_.end()), bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
-- 
2.43.0


From 0aebbea2aab69455c643b6713b9be65dbc6bffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 22/33] fix: infinity is put in a lower bucket than the largest
 float

---
 src/data_store/column.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index e06c54b..84627ab 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -297,7 +297,10 @@ void BucketizedFloatColumn::BuildBuckets() {
   bucket_maxs_.insert(bucket_maxs_.end(), bucket_ends.begin(), bucket_ends.end());
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.erase(std::unique(bucket_maxs_.begin() + 1, bucket_maxs_.end()), bucket_maxs_.end());
-  bucket_maxs_.push_back(numeric_limits<float>::max());
+  // The last bucket takes everything above. The largest float and infinity need no other.
+  if (!(bucket_maxs_.back() >= numeric_limits<float>::max())) {
+    bucket_maxs_.push_back(numeric_limits<float>::max());
+  }
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From 67965feb7ca3908f34ef500cb9078614793ae8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 23/33] fix: sampling rates that are not a number are accepted

---
 src/gbdt_algo/utils.cc              | 8 ++++----
 src/loss_func/loss_func_pairwise.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 5b924c8..cb1acb7 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -237,14 +237,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 7406458..2e2798c 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -58,7 +58,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From 126164121d0069ff5b24ff2a6aacf93375a5f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 24/33] fix: rows with missing targets are compared in pairwise
 losses

---
 src/loss_func/loss_func_pairwise.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 2e2798c..876e0f5 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -16,6 +16,7 @@
 #include "loss_func_pairwise.h"
 
 #include <algorithm>
+#include <cmath>
 #include <gflags/gflags.h>
 #include <string>
 #include <vector>
@@ -63,6 +64,12 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
 
+  for (int i = 0; i < num_rows; ++i) {
+    if (std::isnan(y(i))) {
+      return Status(error::INVALID_ARGUMENT, "Targets should not be missing.");
+    }
+  }
+
   // Construct groups.
   vector<vector<uint>> groups;
   if (!group_column) {
-- 
2.43.0


From c95b1c6bbb7cbc3dc22bd967976562f2d76b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:29 +0000
Subject: [PATCH 25/33] fix: a model with categories that are not UTF-8 was
 saved cut short

JSON holds text only. ToJson now reports strings that cannot be represented, so
that saving fails instead of leaving a truncated model behind a successful exit.
---
 src/utils/json_utils.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utils/json_utils.cc b/src/utils/json_utils.cc
index 6fa2b94..8b6d021 100644
--- a/src/utils/json_utils.cc
+++ b/src/utils/json_utils.cc
@@ -50,9 +50,18 @@ Status JsonUtils::ToJson(const Message& message, string* str) {
   google::protobuf::util::JsonOptions options;
   options.always_print_primitive_fields = true;
 
+  string binary = message.SerializeAsString();
+  // JSON holds text only. Strings that are not valid UTF-8 cannot be parsed back, and
+  // would be cut short in the output.
+  unique_ptr<Message> copy(message.New());
+  if (!copy->ParseFromString(binary)) {
+    return Status(error::INVALID_ARGUMENT,
+                  "Failed to convert to json: strings should be valid UTF-8.");
+  }
+
   return BinaryToJsonString(resolver_.get(),
                             GetTypeUrl(message.GetDescriptor()),
-                            message.SerializeAsString(), str, options);
+                            binary, str, options);
 }
 
 Status JsonUtils::FromJson(const string& json, Message* message) {
-- 
2.43.0


From 573fbe6c010cfb739ddd414279773780278fa8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:29 +0000
Subject: [PATCH 26/33] fix: logloss turned into NaN for scores far on the
 wrong side

exp(-y * f) overflows beyond a margin of 709, and the gradient became inf / inf.
---
 src/loss_func/loss_func_math.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..e51ee46 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,13 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  // With e <= 1 nothing overflows.
+  double margin = y * f;
+  double e = exp(-fabs(margin));
+  if (margin >= 0) {
+    return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  }
+  return make_tuple(log(1 + e) - margin, y / (1 + e), e / ((1 + e) * (1 + e)));
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From af5b7cc5ea1e57a13beb4a9514eae45798db952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:29 +0000
Subject: [PATCH 27/33] fix: training from Python ignored weight_column and
 binarize_target

The settings apply to the program only so far; in Python the model was silently
trained without the weights and on the raw targets.
---
 src/python/train_gbdt_py.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index b902d3c..cdac783 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -73,6 +73,13 @@ ForestPy TrainPy(DataStorePy* data_store,
   FloatVector w_hat = [](int){ return 1.0f; };
   if (!w.empty()) {
     w_hat = ([&w](int i) { return w[i]; });
+  } else if (!config.weight_column().empty()) {
+    const auto* weights = data_store->data_store()->GetRawFloatColumn(config.weight_column());
+    if (!weights) {
+      ThrowException(Status(error::INVALID_ARGUMENT,
+                            fmt::format("Failed to load weight column {0}", config.weight_column())));
+    }
+    w_hat = [weights](int i) { return (*weights)[i]; };
   }
 
   FloatVector y_hat = [&y](int i) { return y[i]; };
@@ -89,7 +96,9 @@ ForestPy TrainPy(DataStorePy* data_store,
     const vector<float>& target_floats = targets->raw_floats();
     y_hat = [&target_floats](int i) { return target_floats[i]; };
   }
-
+  if (config.binarize_target()) {
+    y_hat = [y_hat](int i) { return y_hat(i) > 0 ? 1 : -1; };
+  }
 
   // Initialize Loss Function.
   unique_ptr<LossFunc> loss_func = LossFuncFactory::CreateLossFunc(config);
-- 
2.43.0


From 9c8937e8a1bc5c0c089238744755dea3b9e5fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:59 +0000
Subject: [PATCH 28/33] fix: type_overrides that change the kind of a data
 frame column are ignored

---
 gbdt/_data_store.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..2a0cddf 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -158,13 +158,23 @@ class DataLoader:
         string_cols = set([k for k, v in type_overrides.items()
                            if v == 'string'])
 
+        bucketized_float_cols = set([k for k, v in type_overrides.items()
+                                     if v == 'bucketized_float'])
+
         for col in df.select_dtypes(include=[numpy.number]).keys():
             if col in raw_float_cols:
                 d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
+            elif col in string_cols:
+                d.add_string_col(col, [str(v) for v in df[col]])
+            else:
                 d.add_bucketized_float_col(col, list(df[col]))
 
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-            d.add_string_col(col, list(df[col]))
+            if col in raw_float_cols:
+                d.add_raw_float_col(col, [float(v) for v in df[col]])
+            elif col in bucketized_float_cols:
+                d.add_bucketized_float_col(col, [float(v) for v in df[col]])
+            else:
+                d.add_string_col(col, list(df[col]))
 
         return DataStore(d)
-- 
2.43.0


From a95e2eb87c406318be10ea24b733df9354bdc697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:15 +0000
Subject: [PATCH 29/33] fix: training does not stop when the constant overflows
 its float

---
 src/gbdt_algo/gbdt_algo.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 202d10f..b9817b4 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -177,8 +177,9 @@ Status TrainGBDT(DataStore* data_store,
     string loss_func_progress;
     loss_func->ComputeFunctionalGradientsAndHessians(f, &constant, &gradient_data, &loss_func_progress);
 
-    // When constant is NaN of Inf, the learning diverges and should be stopped.
-    if (std::isnan(constant) || std::isinf(constant)) {
+    // When constant is NaN of Inf, the learning diverges and should be stopped. This includes
+    // constants that are too large for the forest, which holds floats.
+    if (!std::isfinite(static_cast<float>(constant_tree->score() + constant))) {
       return Status(error::INTERNAL,
                     "Stopped learning early because it diverges. "
                     "Please try adding regularization to the config.");
-- 
2.43.0


From 0895fac56d0d113ea79f10a7e436ae050cd8fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 30/33] fix: training with pairwise losses returned forests
 that do not predict numbers when it diverged

---
 src/gbdt_algo/gbdt_algo.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index b9817b4..30b020f 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -117,6 +117,16 @@ string MetaInfo(const StopWatch& stopwatch, const Config& config) {
                      config_str);
 }
 
+bool AllFinite(const vector<double>& f) {
+  return std::all_of(f.begin(), f.end(), [](double x) { return std::isfinite(x); });
+}
+
+Status Diverges() {
+  return Status(error::INTERNAL,
+                "Stopped learning early because it diverges. "
+                "Please try adding regularization to the config.");
+}
+
 }  // namespace
 
 Status TrainGBDT(DataStore* data_store,
@@ -158,6 +168,7 @@ Status TrainGBDT(DataStore* data_store,
   auto* constant_tree = forest->add_tree();
   if (base_forest) {
     InitializeWithBaseForest(base_forest, compute_tree_scores, forest, &f);
+    if (!AllFinite(f)) return Diverges();
   }
 
   StopWatch stopwatch;
@@ -180,9 +191,7 @@ Status TrainGBDT(DataStore* data_store,
     // When constant is NaN of Inf, the learning diverges and should be stopped. This includes
     // constants that are too large for the forest, which holds floats.
     if (!std::isfinite(static_cast<float>(constant_tree->score() + constant))) {
-      return Status(error::INTERNAL,
-                    "Stopped learning early because it diverges. "
-                    "Please try adding regularization to the config.");
+      return Diverges();
     }
 
     // Log progress
@@ -199,6 +208,8 @@ Status TrainGBDT(DataStore* data_store,
     constant_tree->set_score(constant_tree->score() + constant);
     // Update function score.
     compute_tree_scores.AddTreeScores(*tree, constant, &f);
+    // Losses without a constant show in the scores that the learning diverges.
+    if (!AllFinite(f)) return Diverges();
   }
 
   ClearInternalFields(forest);
-- 
2.43.0


From e46de36883f810ee9d8ed2802de7e23eeca8e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 31/33] fix: a failed load of TSV files leaks the blocks that
 were read

---
 src/data_store/tsv_data_store.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index dde5779..5487d57 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -75,11 +75,12 @@ Status TSVDataStore::LoadTSVs(const vector<string>& tsvs, const Config& config)
     return status;
   }
 
-  vector<promise<TSVBlock*>> blocks(tsvs.size());
+  vector<promise<unique_ptr<TSVBlock>>> blocks(tsvs.size());
   ThreadPool pool(FLAGS_num_threads);
   for (int i = 0; i < tsvs.size(); ++i) {
     pool.Enqueue([this, &block=blocks[i], tsv=tsvs[i], skip_header=(i==0)] {
-        block.set_value(new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header));
+        block.set_value(unique_ptr<TSVBlock>(
+            new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header)));
       });
   }
 
-- 
2.43.0


From 3985b6f78505c180b76e778630487297b0ed08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 32/33] fix: creating a column leaks it when memory runs out

---
 src/data_store/column.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index 84627ab..43fcfec 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -316,27 +316,27 @@ void BucketizedFloatColumn::BuildBuckets() {
 
 unique_ptr<Column> Column::CreateStringColumn(
     const string& name, const vector<string>& raw_strings) {
-  auto* column = new StringColumn(name);
+  unique_ptr<StringColumn> column(new StringColumn(name));
   column->Add(&raw_strings);
   column->Finalize();
-  return unique_ptr<Column>(column);
+  return std::move(column);
 }
 
 unique_ptr<Column> Column::CreateBucketizedFloatColumn(
     const string& name, const vector<float>& raw_floats, uint num_buckets) {
-  auto* column = new BucketizedFloatColumn(name, num_buckets);
+  unique_ptr<BucketizedFloatColumn> column(new BucketizedFloatColumn(name, num_buckets));
   column->Add(&raw_floats);
   column->Finalize();
-  return unique_ptr<Column>(column);
+  return std::move(column);
 }
 
 unique_ptr<Column> Column::CreateRawFloatColumn(
     const string& name, vector<float>&& raw_floats) {
-  auto* column = new RawFloatColumn(name);
+  unique_ptr<RawFloatColumn> column(new RawFloatColumn(name));
   column->Add(&raw_floats);
   column->Finalize();
 
-  return unique_ptr<Column>(column);
+  return std::move(column);
 }
 
 RawFloatColumn::RawFloatColumn(const string& name) : Column(name, Column::kRawFloatColumn) {
-- 
2.43.0


From 1e5d1642d26efe7ab0c19af9cd188fb2af7c99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:33 +0000
Subject: [PATCH 33/33] fix: measure elapsed time with a clock that does not
 jump

StopWatch took its two readings from the wall clock, so that a training
time stored in a model followed every correction of that clock, and could
be negative.
---
 src/utils/stopwatch.cc | 4 ++--
 src/utils/stopwatch.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/stopwatch.cc b/src/utils/stopwatch.cc
index 48d7d24..54f4e87 100644
--- a/src/utils/stopwatch.cc
+++ b/src/utils/stopwatch.cc
@@ -20,11 +20,11 @@
 #include "utils.h"
 
 void StopWatch::Start() {
-  start_ = std::chrono::system_clock::now();;
+  start_ = std::chrono::steady_clock::now();
 }
 
 void StopWatch::End() {
-  end_ = std::chrono::system_clock::now();;
+  end_ = std::chrono::steady_clock::now();
 }
 
 double StopWatch::ElapsedTimeInMSecs() const {
diff --git a/src/utils/stopwatch.h b/src/utils/stopwatch.h
index d87843a..51f7142 100644
--- a/src/utils/stopwatch.h
+++ b/src/utils/stopwatch.h
@@ -32,8 +32,8 @@ class StopWatch {
   static std::string MSecsToFormattedString(double msecs);
 
  private:
-  std::chrono::time_point<std::chrono::system_clock> start_;
-  std::chrono::time_point<std::chrono::system_clock> end_;
+  std::chrono::time_point<std::chrono::steady_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> end_;
 };
 
 
-- 
2.43.0

