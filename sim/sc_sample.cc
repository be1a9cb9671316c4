// C26: row and feature sampling. The trees themselves tell what was sampled: the loss function of the test chooses
// gradients from which the score of a leaf, or the feature of a split, gives the sample away.
#include "work.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"
#include <math.h>
#include <string.h>
#include <set>
#include <gflags/gflags.h>
DECLARE_int32(num_threads);
using namespace sim;

namespace {

// A count out of n independent trials of probability p: an upper bound of minus the logarithm of the chance to be as far off.
double surprise(double x, double n, double p) {
  if (n <= 0) return 0;
  double q = x / n, s = 0;
  if (p <= 0 || p >= 1) return fabs(q - p) > 1e-12 ? 1e9 : 0;
  if (q > 0) s += q * log(q / p);
  if (q < 1) s += (1 - q) * log((1 - q) / (1 - p));
  return n * s;
}
const double kLimit = 34;       // chances below e^-34 = 2e-15 are not chance

struct Gradients : gbdt::LossFunc {
  int n = 0, features = 0;
  bool count = false;                    // the score is the number of sampled rows
  Rng rng{1};
  std::vector<std::vector<int>> at;      // per round: the rows with weights 1, 2, 4, ... or the features by gain
  Status Init(int rows, FloatVector, FloatVector, const gbdt::StringColumn*) override { n = rows; return Status::OK; }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& f, double* c, std::vector<gbdt::GradientData>* g, std::string* progress) override {
    Oracle o;
    *c = 0;
    std::vector<int> a;
    for (int i = 0; i < n; ++i) (*g)[i] = gbdt::GradientData(0, 0);
    if (count) {
      for (int i = 0; i < n; ++i) (*g)[i].g = 1;
    } else if (!features) {
      // Up to 24 of the rows, some of them next to each other.
      if (n <= 24) for (int i = 0; i < n; ++i) a.push_back(i);
      else {
        std::set<int> s = {0, n - 1};
        while (s.size() < 24) { int x = (int)rng.below(n); s.insert(x); if (x + 1 < n && s.size() < 24) s.insert(x + 1); }
        a.assign(s.begin(), s.end());
      }
      for (size_t i = 0; i < a.size(); ++i) (*g)[a[i]].g = (double)(1u << i);
    } else {
      for (int i = 0; i < features; ++i) a.push_back(i);
      for (int i = features - 1; i > 0; --i) std::swap(a[i], a[rng.below(i + 1)]);
      double sum = 0;
      for (int i = 0; i < n; ++i) (*g)[i].h = 1;
      for (int i = 0; i < features; ++i) { (*g)[a[i]].g = 2.0 * (features - i); sum += 2.0 * (features - i); }
      (*g)[n - 1].g = -sum;
    }
    at.push_back(a);
  }
};

void gen26(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("features", r.chance(0.4) ? r.range(1, 12) : 0); k.set("min.features", k.get("features") ? 1 : 0);
  k.set("rows", r.chance(0.5) ? r.range(2, 24) : r.chance(0.9) ? r.range(25, 300) : r.range(301, 5000)); k.set("min.rows", 2);
  k.set("rate", r.chance(0.1) ? 1000 : r.chance(0.2) ? r.range(1, 150) : r.range(100, 980)); k.set("min.rate", 1);   // permille
  k.set("count", k.get("features") == 0 && r.chance(0.3));
  if (k.get("count")) k.set("rows", r.range(100, 8000));
  k.set("other", r.chance(0.5) ? 100 : r.range(20, 99)); k.set("min.other", 20);
  k.set("trees", r.chance(0.1) ? r.range(200, 500) : r.range(40, 150)); k.set("min.trees", 1);
  k.set("nthreads", r.chance(0.5) ? 1 : r.range(2, 4)); k.set("min.nthreads", 1);
  k.set("rseed", r.chance(0.3) ? (i64)r.below(3) : (i64)r.below(1u << 31));
  k.set("again", r.chance(0.3));
  k.set("loss", 0); k.set("min.loss", 0); k.set("nf", 1); k.set("nc", 1);
  k.set("shrink", 50); k.set("leaves", 2); k.set("source", 0); k.set("weights", 1);
  if (!k.get("features")) k.set("trees", std::min(k.get("trees"), std::max<i64>(40, (k.get("again") ? 120000 : 360000) / k.get("rows"))));
  gen_history(r, k);
  k.set("tick_cap", 200000000);
}

struct Sampled {
  double rate = 1;
  std::vector<std::vector<int>> at;
  std::vector<double> count;
  std::vector<std::vector<char>> in;    // features: only up to the first that is in
};

Sampled sample(const Run& run, int seed, u64 salt) {
  using namespace gbdt;
  int nf = (int)run.knob("features");
  int n = nf ? nf + 1 : (int)run.knob("rows");
  double rate = run.knob("rate") / 1000.0;
  int threads = (int)run.knob("nthreads");
  int trees = (int)run.knob("trees");
  DataStore ds;
  Config c;
  std::unordered_set<std::string> feats;
  Gradients lf;
  { Oracle o;
    c.set_num_trees(trees);
    c.set_shrinkage(1);
    c.set_l2_lambda(1);
    c.set_loss_func("mse");
    c.set_num_leaves(nf ? 2 : 1);
    c.set_example_sampling_rate(nf ? 1 : (float)rate);
    c.set_feature_sampling_rate(nf ? (float)rate : (float)(run.knob("other") / 100.0));
    lf.features = nf;
    lf.count = run.knob("count");
    lf.rng = Rng(run.seed_of("gradients") + salt);
  }
  for (int j = 0; j < (nf ? nf : 2); ++j) {
    std::vector<float> v(n);
    for (int i = 0; i < n; ++i) v[i] = nf ? (i == j) : (float)(i % 7);
    std::string name = sfmt("f%d", j);
    if (!ds.Add(Column::CreateBucketizedFloatColumn(name, v)).ok()) violate("C26 a column is not accepted", "");
    feats.insert(name);
  }
  FLAGS_num_threads = threads;
  Subsampling::Reseed(seed);
  Forest f;
  auto one = [](int) { return 1.0f; };
  auto st = TrainGBDT(&ds, feats, one, one, &lf, c, nullptr, &f);
  Oracle o;
  if (!st.ok()) violate("C26 training fails", st.ToString());
  if (f.tree_size() != trees + 1 || (int)lf.at.size() != trees) violate("C26 wrong number of trees", sfmt("%d instead of %d", f.tree_size(), trees + 1));
  Sampled s;
  s.rate = (float)rate;
  s.at = lf.at;
  for (int k = 0; k < trees; ++k) {
    const TreeNode& t = f.tree(1 + k);
    std::vector<char> in;
    if (nf) {
      std::string got = t.has_left_child() ? t.split().feature() : "";
      bool found = false;
      for (int j : lf.at[k]) {
        in.push_back(got == sfmt("f%d", j));
        if (in.back()) { found = true; break; }
      }
      if (!found && !got.empty()) violate("C26 a split by an unknown feature", got);
    } else if (lf.count) {
      double x = t.score();
      if (x < 0 || x > n || x != floor(x)) violate("C26 the sample is no set of rows", sfmt("round %d: %.9g of %d rows", k, x, n));
      s.count.push_back(x);
    } else {
      double x = t.score();
      u64 b = (u64)x;
      if (x < 0 || x != (double)b || b >= (1ull << lf.at[k].size()))
        violate("C26 the sample is no set of rows", sfmt("round %d: the sum over the sampled rows of their powers of two is %.9g (%zu rows)", k, x, lf.at[k].size()));
      for (size_t i = 0; i < lf.at[k].size(); ++i) in.push_back(b >> i & 1);
    }
    s.in.push_back(in);
  }
  return s;
}

void test(const char* what, double x, double n, double p, const std::string& where) {
  double s = surprise(x, n, p);
  note("proportions_tested");
  if (s > kLimit) violate("C26 unfair sampling", sfmt("%s: %.0f of %.0f, expected a share of %.4g (%s)", what, x, n, p, where.c_str()));
}

void check(const Run& run, const Sampled& s) {
  bool feat = run.knob("features") > 0;
  double p = s.rate, same = p * p + (1 - p) * (1 - p);
  std::string where = sfmt("%s, rate %.2f, %zu rounds", feat ? "features" : "rows", p, s.in.size());
  size_t T = s.in.size();
  double all = 0, n = 0;
  if (run.knob("count")) {
    n = (double)run.knob("rows");
    for (double x : s.count) { test("in a round", x, n, p, where); all += x; }
    test("in all", all, n * T, p, where);
    if (T >= 40 && p < 1 && n * p * (1 - p) > 25) {
      // Independent rows give counts that differ: at most a share q of neighbouring rounds agree (q bounded by the mode).
      double alike = 0, m = 0, q = 1 / sqrt(2 * 3.14159265 * n * p * (1 - p)) * 1.1;
      for (size_t k = 0; k + 1 < T; k += 2) { alike += s.count[k] == s.count[k + 1]; m += 1; }
      if (alike / m > q) test("equal counts in neighbouring rounds", alike, m, q, where);
    }
    return;
  }
  std::map<int, std::pair<double, double>> each;
  for (size_t k = 0; k < T; ++k)
    for (size_t i = 0; i < s.in[k].size() && (!feat || i < 1); ++i) {
      all += s.in[k][i];
      n += 1;
      auto& e = each[s.at[k][i]];
      e.first += s.in[k][i];
      e.second += 1;
    }
  test("in all", all, n, p, where);
  for (auto& e : each) test(sfmt("number %d", e.first).c_str(), e.second.first, e.second.second, p, where);
  if (feat) {
    // The second best, where the best is not sampled.
    double x = 0, m = 0;
    for (size_t k = 0; k < T; ++k) if (s.in[k].size() >= 2) { x += s.in[k][1]; m += 1; }
    test("second best where the best is not sampled", x, m, p, where);
  } else {
    double x = 0, m = 0, y = 0, z = 0;
    size_t w = 0;
    for (size_t k = 0; k < T; ++k) {
      for (size_t i = 1; i < s.in[k].size(); ++i) { x += s.in[k][i] == s.in[k][i - 1]; m += 1; }
      w = s.in[k].size();
      for (size_t i = 0; i < w / 2; ++i) { y += s.in[k][i] == s.in[k][i + w / 2]; z += 1; }
    }
    // Pairs that share rows are not independent: half of them are, of which at least as many are off.
    double s1 = surprise(x, m, same) / 2;
    if (s1 > kLimit) violate("C26 unfair sampling", sfmt("neighbouring rows alike: %.0f of %.0f, expected a share of %.4g (%s)", x, m, same, where.c_str()));
    test("rows far apart alike", y, z, same, where);
  }
  // A round and later ones.
  for (size_t lag : {1, 2, 3, 7, 16}) {
    double x = 0, m = 0;
    for (size_t k = 0; k + lag < T; k += 1) {
      if (k / lag % 2) continue;          // each round in one pair only
      for (size_t i = 0; i < s.in[k].size() && (!feat || i < 1); ++i)
        for (size_t j = 0; j < s.in[k + lag].size() && (!feat || j < 1); ++j)
          if (s.at[k][i] == s.at[k + lag][j]) { x += s.in[k][i] == s.in[k + lag][j]; m += 1; }
    }
    test(sfmt("alike in rounds %zu apart", lag).c_str(), x, m, same, where);
  }
}

void exec26(Run& run) {
  run.spawn(run.config(), [&] {
    rt_faults_enable(1);
    history(run);
    Sampled s = sample(run, (int)run.knob("rseed"), 0);
    { Oracle o;
      check(run, s);
      note("rounds_decoded", (i64)s.in.size()); }
    if (run.knob("again")) {
      // The same seed once more, and another.
      Sampled a = sample(run, (int)run.knob("rseed"), 0);
      Sampled b = sample(run, (int)run.knob("rseed") + 1, 0);
      Oracle o;
      if (a.in != s.in || a.count != s.count) violate("C26 the same seed gives another sample", "");
      double x = 0, m = 0, p = s.rate;
      bool feat = run.knob("features") > 0;
      for (size_t k = 0; k < s.in.size(); ++k)
        for (size_t i = 0; i < s.in[k].size() && (!feat || i < 1); ++i)
          { x += s.in[k][i] == b.in[k][i]; m += 1; }
      test("alike with another seed", x, m, p * p + (1 - p) * (1 - p), sfmt("rate %.2f", p));
      note("seeds_compared");
    }
    return 0;
  });
}
Register r26({"C26", "sampling", gen26, exec26});

}  // namespace
