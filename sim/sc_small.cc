// C22 buckets, C23 feature importance.
#include "work.h"
#include <float.h>
#include <math.h>
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include "src/gbdt_algo/utils.h"
#include "src/utils/threadpool.h"
using namespace sim;

namespace {

// ---- C22 ----------------------------------------------------------------------------------------
void gen22(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("cols", r.range(1, 4)); k.set("min.cols", 1);
  k.set("buckets", r.chance(0.3) ? r.range(1, 3) : r.range(2, r.chance(0.1) ? 400 : 30)); k.set("min.buckets", 1);
  i64 nb = k.get("buckets");
  // Up to 100 rows per bucket are looked at before the buckets are chosen.
  k.set("rows", r.chance(0.05) ? 0 : r.chance(0.4) ? r.range(1, nb * 3 + 5) : r.chance(0.7) ? r.range(1, 300) : r.range(1, std::min<i64>(nb * 130 + 10, 4000)));
  if (r.chance(0.05)) {
    // As many buckets as fit into 8 or, rarely, 16 bits.
    bool large = r.chance(0.06);
    k.set("cols", 1);
    k.set("buckets", large ? 70000 : 300);
    k.set("rows", (large ? 65536 : 256) + r.range(-2, 1));
    k.set("unique", r.range(1, 2));
  }
  k.set("parts", r.chance(0.4) ? 1 : r.range(2, 6)); k.set("min.parts", 1);
  k.set("nthreads", r.range(1, 4)); k.set("min.nthreads", 1);
  k.set("kind", (i64)r.below(8));
  k.set("missing", r.chance(0.4) ? r.range(1, 100) : 0);
  k.set("tick_cap", 40000000);
}

float value22(Rng& r, int kind, int nb) {
  static const float odd[] = {0.0f, -0.0f, FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 1e-45f, -1e-45f, INFINITY, -INFINITY, 1.0f, -1.0f};
  switch (kind) {
    case 0: return (float)(r.unit() * 10 - 5);
    case 1: return (float)(i64)r.below((u64)nb + 2);
    case 2: return (float)(i64)r.below((u64)nb * 3 + 2);
    case 3: return r.chance(0.5) ? (float)(i64)r.below(4) : (float)(r.unit() * 4);               // some frequent values
    case 4: return r.chance(0.3) ? odd[r.below(12)] : (float)(i64)r.below(20) - 10;
    case 5: { float v = 1.0f; for (u64 i = r.below((u64)nb + 5); i > 0; --i) v = nextafterf(v, 2); return v; }  // neighbours
    case 6: return (float)pow(10.0, r.unit() * 76 - 38) * (r.chance(0.5) ? 1 : -1);
    default: return r.chance(0.9) ? 7.0f : (float)(i64)r.below(3 * (u64)nb);                     // one dominates
  }
}

// Every row another value, the largest one infinity.
float unique22(int i, int rows, bool inf) {
  u64 v = ((u64)i * 7919 + 13) % (u64)rows;
  return inf && v + 1 == (u64)rows ? INFINITY : (float)v;
}

std::string check22(const gbdt::BucketizedFloatColumn& c, const std::vector<float>& v, size_t seen, int nb) {
  if (!c.status().ok()) return "status " + c.status().ToString();
  if (c.size() != v.size()) return sfmt("%u rows instead of %zu", c.size(), v.size());
  if (c.max_int() > 3 * (unsigned)nb + 5) return sfmt("%u buckets although %d are wanted", c.max_int(), nb);
  std::vector<std::pair<float, unsigned>> s;
  std::map<float, size_t> count;
  for (size_t i = 0; i < v.size(); ++i) {
    unsigned b = c.col()[(unsigned)i];
    if (b >= c.max_int()) return sfmt("row %zu is in bucket %u of %u", i, b, c.max_int());
    if (std::isnan(v[i]) != (b == 0)) return sfmt("row %zu: value %.9g in bucket %u, which is for missing values", i, v[i], b);
    if (b == 0) continue;
    if (i < seen) ++count[v[i]];
    float lo = c.get_bucket_min(b), hi = c.get_bucket_max(b);
    // What is above all buckets belongs to the last one.
    if (!(lo <= v[i] && (v[i] <= hi || hi == FLT_MAX))) return sfmt("row %zu: %.9g is outside its bucket %u [%.9g, %.9g]", i, v[i], b, lo, hi);
    s.push_back({v[i], b});
  }
  std::sort(s.begin(), s.end());
  for (size_t i = 1; i < s.size(); ++i) {
    if (s[i].first == s[i - 1].first ? s[i].second != s[i - 1].second : s[i].second < s[i - 1].second)
      return sfmt("values %.9g and %.9g are in buckets %u and %u", s[i - 1].first, s[i].first, s[i - 1].second, s[i].second);
    if (s[i].second != s[i - 1].second && !(c.get_bucket_max(s[i - 1].second) < c.get_bucket_min(s[i].second)))
      return sfmt("buckets %u and %u overlap", s[i - 1].second, s[i].second);
  }
  // Frequent among the values that the buckets were chosen by: nothing else of those in the same bucket.
  size_t cap = std::max<size_t>(1, seen / (size_t)nb);
  std::map<unsigned, std::set<float>> in;
  std::map<float, unsigned> where;
  for (size_t i = 0; i < seen; ++i)
    if (!std::isnan(v[i])) { in[c.col()[(unsigned)i]].insert(v[i]); where[v[i]] = c.col()[(unsigned)i]; }
  for (auto& x : count) {
    auto& y = in[where[x.first]];
    if (x.second >= cap && y.size() > 1)
      return sfmt("%.9g occurs %zu times among %zu rows for %d buckets and shares its bucket with %.9g", x.first, x.second, seen, nb, *y.begin() == x.first ? *++y.begin() : *y.begin());
  }
  return "";
}

void exec22(Run& run) {
  Rng r(run.seed_of("values"));
  int nc = (int)run.knob("cols"), nb = (int)run.knob("buckets"), rows = (int)run.knob("rows"), parts = (int)run.knob("parts");
  std::vector<std::vector<std::vector<float>>> data(nc);
  for (auto& d : data) {
    int kind = r.chance(0.2) ? (int)r.below(8) : (int)run.knob("kind");
    std::vector<int> cut = {0, rows};
    for (int i = 1; i < parts; ++i) cut.push_back((int)r.below((u64)rows + 1));
    std::sort(cut.begin(), cut.end());
    for (int p = 0; p < parts; ++p) {
      d.emplace_back();
      for (int i = cut[p]; i < cut[p + 1]; ++i)
        d.back().push_back((int)r.below(100) < run.knob("missing") ? NAN : run.knob("unique") ? unique22(i, rows, run.knob("unique") == 2) : value22(r, kind, nb));
    }
  }
  run.spawn(run.config(), [&] {
    std::vector<std::unique_ptr<gbdt::BucketizedFloatColumn>> cols;
    for (int i = 0; i < nc; ++i) cols.emplace_back(new gbdt::BucketizedFloatColumn(sfmt("c%d", i), nb));
    // Block by block, the columns at the same time, as tables are loaded.
    for (int p = 0; p < parts; ++p) {
      ThreadPool pool((int)run.knob("nthreads"));
      for (int i = 0; i < nc; ++i)
        pool.Enqueue([&, i, p] { cols[i]->Add(&data[i][p]); if (p == parts - 1) cols[i]->Finalize(); });
    }
    Oracle o;
    for (int i = 0; i < nc; ++i) {
      std::vector<float> all;
      size_t seen = 0;
      bool built = false;
      for (auto& d : data[i]) {
        all.insert(all.end(), d.begin(), d.end());
        if (!built) { seen = all.size(); built = seen > (size_t)nb * 100; }
      }
      note("columns_checked");
      if (built && seen < all.size()) note("columns_with_rows_after_the_buckets");
      std::string d = check22(*cols[i], all, seen, nb);
      if (!d.empty()) violate("C22 wrong buckets", d);
    }
    return 0;
  });
}
Register r22({"C22", "buckets", gen22, exec22});

// ---- C23 ----------------------------------------------------------------------------------------
void gen23(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SMALL);
  k.set("nf", r.range(1, 12)); k.set("nc", r.range(0, 5));
  k.set("ftrees", r.range(0, 12));
  k.set("fleaves", r.chance(0.1) ? 1 : r.range(2, 14)); k.set("min.fleaves", 1);
  k.set("scale", (i64)r.below(4));
  k.set("callers", r.range(1, 4)); k.set("min.callers", 1);
}
void sum23(const gbdt::TreeNode& n, std::map<std::string, double>* m) {
  if (!n.has_left_child()) return;
  (*m)[n.split().feature()] += n.split().gain();
  sum23(n.left_child(), m);
  sum23(n.right_child(), m);
}
void scale23(Rng& r, int kind, gbdt::TreeNode* n) {
  if (!n->has_left_child()) return;
  double g = kind == 0 ? r.unit() + 0.01 : kind == 1 ? pow(10, r.unit() * 40 - 20) : kind == 2 ? (double)r.range(1, 3) : 1e-8 * (1 + r.unit());
  n->mutable_split()->set_gain(g);
  scale23(r, kind, n->mutable_left_child());
  scale23(r, kind, n->mutable_right_child());
}
std::string check23(const gbdt::Forest& f, const std::vector<std::pair<std::string, double>>& got) {
  std::map<std::string, double> m, seen;
  double top = 0;
  for (auto& t : f.tree()) sum23(t, &m);
  for (auto& x : m) top = std::max(top, x.second);
  for (size_t i = 0; i < got.size(); ++i) {
    if (i && !(got[i].second <= got[i - 1].second)) return sfmt("%g is listed after %g", got[i].second, got[i - 1].second);
    if (!seen.insert(got[i]).second) return "feature " + got[i].first + " is listed twice";
    auto it = m.find(got[i].first);
    if (it == m.end()) return "feature " + got[i].first + " is listed and not used";
    double want = it->second / top;
    if (!(fabs(got[i].second - want) <= 1e-9 * want)) return sfmt("importance of %s is %.12g instead of %.12g", got[i].first.c_str(), got[i].second, want);
  }
  for (auto& x : m) if (!seen.count(x.first)) return "feature " + x.first + " is missing";
  return "";
}
void exec23(Run& run) {
  Train t = make_train(run);
  t.source = 0;
  run.spawn(run.config(), [&] {
    std::vector<gbdt::Forest> fs;
    std::string err;
    auto ds = make_store(t, &err);
    gbdt::Forest trained;
    bool ok = train_forest(t, ds.get(), nullptr, &trained).empty();
    { Oracle o;
      Rng r(run.seed_of("forest"));
      fs.push_back(random_forest(r, t.t, (int)run.knob("ftrees"), (int)run.knob("fleaves")));
      for (auto& x : *fs[0].mutable_tree()) scale23(r, (int)run.knob("scale"), &x);
      if (ok) fs.push_back(trained); }
    std::vector<std::thread> th;
    for (int i = 0; i < run.knob("callers"); ++i)
      th.emplace_back([&] {
        for (auto& f : fs) {
          auto got = gbdt::ComputeFeatureImportance(f);
          Oracle o;
          note("importances_checked");
          std::string d = check23(f, got);
          if (!d.empty()) violate("C23 wrong importance", d);
        }
      });
    for (auto& x : th) x.join();
    return 0;
  });
}
Register r23({"C23", "importance", gen23, exec23});

}  // namespace
