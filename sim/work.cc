#include "work.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <gflags/gflags.h>
#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

DECLARE_int32(num_threads);

namespace sim {

const Col* Table::find(const std::string& n) const {
  for (auto& c : cols) if (c.name == n) return &c;
  return 0;
}
std::vector<std::string> Table::names(int type) const {
  std::vector<std::string> v;
  for (auto& c : cols) if (c.type == type) v.push_back(c.name);
  return v;
}

std::string tok_float(float f) {
  if (std::isnan(f)) return "NaN";
  return sfmt("%.9g", (double)f);
}
bool same_float(float a, float b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b;
}

static const char* kLoss[] = {"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"};
const char* loss_name(int i) { return kLoss[i]; }
bool is_pairwise(int i) { return i >= 3; }

void gen_train(Rng& r, Knobs& k, int flags) {
  bool safe = flags & GT_SAFE;
  int loss = (flags & GT_POINTWISE) ? (int)r.below(3) : (flags & GT_PAIRWISE) ? 3 + (int)r.below(4) : (int)r.below(7);
  k.set("loss", loss);
  bool pw = is_pairwise(loss);
  k.set("min.loss", loss);
  k.set("rows", r.chance(0.15) ? r.range(1, 6) : r.range(6, flags & GT_SMALL ? 24 : r.chance(0.15) ? 120 : 45));
  k.set("min.rows", 1);
  k.set("nf", r.range(0, 3));
  k.set("nc", r.range(0, 2));
  if (k.get("nf") + k.get("nc") == 0) k.set("nf", 1);
  k.set("min.nf", 1);
  if (!(flags & GT_SMALL)) {
    if (r.chance(0.12)) { k.set("nf", r.range(5, 60)); k.set("nc", r.range(0, 8)); k.set("rows", r.range(4, 30)); }
    else if (r.chance(0.04)) k.set("rows", r.range(100, 700));
  }
  k.set("missing", r.chance(0.5) ? r.range(5, 50) : 0);
  k.set("distinct", r.chance(0.4) && !safe ? r.range(2, 8) : 0);
  k.set("trees", r.range(1, flags & GT_SMALL ? 2 : 4)); k.set("min.trees", 1);
  k.set("leaves", r.chance(0.1) ? 1 : r.range(2, 7)); k.set("min.leaves", 1);
  k.set("shrink", safe ? r.range(5, 80) : r.range(5, 100)); k.set("min.shrink", 5);   // percent
  k.set("l2", r.chance(0.5) ? r.range(0, 300) : 0);       // percent
  k.set("min_hess", safe ? 7 + 10 * (i64)r.below(20) : (r.chance(0.5) ? 0 : r.range(1, 200)));   // percent
  if (safe) k.set("min.min_hess", 7);
  k.set("min_gain", r.chance(0.3) ? (i64)r.below(100) : 0);                 // permille
  bool samp = !(flags & GT_NOSAMPLE);
  k.set("ex_rate", samp && r.chance(0.4) ? r.range(30, 99) : 100); k.set("min.ex_rate", k.get("ex_rate"));
  k.set("feat_rate", samp && r.chance(0.4) ? r.range(30, 99) : 100); k.set("min.feat_rate", k.get("feat_rate"));
  k.set("pair_rate", pw ? r.range(50, 900) : 100); k.set("min.pair_rate", 20);   // percent
  k.set("delta", pw && r.chance(0.3));
  k.set("equal_group", pw && r.chance(0.3));
  k.set("groups", pw ? (r.chance(0.2) ? 0 : r.range(1, 12)) : (r.chance(0.2) ? r.range(1, 5) : 0));
  k.set("weights", safe ? 1 : r.chance(0.1) ? 3 : (i64)r.below(3));
  if (safe) k.set("min.weights", 1);
  k.set("grades", pw ? (i64)(r.chance(0.6) ? r.range(2, 5) : 0) : 0);
  k.set("nthreads", r.chance(0.1) ? 1 : r.range(2, r.chance(0.2) ? 9 : 4)); k.set("min.nthreads", 1);
  k.set("rseed", (i64)r.below(1000000));
  k.set("source", (i64)r.below(3));
  k.set("blocks", r.range(1, 4)); k.set("min.blocks", 1);
  k.set("base", (flags & GT_NOBASE) || r.chance(0.7) ? 0 : r.range(1, 3));
  k.set("tick_cap", 60000000);
  k.set("odd_cats", Rng(k.get("rseed") + 5).chance(0.12));
  k.set("binarize", Rng(k.get("rseed") + 6).chance(0.1));
  if (!(flags & GT_SMALL)) {
    // Now and then much of one thing.
    Rng q(r.next());
    switch (q.below(60)) {
      case 0: k.set("leaves", q.range(8, 40)); if (k.get("rows") < 60) k.set("rows", q.range(60, 150)); break;
      case 1: k.set("trees", q.range(5, 25)); break;
      case 2: k.set("nthreads", q.range(10, 40)); break;
      case 3:
        if (q.chance(0.7)) break;
        k.set("rows", q.range(700, 6000)); k.set("nf", q.range(1, 2)); k.set("nc", q.range(0, 1)); k.set("trees", q.range(1, 2));
        if (pw && k.get("groups")) k.set("groups", q.range(20, 400));
        if (pw) k.set("pair_rate", q.range(20, 60));
        k.set("min.pair_rate", 5);
        break;
    }
  }
}

static float gen_value(Rng& r, int kind, int distinct) {
  switch (kind) {
    case 0: return (float)(r.unit() * 10 - 5);
    case 1: return (float)(i64)r.below(distinct ? distinct : 5);
    case 2: return (float)((r.unit() - 0.5) * 1e6);
    case 3: return (float)((r.unit() - 0.5) * 1e-3);
    default: return 1.5f;
  }
}

// A category of a string column. odd 1: any valid text that a file can hold; 2: also bytes that are no text.
static std::string category(int odd, int i) {
  static const char* pool[] = {"q\"x", "back\\slash", "\x01" "c", "\xc3\xa9", "<&>", "\xf0\x9f\x98\x80", "it's", "a b", "NaN", "{}", "\\u0041",
                               "null", "0", "1e5", "a", "A", "\x7f", "//", ",", "[\"a\"]", "\xef\xbf\xbd", "\xc3\xa9\xcc\x81", "a\\"};
  static const char* bad[] = {"a\xe9" "b", "a\xc3", "\xff", "\xed\xa0\x80", "b\xe9"};
  if (!odd) return sfmt("v%d", i);
  int n = (int)(sizeof pool / sizeof *pool);
  if (odd == 2 && i % 3 == 1 && i / 3 < 5) return bad[i / 3];
  return i < n ? pool[i] : sfmt("%s%d", pool[i % n], i);
}

void make_table(const Run& run, Train* t) {
  Rng r(run.seed_of("table"));
  Table& T = t->t;
  int rows = T.rows = (int)run.knob("rows");
  int nf = (int)run.knob("nf"), nc = (int)run.knob("nc"), miss = (int)run.knob("missing"), distinct = (int)run.knob("distinct");
  for (int i = 0; i < nf; ++i) {
    Col c;
    c.name = sfmt("f%d", i);
    c.type = CT_BUCKET;
    int kind = distinct ? 1 : (int)r.below(4);
    if (kind == 1 && !distinct) kind = 0;
    if (distinct && r.chance(0.1)) kind = 4;
    for (int j = 0; j < rows; ++j) {
      float v = gen_value(r, kind, distinct);
      bool m = (int)r.below(100) < miss;
      c.f.push_back(m ? NAN : v);
      c.tok.push_back(tok_float(c.f.back()));
    }
    T.cols.push_back(c);
    t->features.push_back(c.name);
  }
  for (int i = 0; i < nc; ++i) {
    Col c;
    c.name = sfmt("c%d", i);
    c.type = CT_STRING;
    int ncat = (int)(r.chance(0.08) ? r.range(8, 60) : r.range(1, 7));
    int odd = (int)run.knob("odd_cats"), shift = odd ? (int)(run.seed_of("odd cats") % 23) : 0;
    for (int j = 0; j < rows; ++j) {
      c.s.push_back(category(odd, (int)r.below(ncat) + (odd == 1 ? shift : 0)));
      if ((int)r.below(100) < miss / 3) c.s.back() = "__missing__";
      c.tok.push_back(c.s.back());
    }
    T.cols.push_back(c);
    t->features.push_back(c.name);
  }
  int loss = (int)run.knob("loss");
  bool cls = loss == 1 || loss == 2;
  int grades = (int)run.knob("grades");
  Col y, w, g;
  y.name = "target"; y.type = CT_RAW;
  for (int j = 0; j < rows; ++j) {
    double v = 0;
    for (auto& c : T.cols) {
      if (c.type == CT_BUCKET) { if (!std::isnan(c.f[j])) v += c.f[j] > c.f[0] ? 1.3 : -0.7; }
      else if (c.type == CT_STRING) v += c.s[j] == c.s[0] ? 0.9 : -0.4;
    }
    v += r.unit() * 2 - 1;
    if (cls) v = v > 0.1 ? 1 : -1;
    else if (grades) { double q = floor(v); if (q < 0) q = 0; if (q >= grades) q = grades - 1; v = q; }
    y.f.push_back((float)v);
    y.tok.push_back(tok_float(y.f.back()));
  }
  t->y = y.f;
  if (run.knob("binarize")) {
    // The data holds numbers of which only the sign counts.
    Rng q(run.seed_of("binarize"));
    for (int j = 0; j < rows; ++j) {
      static const float up[] = {1, 0.25f, 3e-39f, 7, 1e30f, INFINITY}, down[] = {-1, 0, -0.0f, -3e-39f, -2.5f, -INFINITY};
      bool pos = y.f[j] > 0;
      t->y[j] = pos ? 1 : -1;
      y.f[j] = (pos ? up : down)[q.below(6)];
      y.tok[j] = tok_float(y.f[j]);
    }
  }
  w.name = "weight"; w.type = CT_RAW;
  int wk = (int)run.knob("weights");
  for (int j = 0; j < rows; ++j) {
    float v = wk == 0 ? 1.0f : wk == 3 ? (float)r.below(4) / 2 : wk == 1 ? (float)(0.2 + r.unit() * 2) : (float)(1 + r.below(3));
    w.f.push_back(v);
    w.tok.push_back(tok_float(v));
  }
  t->w = w.f;
  T.cols.push_back(y);
  if (wk) T.cols.push_back(w);
  int ng = (int)run.knob("groups");
  if (ng) {
    g.name = "group"; g.type = CT_STRING;
    for (int j = 0; j < rows; ++j) {
      g.s.push_back(r.chance(0.03) ? "__missing__" : sfmt("q%d", (int)r.below(ng)));
      g.tok.push_back(g.s.back());
    }
    T.cols.push_back(g);
  }
}

void make_config(const Run& run, Train* t) {
  gbdt::Config& c = t->config;
  c.set_num_trees((int)run.knob("trees"));
  c.set_num_leaves((int)run.knob("leaves"));
  c.set_shrinkage(run.knob("shrink") / 100.0f);
  c.set_min_gain(run.knob("min_gain") / 1000.0);
  c.set_l2_lambda(run.knob("l2") / 100.0);
  c.set_min_hessian(run.knob("min_hess") / 100.0);
  c.set_example_sampling_rate(run.knob("ex_rate", 100) / 100.0f);
  c.set_feature_sampling_rate(run.knob("feat_rate", 100) / 100.0f);
  t->loss = loss_name((int)run.knob("loss"));
  c.set_loss_func(t->loss);
  c.set_pair_sampling_rate(run.knob("pair_rate", 100) / 100.0f);
  c.set_pair_weight_by_delta_target(run.knob("delta"));
  c.set_equal_group_weight(run.knob("equal_group"));
  for (auto& x : t->t.cols) {
    if (x.type == CT_BUCKET) c.add_float_feature(x.name);
    else if (x.type == CT_STRING && x.name != "group") c.add_categorical_feature(x.name);
  }
  c.set_target_column("target");
  if (run.knob("binarize")) c.set_binarize_target(true);
  if (t->t.find("weight")) c.set_weight_column("weight");
  if (t->t.find("group")) c.set_group_column("group");
}

Train make_train(const Run& run) {
  Train t;
  make_table(run, &t);
  make_config(run, &t);
  t.threads = (int)run.knob("nthreads");
  t.seed = (int)run.knob("rseed");
  t.source = (int)run.knob("source");
  return t;
}

std::string flat_text(const Col& c) {
  std::string s = c.type == CT_STRING ? "# dtype=strings\n" : c.type == CT_RAW ? "# dtype=raw_floats\n" : "# dtype=bucketized_floats\n";
  for (auto& x : c.tok) s += x + "\n";
  return s;
}
void put_flat(const std::string& dir, const Col& c) {
  std::string s = flat_text(c);
  disk_put((dir + "/" + c.name).c_str(), s.data(), s.size());
}

// style bit 0: CRLF; bit 1: no newline at the end; bit 2: blank lines between rows.
void put_files(const Train& t, int blocks, Rng& r, int style) {
  disk_mkdir("/sim/data");
  disk_mkdir("/sim/flat");
  const Table& T = t.t;
  const char* nl = style & 1 ? "\r\n" : "\n";
  std::vector<int> cut = {0};
  for (int i = 1; i < blocks; ++i) cut.push_back((int)r.below(T.rows + 1));
  cut.push_back(T.rows);
  std::sort(cut.begin(), cut.end());
  std::vector<std::string>& names = const_cast<Train&>(t).tsvs;
  names.clear();
  for (int b = 0; b < blocks; ++b) {
    std::string s;
    if (b == 0) {
      for (size_t i = 0; i < T.cols.size(); ++i) s += (i ? "\t" : "") + T.cols[i].name;
      s += nl;
    }
    for (int j = cut[b]; j < cut[b + 1]; ++j) {
      for (size_t i = 0; i < T.cols.size(); ++i) s += (i ? "\t" : "") + T.cols[i].tok[j];
      s += nl;
      if ((style & 4) && r.chance(0.2)) s += nl;
    }
    if ((style & 2) && s.size() >= strlen(nl) && !(b == 0 && cut[1] == cut[0])) s.resize(s.size() - strlen(nl));
    std::string p = sfmt("/sim/data/part-%d.tsv", b);
    disk_put(p.c_str(), s.data(), s.size());
    names.push_back(p);
  }
  for (auto& c : T.cols) put_flat("/sim/flat", c);
}

std::unique_ptr<gbdt::DataStore> make_store(const Train& t, std::string* error) {
  using namespace gbdt;
  std::unique_ptr<DataStore> ds;
  if (t.source == 1) {
    ds.reset(new TSVDataStore(t.tsvs, t.config));
  } else if (t.source == 2) {
    ds.reset(new FlatfilesDataStore("/sim/flat"));
  } else {
    ds.reset(new DataStore);
    for (auto& c : t.t.cols) {
      std::unique_ptr<Column> col;
      if (c.type == CT_STRING) col = Column::CreateStringColumn(c.name, c.s);
      else if (c.type == CT_BUCKET) col = Column::CreateBucketizedFloatColumn(c.name, c.f);
      else col = Column::CreateRawFloatColumn(c.name, std::vector<float>(c.f));
      auto st = ds->Add(std::move(col));
      if (!st.ok()) { *error = "Add: " + st.ToString(); return nullptr; }
    }
  }
  if (!ds->status().ok()) { *error = ds->status().ToString(); return nullptr; }
  return ds;
}

std::string train_forest(const Train& t, gbdt::DataStore* ds, const gbdt::Forest* base, gbdt::Forest* out) {
  using namespace gbdt;
  FLAGS_num_threads = t.threads;
  Subsampling::Reseed(t.seed);
  std::unique_ptr<LossFunc> lf = LossFuncFactory::CreateLossFunc(t.config);
  if (!lf) return "unknown loss function";
  std::unordered_set<std::string> feats(t.features.begin(), t.features.end());
  const std::vector<float>*w = &t.w, *y = &t.y;
  if (t.source == 2 && t.config.group_column().size()) ds->GetColumn(t.config.group_column());
  FloatVector fw = [w](int i) { return (*w)[i]; };
  FloatVector fy = [y](int i) { return (*y)[i]; };
  auto st = TrainGBDT(ds, feats, fw, fy, lf.get(), t.config, base, out);
  return st.ok() ? "" : st.ToString();
}

Train other_workload(const Run& run, int which) {
  Run o = run;
  Rng r(run.seed_of("history") + (u64)which * 77);
  o.k.set("seed", (i64)(r.next() >> 2));
  if (r.chance(0.8)) o.k.set("rows", r.range(2, 40));
  if (r.chance(0.3) && run.k.get("loss") < 3) o.k.set("loss", (i64)r.below(3));
  o.k.set("source", 0);
  o.k.set("trees", r.range(1, 2));
  o.k.set("rseed", (i64)r.below(1000));
  if (r.chance(0.5)) o.k.set("nthreads", r.range(1, 5));
  return make_train(o);
}

void gen_history(Rng& r, Knobs& k) { k.set("history", r.chance(0.35) ? r.range(1, 3) : 0); }

void history(const Run& run) {
  for (int i = 0; i < run.knob("history"); ++i) {
    Train t;
    { Oracle o; t = other_workload(run, i); }
    std::string err;
    auto ds = make_store(t, &err);
    if (!ds) continue;
    gbdt::Forest f;
    err = train_forest(t, ds.get(), nullptr, &f);
    std::vector<double> s;
    if (err.empty()) gbdt::EvaluateForest(ds.get(), f, &s);
    Oracle o;
    note("earlier_calls");
  }
}

// Minus zero and zero are the same score, and the JSON text does not tell them apart, nor one NaN from another.
static void no_minus_zero(gbdt::TreeNode* n) {
  if (n->score() == 0) n->clear_score();
  if (n->score() != n->score()) n->set_score(std::numeric_limits<float>::quiet_NaN());
  if (n->has_split()) {
    gbdt::Split* s = n->mutable_split();
    if (s->gain() == 0) s->clear_gain();
    if (s->gain() != s->gain()) s->set_gain(std::numeric_limits<double>::quiet_NaN());
    if (s->has_float_split() && s->float_split().threshold() == 0) s->mutable_float_split()->clear_threshold();
  }
  if (n->has_left_child()) no_minus_zero(n->mutable_left_child());
  if (n->has_right_child()) no_minus_zero(n->mutable_right_child());
}
std::string forest_bytes(const gbdt::Forest& f) {
  gbdt::Forest g = f;
  g.clear_meta_info();
  for (auto& t : *g.mutable_tree()) no_minus_zero(&t);
  return g.SerializeAsString();
}

std::string store_dump(gbdt::DataStore* ds, const Table& t) {
  std::string s;
  for (auto& c : t.cols) {
    const gbdt::Column* col = ds->GetColumn(c.name);
    if (!col) { s += "-;"; continue; }
    s += sfmt("%s %d %u:", c.name.c_str(), (int)col->type(), col->size());
    for (unsigned i = 0; i < col->size(); ++i) {
      if (col->type() == gbdt::Column::kStringColumn) s += static_cast<const gbdt::StringColumn*>(col)->get_row_string(i) + ",";
      else if (col->type() == gbdt::Column::kRawFloatColumn) s += tok_float((*static_cast<const gbdt::RawFloatColumn*>(col))[i]) + ",";
      else {
        auto* b = static_cast<const gbdt::BucketizedFloatColumn*>(col);
        s += tok_float(b->get_row_min(i)) + "/" + tok_float(b->get_row_max(i)) + ",";
      }
    }
    s += ";";
  }
  return s;
}

// ---- reference model of scoring ----------------------------------------------------------------
double walk(const gbdt::TreeNode& n, const Table& t, int row) {
  if (!n.has_left_child()) return n.score();
  const Col* c = t.find(n.split().feature());
  bool left;
  if (c->type == CT_STRING) {
    left = false;
    for (auto& x : n.split().cat_split().category()) left = left || x == c->s[row];
  } else {
    float v = c->f[row];
    left = std::isnan(v) ? !n.split().float_split().missing_to_right_child()
                         : v < n.split().float_split().threshold();
  }
  return walk(left ? n.left_child() : n.right_child(), t, row);
}
double walk(const gbdt::Forest& f, const Table& t, int row, int ntrees) {
  double s = 0;
  for (int i = 0; i < f.tree_size() && (ntrees < 0 || i < ntrees); ++i) s += walk(f.tree(i), t, row);
  return s;
}

void random_tree(Rng& r, const Table& t, int leaves, gbdt::TreeNode* n) {
  n->set_score((float)(r.unit() * 4 - 2));
  if (leaves <= 1) return;
  std::vector<const Col*> c;
  for (auto& x : t.cols) if (x.type != CT_RAW) c.push_back(&x);
  if (c.empty()) return;
  const Col* col = c[r.below(c.size())];
  auto* sp = n->mutable_split();
  sp->set_feature(col->name);
  sp->set_gain(r.unit());
  if (col->type == CT_STRING) {
    auto* cs = sp->mutable_cat_split();
    std::vector<std::string> seen;
    int k = (int)r.below(4);
    for (int i = 0; i < k; ++i) {
      std::string v = r.chance(0.2) || col->s.empty() ? sfmt("unseen%d", (int)r.below(3)) : r.chance(0.1) ? std::string("__missing__") : col->s[r.below(col->s.size())];
      cs->add_category(v);
    }
  } else {
    auto* fs = sp->mutable_float_split();
    float th = 0;
    int k = (int)r.below(5);
    if (!col->f.empty()) {
      float v = col->f[r.below(col->f.size())], u = col->f[r.below(col->f.size())];
      if (std::isnan(v)) v = 0;
      if (std::isnan(u)) u = v;
      th = k == 0 ? v : k == 1 ? v + 0.25f : k == 2 ? (u + v) / 2 : k == 3 ? -1e30f : 1e30f;
    }
    fs->set_threshold(th);
    fs->set_missing_to_right_child(r.chance(0.5));
  }
  int l = (int)r.range(1, leaves - 1);
  random_tree(r, t, l, n->mutable_left_child());
  random_tree(r, t, leaves - l, n->mutable_right_child());
}
gbdt::Forest random_forest(Rng& r, const Table& t, int trees, int leaves) {
  gbdt::Forest f;
  for (int i = 0; i < trees; ++i)
    random_tree(r, t, i == 0 && r.chance(0.5) ? 1 : (int)r.range(1, leaves), f.add_tree());
  return f;
}

// ---- comparison up to rounding and ties ---------------------------------------------------------
static bool near(double a, double b, double rel) {
  return fabs(a - b) <= rel * std::max(1.0, std::max(fabs(a), fabs(b)));
}
static bool same_split(const gbdt::Split& a, const gbdt::Split& b) {
  if (a.feature() != b.feature() || a.has_cat_split() != b.has_cat_split()) return false;
  if (a.has_cat_split()) {
    std::vector<std::string> x(a.cat_split().category().begin(), a.cat_split().category().end());
    std::vector<std::string> y(b.cat_split().category().begin(), b.cat_split().category().end());
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    return x == y;
  }
  return near(a.float_split().threshold(), b.float_split().threshold(), 1e-5) &&
         a.float_split().missing_to_right_child() == b.float_split().missing_to_right_child();
}
// Nodes in the order in which best-first growth expands them.
struct Step { std::string at; const gbdt::TreeNode* n; };
static std::vector<Step> growth(const gbdt::TreeNode& root) {
  std::vector<Step> open, out;
  if (root.has_left_child()) open.push_back({"/", &root});
  while (!open.empty()) {
    size_t k = 0;
    for (size_t i = 1; i < open.size(); ++i) if (open[i].n->split().gain() > open[k].n->split().gain()) k = i;
    Step s = open[k];
    open.erase(open.begin() + k);
    out.push_back(s);
    if (s.n->left_child().has_left_child()) open.push_back({s.at + "L", &s.n->left_child()});
    if (s.n->right_child().has_left_child()) open.push_back({s.at + "R", &s.n->right_child()});
  }
  return out;
}
static std::string show(const Step* s) { return s ? s->at + " " + s->n->split().ShortDebugString() : std::string("no split"); }

// Values of corresponding nodes.
static std::string values_diff(const gbdt::TreeNode& a, const gbdt::TreeNode& b, double tol, const std::string& at) {
  if (!near(a.score(), b.score(), tol) || (a.has_left_child() && !near(a.split().gain(), b.split().gain(), tol)))
    return sfmt("different value at %s: score %.9g versus %.9g, gain %.9g versus %.9g", at.c_str(), a.score(), b.score(), a.split().gain(), b.split().gain());
  if (!a.has_left_child()) return "";
  std::string d = values_diff(a.left_child(), b.left_child(), tol, at + "L");
  return d.empty() ? values_diff(a.right_child(), b.right_child(), tol, at + "R") : d;
}

// Whether the first difference of two trees is a choice between equally good splits.
// 1: same structure, 2: tie, 0: differs.
static int shape_diff(const gbdt::TreeNode& a, const gbdt::TreeNode& b, double tie, double min_gain, bool cat_ties, std::string* text) {
  std::vector<Step> x = growth(a), y = growth(b);
  size_t n = std::max(x.size(), y.size());
  for (size_t i = 0; i < n; ++i) {
    const Step *p = i < x.size() ? &x[i] : 0, *q = i < y.size() ? &y[i] : 0;
    if (p && q && p->at == q->at && same_split(p->n->split(), q->n->split())) continue;
    double ga = p ? p->n->split().gain() : min_gain, gb = q ? q->n->split().gain() : min_gain;
    if (near(ga, gb, tie)) return 2;
    // Categories are ordered by g/h: where many ratios are equal, rounding decides their order and so the candidates.
    if (cat_ties && ((p && p->n->split().has_cat_split()) || (q && q->n->split().has_cat_split()))) return 2;
    *text = "different split: " + show(p) + " versus " + show(q);
    return 0;
  }
  return 1;
}

std::string forest_diff(const gbdt::Forest& a, const gbdt::Forest& b, double tie, double tol, double min_gain, bool cat_ties, bool* tied) {
  *tied = false;
  if (a.tree_size() != b.tree_size()) return sfmt("%d trees versus %d", a.tree_size(), b.tree_size());
  for (int i = 0; i < a.tree_size(); ++i) {
    std::string text, at = sfmt("tree %d ", i);
    int s = shape_diff(a.tree(i), b.tree(i), tie, std::max(min_gain, 1e-6), cat_ties, &text);
    if (s == 0) return at + text;
    if (s == 2) { *tied = true; return ""; }
    if (i == 0) continue;        // the constant is the sum over all rounds: last, since a tie makes it differ
    text = values_diff(a.tree(i), b.tree(i), tol, at + "/");
    if (!text.empty()) return text;
  }
  return a.tree_size() ? values_diff(a.tree(0), b.tree(0), tol, "tree 0 /") : "";
}

}  // namespace sim
