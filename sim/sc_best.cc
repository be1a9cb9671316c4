// C20: every split of a trained tree is the best one. C21: gradients, hessians and constants.
#include "work.h"
#include "recorder.h"
#include <math.h>
#include <algorithm>
#include <map>
#include <set>
#include <gflags/gflags.h>
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

// ---- C20 ----------------------------------------------------------------------------------------
struct GH {
  double g = 0, h = 0, ag = 0;       // ag: sum of absolute values
  void add(double w, double gg, double hh) { g += w * gg; h += w * hh; ag += fabs(w * gg); }
  GH operator+(const GH& o) const { GH r = *this; r.g += o.g; r.h += o.h; r.ag += o.ag; return r; }
  double energy(double l) const { return h + l == 0 ? 0 : g * g / (h + l); }
  double score(double l) const { return h + l == 0 ? 0 : g / (h + l); }
  bool zero() const { return g == 0 && h == 0; }
};

struct Checker {
  const Train& t;
  const Round& r;
  double lambda, min_hess, min_gain;
  bool all_features;
  std::string at;

  GH sum(const std::vector<int>& rows) const { GH s; for (int i : rows) s.add(t.w[i], r.g[i], r.h[i]); return s; }
  // A partition whose parts are too unequal leaves nothing of the exact value when computed by subtraction.
  bool clear(const GH& a, const GH& b) const {
    double H = a.h + b.h + lambda;
    return a.h > 1e-6 * H && b.h > 1e-6 * H;
  }
  double tol(const GH& a, const GH& b) const {
    GH s = a + b;
    double e = a.energy(lambda) + b.energy(lambda) + s.energy(lambda);
    // Rounding of g: relative to the absolute sums.
    double d = s.ag * 1e-13;
    return 1e-8 * e + d * (fabs(a.score(lambda)) + fabs(b.score(lambda)) + fabs(s.score(lambda))) + 1e-12;
  }
  double gain(const GH& a, const GH& b) const { return a.energy(lambda) + b.energy(lambda) - (a + b).energy(lambda); }
  bool allowed(const GH& a, const GH& b) const {
    double m = std::min(a.h, b.h);
    return m > min_hess * (1 + 1e-9) + 1e-9 * (a.h + b.h) && clear(a, b);
  }

  struct Best { double gain = 0, tol = 0; std::string what; };
  void consider(const GH& a, const GH& b, Best* best, const std::string& what) const {
    if (!allowed(a, b)) return;
    double g = gain(a, b), e = tol(a, b);
    if (g - e > best->gain - best->tol) { best->gain = g; best->tol = e; best->what = what; }
  }
  // The best split of one feature on these rows, among those that clearly qualify.
  void best_of(const Col& c, const std::vector<int>& rows, Best* best) const {
    if (c.type == CT_BUCKET) {
      std::map<float, GH> v;
      GH miss;
      bool has_miss = false;
      for (int i : rows) {
        if (std::isnan(c.f[i])) { miss.add(t.w[i], r.g[i], r.h[i]); has_miss = true; }
        else v[c.f[i]].add(t.w[i], r.g[i], r.h[i]);
      }
      GH rest, left;
      for (auto& e : v) rest = rest + e.second;
      if (has_miss) consider(miss, rest, best, c.name + " missing or not");
      for (auto it = v.begin(); it != v.end(); ++it) {
        auto nx = std::next(it);
        if (nx == v.end()) break;
        left = left + it->second;
        GH right;
        for (auto q = nx; q != v.end(); ++q) right = right + q->second;
        std::string what = c.name + sfmt(" < %.9g", nx->first);
        consider(left + miss, right, best, what + ", missing left");
        if (has_miss) consider(left, right + miss, best, what + ", missing right");
      }
    } else {
      std::map<std::string, GH> v;
      for (int i : rows) v[c.s[i]].add(t.w[i], r.g[i], r.h[i]);
      std::vector<GH> o;
      for (auto& e : v) if (!e.second.zero()) o.push_back(e.second);
      double l = lambda;
      std::sort(o.begin(), o.end(), [l](const GH& a, const GH& b) { return a.score(l) < b.score(l); });
      GH left;
      for (size_t i = 0; i + 1 < o.size(); ++i) {
        left = left + o[i];
        // Where the order is a matter of rounding, only the whole of it counts.
        double sc = fabs(o[i].score(l)) + fabs(o[i + 1].score(l));
        double noise = (o[i].ag / (o[i].h + l + 1e-300) + o[i + 1].ag / (o[i + 1].h + l + 1e-300)) * 1e-12;
        if (!(o[i + 1].score(l) - o[i].score(l) > 1e-9 * sc + noise)) continue;
        GH right;
        for (size_t q = i + 1; q < o.size(); ++q) right = right + o[q];
        consider(left, right, best, c.name + sfmt(": the %zu lowest of %zu categories", i + 1, o.size()));
      }
    }
  }
  Best best_on(const std::vector<int>& rows) const {
    Best b;
    for (auto& c : t.t.cols) if (std::find(t.features.begin(), t.features.end(), c.name) != t.features.end()) best_of(c, rows, &b);
    return b;
  }
  double floor_gain() const { return std::max(min_gain, 1e-6); }

  struct Open { const gbdt::TreeNode* n; std::string at; std::vector<int> rows; };

  void scores(const Open& o) const {
    GH s = sum(o.rows);
    double want = s.score(lambda) * (double)t.config.shrinkage();
    double noise = s.h + lambda == 0 ? 0 : s.ag / (s.h + lambda) * 1e-12;
    if (fabs(want) > 3e38) return note("values_too_large_for_a_float");  // the forest holds floats
    if (!(fabs(o.n->score() - want) <= 1e-5 * fabs(want) + noise + 1e-30) && std::isfinite(want))
      violate("C20 wrong value at a node", sfmt("%s%s: %.9g instead of %.9g", at.c_str(), o.at.c_str(), o.n->score(), want));
  }

  // One tree, from the root in the order of its growth.
  void tree(const gbdt::TreeNode& root, const std::vector<int>& rows) const {
    std::vector<Open> open = {{&root, "/", rows}};
    int leaves = 1;
    scores(open[0]);
    for (;;) {
      int k = -1;
      for (size_t i = 0; i < open.size(); ++i)
        if (open[i].n->has_left_child() && (k < 0 || open[i].n->split().gain() > open[k].n->split().gain())) k = (int)i;
      if (k < 0) break;
      Open o = open[k];
      const gbdt::Split& sp = o.n->split();
      std::string where = at + o.at + " split " + sp.ShortDebugString();
      const Col* c = t.t.find(sp.feature());
      if (!c || std::find(t.features.begin(), t.features.end(), c->name) == t.features.end()) violate("C20 a split of something that is no feature", where);
      Open l{&o.n->left_child(), o.at + "L", {}}, rr{&o.n->right_child(), o.at + "R", {}};
      for (int i : o.rows) {
        bool left;
        if (c->type == CT_STRING) {
          left = false;
          for (auto& x : sp.cat_split().category()) left = left || x == c->s[i];
        } else {
          left = std::isnan(c->f[i]) ? !sp.float_split().missing_to_right_child() : c->f[i] < sp.float_split().threshold();
        }
        (left ? l : rr).rows.push_back(i);
      }
      GH a = sum(l.rows), b = sum(rr.rows);
      if (std::min(a.h, b.h) < min_hess * (1 - 1e-9) - 1e-9 * (a.h + b.h))
        violate("C20 a split leaves less than the minimum hessian", where + sfmt(": %.9g and %.9g, minimum %.9g", a.h, b.h, min_hess));
      if (!(sp.gain() > floor_gain() * (1 - 1e-9))) violate("C20 a split gains less than the minimum", where);
      if (clear(a, b)) {
        if (!(fabs(sp.gain() - gain(a, b)) <= tol(a, b)))
          violate("C20 the gain of a split is wrong", where + sfmt(": %.12g with %zu and %zu rows", gain(a, b), l.rows.size(), rr.rows.size()));
        if (c->type == CT_STRING) prefix(*c, o.rows, l.rows, where);
        note("splits_checked");
      } else {
        note("splits_too_unequal_to_check");
      }
      Best best;
      if (all_features) best = best_on(o.rows); else best_of(*c, o.rows, &best);
      if (best.gain > 0 && sp.gain() < best.gain - best.tol - tol(a, b))
        violate("C20 a better split exists", where + sfmt(": %.12g by ", best.gain) + best.what);
      // Nodes are expanded in order of gain.
      if (all_features) {
        for (auto& x : open) {
          if (x.n == o.n || x.n->has_left_child()) continue;
          Best q = best_on(x.rows);
          if (q.gain - q.tol > floor_gain() && q.gain - q.tol > sp.gain() + tol(a, b))
            violate("C20 a node with more gain is left aside", where + sfmt(", but at %s %.12g by ", x.at.c_str(), q.gain) + q.what);
        }
      }
      scores(l);
      scores(rr);
      open.erase(open.begin() + k);
      open.push_back(l);
      open.push_back(rr);
      ++leaves;
    }
    if (leaves > std::max(1, (int)t.config.num_leaves())) violate("C20 too many leaves", sfmt("%s%d", at.c_str(), leaves));
    if (leaves < (int)t.config.num_leaves() && all_features) {
      for (auto& x : open) {
        Best q = best_on(x.rows);
        if (q.gain - q.tol > floor_gain())
          violate("C20 growth stops too early", at + sfmt("%d of %d leaves, but at %s %.12g by ", leaves, (int)t.config.num_leaves(), x.at.c_str(), q.gain) + q.what);
      }
      note("trees_that_stopped_for_gain");
    }
    note("trees_checked");
  }
  // The listed categories are the lowest or the highest ones in the order of their node scores.
  void prefix(const Col& c, const std::vector<int>& rows, const std::vector<int>& left, const std::string& where) const {
    std::map<std::string, GH> v;
    std::set<std::string> in;
    for (int i : left) in.insert(c.s[i]);
    for (int i : rows) v[c.s[i]].add(t.w[i], r.g[i], r.h[i]);
    double hi[2] = {-INFINITY, -INFINITY}, lo[2] = {INFINITY, INFINITY}, noise = 0;
    for (auto& e : v) {
      if (e.second.zero()) continue;
      int k = in.count(e.first) != 0;
      double s = e.second.score(lambda);
      hi[k] = std::max(hi[k], s);
      lo[k] = std::min(lo[k], s);
      noise = std::max(noise, 1e-8 * fabs(s) + 1e-12 * e.second.ag / (e.second.h + lambda + 1e-300));
    }
    if (hi[1] > lo[0] + noise && hi[0] > lo[1] + noise) violate("C20 the categories of a split are not in order of their scores", where);
  }
};

void gen20(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, r.chance(0.3) ? GT_PAIRWISE : r.chance(0.3) ? GT_POINTWISE : 0);
  if (k.get("rows") > 150) k.set("rows", 150);
  if (k.get("nf") > 20) k.set("nf", 20);
  if (r.chance(0.75)) k.set("ex_rate", 100);
  if (r.chance(0.75)) k.set("feat_rate", 100);
  if (r.chance(0.3)) k.set("leaves", r.range(4, 20));
  k.set("odd", (i64)r.below(4));          // 1 neighbouring floats, 2 huge values, 3 integer targets with unit weights
  k.set("zero_w", r.chance(0.2) ? r.range(5, 60) : 0);
  k.set("style", 0);
  gen_history(r, k);
}

void exec20(Run& run) {
  Train t = make_train(run);
  Rng q(run.seed_of("odd"));
  int odd = (int)run.knob("odd");
  for (auto& c : t.t.cols) {
    if (c.type != CT_BUCKET || (odd != 1 && odd != 2)) continue;
    float b = q.chance(0.5) ? 1.0f : q.chance(0.5) ? -3e5f : 1e-20f;
    for (size_t i = 0; i < c.f.size(); ++i) {
      if (std::isnan(c.f[i])) continue;
      if (odd == 1) { float v = b; for (u64 j = q.below(5); j > 0; --j) v = nextafterf(v, INFINITY); c.f[i] = v; }
      else c.f[i] = (float)((q.unit() - (q.chance(0.5) ? 0.5 : 0)) * 6.7e38);
      if (std::isinf(c.f[i])) c.f[i] = 3e38f;
      c.tok[i] = tok_float(c.f[i]);
    }
  }
  if (odd == 3)
    for (int i = 0; i < t.t.rows; ++i) {
      t.w[i] = 1;
      if (run.knob("loss") == 0) t.y[i] = floorf(t.y[i]);
    }
  for (int i = 0; i < t.t.rows; ++i) if ((int)q.below(100) < run.knob("zero_w")) t.w[i] = 0;
  for (auto& c : t.t.cols) {
    if (c.name == "weight") for (int i = 0; i < t.t.rows; ++i) { c.f[i] = t.w[i]; c.tok[i] = tok_float(t.w[i]); }
    if (c.name == "target") for (int i = 0; i < t.t.rows; ++i) { c.f[i] = t.y[i]; c.tok[i] = tok_float(t.y[i]); }
  }
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  RtConfig c = run.config();
  run.spawn(c, [&] {
    gbdt::Forest base, f;
    int nb = (int)run.knob("base");
    { Oracle o; Rng fr(run.seed_of("base")); if (nb) base = random_forest(fr, t.t, nb, 4); }
    rt_faults_enable(1);
    history(run);
    std::string err;
    auto ds = make_store(t, &err);
    if (!ds) { Oracle o; violate("C20 the data does not load", err); }
    FLAGS_num_threads = t.threads;
    gbdt::Subsampling::Reseed(t.seed);
    Recorder rec;
    rec.in = gbdt::LossFuncFactory::CreateLossFunc(t.config);
    std::unordered_set<std::string> feats(t.features.begin(), t.features.end());
    if (t.source == 2 && t.config.group_column().size()) ds->GetColumn(t.config.group_column());
    const std::vector<float>*w = &t.w, *y = &t.y;
    Recorder* rp = &rec;
    int n = t.t.rows;
    FloatVector fw = [w, rp, n](int i) { if (i >= 0 && i < n && rp->fitting) rp->rounds.back().used[i] = 1; return (*w)[i]; };
    FloatVector fy = [y](int i) { return (*y)[i]; };
    auto st = gbdt::TrainGBDT(ds.get(), feats, fw, fy, &rec, t.config, nb ? &base : nullptr, &f);
    Oracle o;
    if (!st.ok()) { note("training_errors"); return 0; }
    int rounds = t.config.num_trees();
    if ((int)rec.rounds.size() != rounds) violate("C20 wrong number of rounds", sfmt("%zu instead of %d", rec.rounds.size(), rounds));
    int kept = 0;
    for (auto& x : base.tree()) kept += x.has_left_child();
    if (f.tree_size() != 1 + kept + rounds) violate("C20 wrong number of trees", sfmt("%d instead of %d", f.tree_size(), 1 + kept + rounds));
    std::vector<double> cur(n, 0.0), mag(n, 0.0);
    double cst = 0, cmag = 0;
    for (auto& x : base.tree()) {
      if (!x.has_left_child()) { cst += x.score(); cmag += fabs(x.score()); }
      for (int i = 0; i < n; ++i) { double v = walk(x, t.t, i); cur[i] += v; mag[i] += fabs(v); }
    }
    bool finite = true;
    for (int k = 0; k < rounds; ++k) {
      const Round& rd = rec.rounds[k];
      for (int i = 0; i < n; ++i) {
        if (!std::isfinite(rd.g[i]) || !std::isfinite(rd.h[i]) || !std::isfinite(rd.f[i]) || !(fabs(rd.g[i]) < 1e15)) finite = false;
        if (finite && !(fabs(rd.f[i] - cur[i]) <= 1e-9 * (1 + mag[i])))
          violate("C20 a round does not start from the scores of the trees so far", sfmt("round %d row %d: %.17g instead of %.17g", k, i, rd.f[i], cur[i]));
      }
      if (!finite) { note("diverging"); break; }
      const gbdt::TreeNode& tree = f.tree(1 + kept + k);
      std::vector<int> rows;
      for (int i = 0; i < n; ++i) if (rd.used[i]) rows.push_back(i);
      bool sampled = t.config.example_sampling_rate() < 1;
      bool known = true;
      if (!sampled) {
        rows.clear();
        for (int i = 0; i < n; ++i) rows.push_back(i);
      } else if ((int)rows.size() == n || rows.empty()) {
        known = false;       // weights of all rows asked for, or of none: which ones are used cannot be told
      }
      if (known) {
        Checker ck{t, rd, t.config.l2_lambda(), t.config.min_hessian(), t.config.min_gain(), t.config.feature_sampling_rate() >= 1, sfmt("round %d ", k)};
        ck.tree(tree, rows);
        if (sampled) note("sampled_trees_checked");
      }
      for (int i = 0; i < n; ++i) { double v = walk(tree, t.t, i); cur[i] += v + rd.c; mag[i] += fabs(v) + fabs(rd.c); }
      cst += rd.c;
      cmag += fabs(rd.c);
    }
    if (finite && f.tree(0).has_left_child()) violate("C20 the first tree is not constant", "");
    if (finite && !(fabs(f.tree(0).score() - cst) <= 1e-6 * (cmag * (rounds + nb)) + 1e-30))
      violate("C20 wrong constant", sfmt("%.9g instead of %.9g", f.tree(0).score(), cst));
    note("trainings");
    return 0;
  });
}
Register r20({"C20", "best-splits", gen20, exec20});


// ---- C21 ----------------------------------------------------------------------------------------
void gen21(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  int loss = (int)r.below(7);
  k.set("loss", loss); k.set("min.loss", loss);
  k.set("rows", r.chance(0.1) ? r.range(100, 600) : r.range(1, 60)); k.set("min.rows", 1);
  k.set("nthreads", r.range(1, 8)); k.set("min.nthreads", 1);
  k.set("weights", (i64)r.below(3));
  k.set("start", (i64)r.below(5));        // 0 zero, 1 small, 2 wide, 3 all equal, 4 huge
  k.set("rounds", r.range(1, 4)); k.set("min.rounds", 1);
  k.set("skew", r.range(0, 100));
  k.set("delta", (i64)r.below(2));
  k.set("equal_group", (i64)r.below(2));
  k.set("per_pair", r.range(1, 6));
  k.set("levels", r.chance(0.3) ? 0 : r.range(2, 5));
  k.set("big_groups", r.chance(0.4) ? r.range(1, 3) : 0);
  k.set("nogroup", r.chance(0.05));
  k.set("base10", r.chance(0.4) ? r.range(11, 90) : 0);
  k.set("rng", (i64)r.below(1 << 20));
  // Groups in which one row has another target than the rest.
  k.set("stars", r.chance(0.6) ? r.range(1, 4) : 0);
  k.set("star_rows", r.chance(0.06) ? r.range(95, 130) : r.range(3, 9)); k.set("min.star_rows", 3);
}

struct D { double g, h; bool kink; };
// Negative derivative and second derivative of the loss at score f.
D pointwise(int loss, double y, double f) {
  if (loss == 0) return {y - f, 1, false};
  double m = y * f;
  if (loss == 1) { double p = 1 / (1 + exp(m)); return {y * p, p * (1 - p), false}; }
  bool kink = fabs(m) < 1e-7 || fabs(m - 1) < 1e-7;
  return m >= 1 ? D{0, 0, kink} : m >= 0 ? D{(1 - m) * y, 1, kink} : D{y, 0, kink};
}
D pairwise(int loss, double dt, double df) {
  if (loss == 3) return pointwise(2, 1, df);
  if (loss == 4 || loss == 6) return pointwise(1, 1, df);
  double e = dt - df;          // gbrank: square of the missing difference, halved
  bool kink = fabs(e) < 1e-5 * (1 + fabs(dt) + fabs(df));     // the targets may be subtracted in single precision
  return e > 0 ? D{e, 1, kink} : D{0, 0, kink};
}

void pointwise21(const Run& run, int loss, const std::vector<double>& f, const std::vector<float>& y, const std::vector<float>& w,
                 double c, const std::vector<gbdt::GradientData>& gd) {
  int n = (int)f.size();
  if (!std::isfinite(c)) { note("diverging"); return; }
  for (int i = 0; loss && i < n; ++i)
    if (!(gd[i].g * y[i] >= 0) || !(fabs(gd[i].g) <= (loss == 1 ? 1.0 : INFINITY)) || !(gd[i].h >= 0 && gd[i].h <= 1))
      violate("C21 wrong gradient or hessian", sfmt("loss %s row %d of %d, target %g, score %.9g, constant %.9g: %.12g %.12g", loss_name(loss), i, n, y[i], f[i], c, gd[i].g, gd[i].h));
  // The score at which the derivatives were taken is f plus one shift for all rows. Find it.
  double shift = NAN, best = 1e9;
  for (int i = 0; i < n; ++i) {
    if (loss == 0) { shift = y[i] - f[i] - gd[i].g; break; }
    double p = gd[i].g * y[i];
    if (loss == 1 && p > 0 && p < 1 && fabs(p - 0.5) < best) { best = fabs(p - 0.5); shift = -log(p / (1 - p)) * y[i] - f[i]; }
    if (loss == 2 && gd[i].h > 0 && fabs(p - 0.5) < best) { best = fabs(p - 0.5); shift = (1 - p) * y[i] - f[i]; }
  }
  if (std::isnan(shift) || (loss == 1 && best > 0.4999)) { note("saturated"); return; }
  double scale = 1 + fabs(shift);
  for (double x : f) scale = std::max(scale, fabs(x));
  double G = 0, H = 0, W = 0;
  bool kink = false;
  for (int i = 0; i < n; ++i) {
    D d = pointwise(loss, y[i], f[i] + shift);
    kink = kink || d.kink;
    if (!d.kink && (!(fabs(d.g - gd[i].g) <= 1e-7 * scale) || !(fabs(d.h - gd[i].h) <= 1e-7 * scale)))
      violate("C21 wrong gradient or hessian", sfmt("loss %s row %d of %d, target %g, score %.9g shifted by %.9g: %.12g %.12g instead of %.12g %.12g",
              loss_name(loss), i, n, y[i], f[i], shift, gd[i].g, gd[i].h, d.g, d.h));
    G += w[i] * d.g;
    H += w[i] * d.h;
    W += w[i];
  }
  note("gradients_checked", n);
  // Newton's iteration as the reference: where it settles, so must the constant.
  double x = 0;
  bool settled = false;
  for (int it = 0; it < 8 && !settled; ++it) {
    double g = 0, h = 0;
    for (int i = 0; i < n; ++i) { D d = pointwise(loss, y[i], f[i] + x); g += w[i] * d.g; h += w[i] * d.h; }
    if (h <= 1e-6 * W) break;
    x += g / h;
    settled = fabs(g / h) < 1e-5;
  }
  if (!settled || kink) { note("newton_does_not_settle"); return; }
  double g = 0, h = 0;
  for (int i = 0; i < n; ++i) { D d = pointwise(loss, y[i], f[i] + x); g += w[i] * d.g; h += w[i] * d.h; }
  if (h < 0.01 * W || fabs(g) > 1e-4 * h) { note("newton_does_not_settle"); return; }
  if (fabs(c - x) > 1e-3 * scale || fabs(shift - x) > 1e-3 * scale)
    violate("C21 the constant step is not the minimiser", sfmt("loss %s, %d rows: constant %.9g, gradients taken at %.9g, minimum at %.9g", loss_name(loss), n, c, shift, x));
  note("constants_checked");
}

void exec21(Run& run) {
  RtConfig c = run.config();
  run.spawn(c, [&] {
    int loss = (int)run.knob("loss"), n = (int)run.knob("rows");
    bool pw = is_pairwise(loss);
    std::vector<float> y, w;
    std::vector<double> f;
    std::vector<std::string> g;
    std::map<std::string, std::vector<int>> grp;
    gbdt::Config config;
    double prob = 0;
    u64 most = 0;
    std::map<std::string, u64> pairs;
    { Oracle o;
      Rng r(run.seed_of("rows"));
      int levels = (int)run.knob("levels"), wk = (int)run.knob("weights");
      bool nog = run.knob("nogroup");
      if (nog && pw) n = 2;
      for (int i = 0; i < n; ++i) {
        if (loss == 1 || loss == 2) y.push_back((int)r.below(100) < run.knob("skew") ? 1.0f : -1.0f);
        else y.push_back(levels ? (float)((i64)r.below(levels)) : (float)(r.unit() * 6 - 3));
        w.push_back(wk == 0 ? 1.0f : wk == 1 ? (float)(0.1 + r.unit() * 3) : (float)r.below(3));
        // Mostly groups of two; a few bigger ones.
        g.push_back(i < run.knob("big_groups") * 8 ? sfmt("big%d", i / 8) : sfmt("p%d", i / 2));
        if (nog) g.back() = "";
        grp[g.back()].push_back(i);
      }
      for (int s = 0; s < run.knob("stars") && pw && !nog; ++s) {
        int m = (int)r.range(3, run.knob("star_rows")), odd = (int)r.below(m);
        if (run.knob("star_rows") > 90 && s == 0) m = (int)run.knob("star_rows");
        float v0 = (float)((i64)r.below(4)), dt = (float)(1 + (i64)r.below(3)) * (r.chance(0.5) ? 1 : -1);
        for (int i = 0; i < m; ++i) {
          y.push_back(i == odd ? v0 + dt : v0);
          w.push_back(wk == 0 ? 1.0f : (float)(0.1 + r.unit() * 3));
          g.push_back(sfmt("star%d", s));
          grp[g.back()].push_back(n++);
        }
      }
      u64 total = 0;
      for (auto& e : grp) {
        for (int a : e.second) for (int b : e.second) pairs[e.first] += y[a] > y[b];
        total += pairs[e.first];
        most = std::max(most, pairs[e.first]);
      }
      config.set_loss_func(loss_name(loss));
      config.set_pair_weight_by_delta_target(run.knob("delta"));
      config.set_equal_group_weight(run.knob("equal_group"));
      if (run.knob("base10")) config.set_lambdamart_dcg_base(run.knob("base10") / 10.0f);
      float rate = 1;
      if (total) rate = (float)((run.knob("per_pair") + 0.5) * 2 * total / n);
      config.set_pair_sampling_rate(rate);
      prob = total ? (double)rate * n / total / 2 : 0;
    }
    std::unique_ptr<gbdt::StringColumn> col;
    if (pw && !run.knob("nogroup")) {
      col.reset(new gbdt::StringColumn("group"));
      std::vector<std::string> gg = g;
      col->Add(&gg);
      col->Finalize();
    }
    FLAGS_num_threads = (int)run.knob("nthreads");
    gbdt::Subsampling::Reseed((uint32)run.knob("rng"));
    auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
    FloatVector fw = [&w](int i) { return w[i]; };
    FloatVector fy = [&y](int i) { return y[i]; };
    rt_faults_enable(1);
    auto st = lf->Init(n, fw, fy, col.get());
    if (!st.ok()) { Oracle o; violate("C21 loss function cannot be initialised", st.ToString()); }
    std::vector<gbdt::GradientData> gd;
    Rng r(run.seed_of("scores"));
    for (int round = 0; round < run.knob("rounds"); ++round) {
      { Oracle o;
        f.clear();
        int kind = (int)run.knob("start");
        double all = r.unit() * 4 - 2;
        for (int i = 0; i < n; ++i) f.push_back(kind == 0 ? 0 : kind == 1 ? r.unit() - 0.5 : kind == 2 ? r.unit() * 12 - 6 : kind == 3 ? all :
                                                 (r.unit() - 0.5) * (r.chance(0.3) ? 20 : r.chance(0.5) ? 3000 : 1e6)); }
      double cst = 123;
      std::string progress;
      lf->ComputeFunctionalGradientsAndHessians(f, &cst, &gd, &progress);
      Oracle o;
      if ((int)gd.size() != n) violate("C21 wrong number of gradients", sfmt("%zu for %d rows", gd.size(), n));
      note("rounds");
      if (!pw) { pointwise21(run, loss, f, y, w, cst, gd); continue; }
      double db = run.knob("base10") ? (double)config.lambdamart_dcg_base() : 2.0;
      double factor = NAN;           // common to all groups of one pair
      for (auto& e : grp) {
        if (e.second.size() != 2 || pairs[e.first] != 1) continue;
        int a = e.second[0], b = e.second[1];
        if (y[a] < y[b]) std::swap(a, b);
        double K = floor(prob), dt = (double)y[a] - y[b], df = f[a] - f[b];
        D d = pairwise(loss, dt, df);
        if (d.kink) continue;
        double wt = (double)w[a] * w[b];
        if (loss == 6) wt *= dt * fabs(1 - log(db) / log(db + 1));
        else if (run.knob("delta")) wt *= dt;
        if (run.knob("equal_group")) wt *= (double)most;
        double eg = K * wt * d.g, eh = 2 * K * wt * d.h;
        double tg = 1e-5 * fabs(eg) + 1e-6 * K * wt * (1 + fabs(dt) + fabs(df)) + 1e-12, th = 1e-5 * fabs(eh) + 1e-12;
        if (!(fabs(gd[a].g - eg) <= tg) || !(fabs(gd[b].g + eg) <= tg) || !(fabs(gd[a].h - eh) <= th) || !(fabs(gd[b].h - eh) <= th))
          violate("C21 wrong gradient or hessian", sfmt("loss %s, a pair with targets %g and %g, scores %.9g and %.9g, weights %g and %g, compared %g times: %.9g %.9g and %.9g %.9g instead of %.9g %.9g",
                  loss_name(loss), y[a], y[b], f[a], f[b], w[a], w[b], K, gd[a].g, gd[a].h, gd[b].g, gd[b].h, eg, eh));
        note("pairs_checked");
      }
      (void)factor;
      // With one odd row every other row of a group has one partner: it was compared some whole number of times.
      for (auto& e : grp) {
        if (e.first.compare(0, 4, "star")) continue;
        int odd = e.second[0], m = (int)e.second.size();
        for (int a : e.second) { int same = 0; for (int b : e.second) same += y[a] == y[b]; if (same == 1) odd = a; }
        std::vector<double> fs;
        for (int a : e.second) fs.push_back(f[a]);
        std::sort(fs.begin(), fs.end(), std::greater<double>());
        if (std::unique(fs.begin(), fs.end()) != fs.end() && loss == 6) continue;         // ranks are anyone's guess
        auto rank = [&](int a) { return (double)(std::find(fs.begin(), fs.end(), f[a]) - fs.begin()); };
        double P = m - 1, total = 0, slack = 1e-6;
        bool all = true;
        for (int a : e.second) {
          if (a == odd) continue;
          bool up = y[a] > y[odd];
          double dt = fabs((double)y[a] - y[odd]), df = up ? f[a] - f[odd] : f[odd] - f[a];
          D d = pairwise(loss, dt, df);
          double wt = (double)w[a] * w[odd];
          if (loss == 6) wt *= dt * fabs(log(db) / log(db + rank(a)) - log(db) / log(db + rank(odd)));
          else if (run.knob("delta")) wt *= dt;
          if (run.knob("equal_group")) wt *= (double)most / P;
          if (d.kink || fabs(d.g) < 1e-2 || fabs(df) > 50) { all = false; continue; }
          double k = gd[a].g * (up ? 1 : -1) / (wt * d.g);
          double tol = 1e-3 + 2e-4 * fabs(k);
          if (!(fabs(k - floor(k + 0.5)) <= tol) || k < -0.5 || !(fabs(gd[a].h - 2 * k * wt * d.h) <= 1e-3 * (1 + fabs(gd[a].h))))
            violate("C21 wrong gradient or hessian", sfmt("loss %s, group of %d rows, one of them odd: targets %g and %g, scores %.9g and %.9g, weights %g and %g: gradient %.9g hessian %.9g is that of %.6g comparisons",
                    loss_name(loss), m, y[a], y[odd], f[a], f[odd], w[a], w[odd], gd[a].g, gd[a].h, k));
          total += floor(k + 0.5);
          note("star_rows_checked");
        }
        if (all && !(total >= floor(P * prob * (1 - slack)) && total <= ceil(P * prob * (1 + slack))))
          violate("C21 wrong number of comparisons", sfmt("loss %s, group of %d rows: %g comparisons, %g expected", loss_name(loss), m, total, P * prob));
      }
      // Groups of equal weight: however many pairs a group has, its comparisons together weigh the same.
      if (run.knob("equal_group") && run.knob("weights") == 0 && run.knob("start") == 0 && (loss == 3 || loss == 4) && !run.knob("delta"))
        for (auto& e : grp) {
          double P = (double)pairs[e.first], K = floor(P * prob), K2 = floor(P * prob + 1e-6);
          if (!P || K != K2 || floor(P * prob - 1e-6) != K) continue;
          double hs = 0, want = 4 * (loss == 3 ? 1.0 : 0.25) * K * (double)most / P;
          for (int a : e.second) hs += gd[a].h;
          if (!(fabs(hs - want) <= 1e-6 * want)) violate("C21 groups do not have equal weight", sfmt("loss %s, %zu rows, %g pairs: %.9g instead of %.9g", loss_name(loss), e.second.size(), P, hs, want));
          note("group_weights_checked");
        }
    }
    return 0;
  });
}
Register r21({"C21", "gradients", gen21, exec21});

}  // namespace
