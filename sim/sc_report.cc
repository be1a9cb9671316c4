// C31: what a training reports (losses, elapsed time, configuration) is true.
#include "work.h"
#include "recorder.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <gflags/gflags.h>
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

// ---- The losses ---------------------------------------------------------------------------------
double pointwise_loss(int loss, double y, double f) {
  double m = y * f;
  if (loss == 0) return (y - f) * (y - f);
  if (loss == 1) return m > 0 ? log1p(exp(-m)) : log1p(exp(m)) - m;
  return m >= 1 ? 0 : m >= 0 ? 0.5 * (1 - m) * (1 - m) : 0.5 - m;
}
double pairwise_loss(int loss, double dt, double df) {
  if (loss == 3) return pointwise_loss(2, 1, df);
  if (loss == 4 || loss == 6) return pointwise_loss(1, 1, df);
  double e = dt - df;
  return e > 0 ? e * e : 0;
}

// "...loss=X,reduced=Y%"
bool parse(const std::string& s, double* loss, double* reduced) {
  size_t p = s.find("loss="), q = s.find("reduced=");
  if (p == std::string::npos || q == std::string::npos || s.empty() || s.back() != '%') return false;
  char *e, *e2;
  *loss = strtod(s.c_str() + p + 5, &e);
  *reduced = strtod(s.c_str() + q + 8, &e2);
  return *e == ',' && *e2 == '%' && !e2[1];
}

struct Reports {
  double first = NAN;
  void check(const std::string& progress, double want, double tol, const std::string& what) {
    double l, red;
    if (!parse(progress, &l, &red)) violate("C31 no loss is reported", "'" + progress + "'");
    if (!std::isfinite(want)) { first = INFINITY; return; }
    if (!(fabs(l - want) <= tol)) violate("C31 wrong loss reported", sfmt("%.12g instead of %.12g (%s)", l, want, what.c_str()));
    note("losses_checked");
    if (std::isnan(first)) first = l;
    if (!std::isfinite(first) || first < 0) return;
    double r = first == 0 ? 0 : (first - l) / first * 100;
    if (!(fabs(red - r) <= 0.0051 + 1e-9 * fabs(r))) violate("C31 wrong reduction reported", sfmt("%.6g%% instead of %.6g%% (%s)", red, r, what.c_str()));
  }
};

void gen31(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  int loss = (int)r.below(7);
  k.set("loss", loss); k.set("min.loss", loss);
  k.set("rows", r.chance(0.1) ? r.range(100, 600) : r.range(1, 60)); k.set("min.rows", 1);
  k.set("nthreads", r.range(1, 8)); k.set("min.nthreads", 1);
  k.set("weights", (i64)r.below(3));
  k.set("start", (i64)r.below(4));        // 0 zero, 1 small, 2 wide, 3 all equal
  k.set("rounds", r.range(1, 5)); k.set("min.rounds", 1);
  k.set("skew", r.range(0, 100));
  k.set("delta", (i64)r.below(2));
  k.set("equal_group", (i64)r.below(2));
  k.set("per_pair", r.range(1, 6));
  k.set("levels", r.chance(0.3) ? 0 : r.range(2, 5));
  k.set("rng", (i64)r.below(1 << 20));
  k.set("before", r.chance(0.4));
}

// Rounds of one loss function at random scores. Pairwise: groups of two, so that every comparison is known.
void losses(const Run& run, u64 seed) {
  int loss = (int)run.knob("loss"), n = (int)run.knob("rows");
  bool pw = is_pairwise(loss);
  std::vector<float> y, w;
  std::vector<double> f;
  gbdt::Config config;
  std::vector<std::string> g;
  double prob = 0, W = 0;
  { Oracle o;
    Rng r(seed);
    int levels = (int)run.knob("levels"), wk = (int)run.knob("weights");
    for (int i = 0; i < n; ++i) {
      if (loss == 1 || loss == 2) y.push_back((int)r.below(100) < run.knob("skew") ? 1.0f : -1.0f);
      else y.push_back(levels ? (float)((i64)r.below(levels)) : (float)(r.unit() * 6 - 3));
      w.push_back(wk == 0 ? 1.0f : wk == 1 ? (float)(0.1 + r.unit() * 3) : (float)r.below(3));
      g.push_back(sfmt("p%d", i / 2));
      W += w.back();
    }
    double total = 0;
    for (int i = 0; i + 1 < n; i += 2) total += y[i] != y[i + 1];
    config.set_loss_func(loss_name(loss));
    config.set_pair_weight_by_delta_target(run.knob("delta"));
    config.set_equal_group_weight(run.knob("equal_group"));
    float rate = total ? (float)((run.knob("per_pair") + 0.5) * 2 * total / n) : 1;
    config.set_pair_sampling_rate(rate);
    prob = total ? floor((double)rate * n / total / 2) : 0; }
  std::unique_ptr<gbdt::StringColumn> col;
  if (pw) {
    col.reset(new gbdt::StringColumn("group"));
    std::vector<std::string> gg = g;
    col->Add(&gg);
    col->Finalize();
  }
  FLAGS_num_threads = (int)run.knob("nthreads");
  auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
  auto st = lf->Init(n, [&w](int i) { return w[i]; }, [&y](int i) { return y[i]; }, col.get());
  if (!st.ok()) { Oracle o; violate("C31 loss function cannot be initialised", st.ToString()); }
  std::vector<gbdt::GradientData> gd;
  Rng r(seed + 1);
  Reports rep;
  for (int round = 0; round < run.knob("rounds"); ++round) {
    { Oracle o;
      f.clear();
      int kind = (int)run.knob("start");
      double all = r.unit() * 4 - 2;
      for (int i = 0; i < n; ++i) f.push_back(kind == 0 && round == 0 ? 0 : kind <= 1 ? r.unit() - 0.5 : kind == 2 ? r.unit() * 12 - 6 : all); }
    double c = 0;
    std::string progress;
    lf->ComputeFunctionalGradientsAndHessians(f, &c, &gd, &progress);
    Oracle o;
    std::string what = sfmt("loss %s, %d rows, %d threads, round %d", loss_name(loss), n, (int)FLAGS_num_threads, round);
    double sum = 0, abs = 0, ws = 0;
    if (pw) {
      for (int i = 0; i + 1 < n; i += 2) {
        if (y[i] == y[i + 1]) continue;
        int a = y[i] > y[i + 1] ? i : i + 1, b = i + (i + 1) - a;
        double dt = (double)y[a] - y[b], df = f[a] - f[b], wt = (double)w[a] * w[b] * prob;
        if (loss == 6) wt *= dt * fabs(1 - log(2) / log(3)); else if (run.knob("delta")) wt *= dt;
        double l = wt * pairwise_loss(loss, dt, df);
        sum += l; abs += fabs(l) + wt * 1e-3; ws += wt;
      }
      if (ws <= 0) { note("nothing_to_compare"); continue; }
    } else {
      // The gradients tell at which shift of the scores they and the loss were taken.
      if (W <= 0 || !std::isfinite(c)) { note("diverging"); rep.first = INFINITY; continue; }
      double shift = NAN, best = 1e9;
      for (int i = 0; i < n; ++i) {
        if (loss == 0) { shift = y[i] - f[i] - gd[i].g; break; }
        double p = gd[i].g * y[i];
        if (loss == 1 && p > 0 && p < 1 && fabs(p - 0.5) < best) { best = fabs(p - 0.5); shift = -log(p / (1 - p)) * y[i] - f[i]; }
        if (loss == 2 && gd[i].h > 0 && fabs(p - 0.5) < best) { best = fabs(p - 0.5); shift = (1 - p) * y[i] - f[i]; }
      }
      if (std::isnan(shift) || (loss == 1 && best > 0.499)) { note("saturated"); rep.first = INFINITY; continue; }
      for (int i = 0; i < n; ++i) {
        double l = w[i] * pointwise_loss(loss, y[i], f[i] + shift);
        sum += l; abs += fabs(l) + w[i] * 1e-3; ws += w[i];
      }
    }
    rep.check(progress, sum / ws, 1e-6 * abs / ws + 1e-12, what);
  }
}
void exec31(Run& run) {
  run.spawn(run.config(), [&] {
    rt_faults_enable(1);
    gbdt::Subsampling::Reseed((uint32)run.knob("rng"));
    if (run.knob("before")) losses(run, run.seed_of("before"));
    losses(run, run.seed_of("rows"));
    return 0;
  });
}
Register r31({"C31", "reported-losses", gen31, exec31});

// ---- Elapsed time and configuration ---------------------------------------------------------------
void gen31t(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SMALL);
  k.set("trees", r.range(1, 5));
  k.set("rows", r.range(1, 30)); k.set("min.rows", 1);
  k.set("clockjump", r.chance(0.7) ? r.range(1, 1000) : 0);
  if (r.chance(0.5)) { static const int steps[] = {1, 1000, 100000, 1000000, 10000000}; k.set("clock_step", steps[r.below(5)]); }
  gen_history(r, k);
}

// "3d2h1m4.5s", "17ms", "" (less than what is printed): seconds. NaN: something else.
double duration(const std::string& s) {
  double t = 0;
  size_t p = 0;
  while (p < s.size()) {
    char* e;
    double v = strtod(s.c_str() + p, &e);
    size_t q = (size_t)(e - s.c_str());
    if (q == p) return NAN;
    if (s.compare(q, 2, "ms") == 0) { t += v / 1000; q += 2; }
    else if (s[q] == 'd') { t += v * 86400; ++q; }
    else if (s[q] == 'h') { t += v * 3600; ++q; }
    else if (s[q] == 'm') { t += v * 60; ++q; }
    else if (s[q] == 's') { t += v; ++q; }
    else return NAN;
    p = q;
  }
  return t;
}

void exec31t(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  run.spawn(run.config(), [&] {
    gbdt::Forest base, f;
    rt_faults_enable(1);
    history(run);
    std::string err;
    auto ds = make_store(t, &err);
    if (!ds) { Oracle o; violate("C31 the data does not load", err); }
    u64 m0, w0, m1, w1;
    RtStats s0, s1;
    { Oracle o;
      Rng q(run.seed_of("base"));
      if (run.knob("base")) { base = random_forest(q, t.t, (int)run.knob("base"), 4); base.set_meta_info("the older forest"); }
      rt_stats(&s0);
      rt_now(&m0, &w0); }
    err = train_forest(t, ds.get(), run.knob("base") ? &base : nullptr, &f);
    Oracle o;
    rt_now(&m1, &w1);
    rt_stats(&s1);
    if (!err.empty()) { note("training_errors"); return 0; }
    const std::string& m = f.meta_info();
    for (auto& x : {sfmt("num_trees: %d", t.config.num_trees()), sfmt("num_leaves: %d", t.config.num_leaves()), "loss_func: '" + t.loss + "'"})
      if (m.find(x) == std::string::npos) violate("C31 the model tells of another configuration", "no " + x + " in: " + m);
    size_t a = m.find("trained at "), b = m.find(" for ", a), e = m.find(" with ", b);
    if (a == std::string::npos || b == std::string::npos || e == std::string::npos) violate("C31 the model does not tell when it was trained", m);
    std::string took = m.substr(b + 5, e - b - 5), at = m.substr(a + 11, b - a - 11);
    double d = duration(took), T = (double)(m1 - m0) / 1e9;
    bool jumps = s1.fired[F_CLOCK] != s0.fired[F_CLOCK];
    note(jumps ? "trainings_with_clock_jumps" : "trainings_with_a_steady_clock");
    if (!(d >= 0 && d <= T + 0.06)) violate("C31 wrong training time reported", sfmt("'%s' although %.6g s have passed", took.c_str(), T));
    if (jumps) return 0;
    // Loading the column of groups from a file comes first and does not count.
    if (t.source != 2 && d < T * 0.2 - 0.1) violate("C31 wrong training time reported", sfmt("'%s' although %.6g s have passed", took.c_str(), T));
    struct tm x;
    memset(&x, 0, sizeof x);
    if (!strptime(at.c_str(), "%Y-%m-%d %H:%M:%S", &x)) violate("C31 the model does not tell when it was trained", m);
    x.tm_isdst = -1;
    double when = (double)mktime(&x);
    if (!(when >= (double)w0 / 1e9 - 1.01 && when <= (double)w1 / 1e9 + 1.01)) violate("C31 wrong date of training reported", sfmt("'%s', between %.0f and %.0f", at.c_str(), (double)w0 / 1e9, (double)w1 / 1e9));
    note("dates_checked");
    return 0;
  });
}
Register r31t({"C31", "training-records", gen31t, exec31t});

}  // namespace
