// C14: which rows a pairwise loss compares.
#include "work.h"
#include <math.h>
#include <algorithm>
#include <map>
#include <gflags/gflags.h>
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

enum { M_DECODE = 0, M_MARGINS = 1, M_PUSHES = 2 };

void gen(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  int mode = r.chance(0.4) ? M_DECODE : r.chance(0.6) ? M_MARGINS : M_PUSHES;
  k.set("mode", mode); k.set("min.mode", mode);
  int loss = 3 + (int)r.below(4);
  if (mode == M_MARGINS && loss == 6) loss = 3 + (int)r.below(3);    // lambdamart weighs pairs unequally
  k.set("loss", loss); k.set("min.loss", loss);
  int shape = (int)r.below(10);
  k.set("groups", mode == M_DECODE ? (i64)(r.chance(0.5) ? 1 : r.range(1, 6)) : shape == 0 ? r.range(60, 300) : r.range(1, 9)); k.set("min.groups", 1);
  k.set("nogroup", r.chance(0.15)); k.set("missing", r.chance(0.3) ? r.range(5, 40) : 0);
  k.set("rows", shape == 0 && mode != M_DECODE ? r.range(100, 400) : mode == M_DECODE ? (r.chance(0.6) ? r.range(2, 7) : r.range(2, 16)) : r.range(1, 50)); k.set("min.rows", 1);
  k.set("levels", r.chance(0.1) ? 1 : r.chance(0.3) ? 0 : r.range(2, 5)); k.set("min.levels", k.get("levels"));   // 0: continuous
  // Targets that differ by their last bits only.
  k.set("near", loss != 6 && k.get("levels") != 0 && r.chance(0.2) ? r.range(1, 3) : 0);
  if (k.get("near")) k.set("delta", 0);
  k.set("singles", r.chance(0.3) ? r.range(10, 90) : 0);
  k.set("flat_groups", r.chance(0.4) ? r.range(10, 80) : 0);
  k.set("weights", mode == M_MARGINS ? 0 : (i64)r.below(2));
  if (!k.get("near")) k.set("delta", mode == M_MARGINS ? 0 : (i64)r.below(2));
  k.set("equal_group", r.chance(0.3));
  k.set("scores", mode == M_PUSHES || (mode == M_DECODE && (loss == 4 || loss == 6)) ? (i64)r.below(2) : 0);
  k.set("nthreads", r.range(1, 8)); k.set("min.nthreads", 1);
  k.set("rounds", mode == M_DECODE ? (r.chance(0.2) ? r.range(1, 20) : r.range(100, 400)) : mode == M_MARGINS ? r.range(1, 25) : r.range(1, 12)); k.set("min.rounds", 1);
  k.set("per_group", mode == M_MARGINS ? (r.chance(0.5) ? r.range(100, 3000) : r.range(1, 60)) : r.range(0, 8));
  k.set("rng", (i64)r.below(1 << 20));
}

// Log of an upper bound (Chernoff) on the probability that a Binomial(n, p) is as far from its mean as x.
double log_tail(double x, double n, double p) {
  if (n <= 0) return 0;
  if (p <= 0) return x > 0 ? -1e9 : 0;
  if (p >= 1) return x < n ? -1e9 : 0;
  x = std::min(n, std::max(0.0, floor(x + 0.5)));
  double q = x / n;
  double kl = 0;
  if (q > 0) kl += q * log(q / p);
  if (q < 1) kl += (1 - q) * log((1 - q) / (1 - p));
  return -n * kl;
}
const double kTail = -28;     // e^-28 < 1e-12

struct Grp {
  std::vector<int> rows;
  u64 pairs = 0;
  std::map<std::pair<int, int>, u64> seen;
  u64 draws = 0;
};

void exec(Run& run) {
  RtConfig c = run.config();
  run.spawn(c, [&] {
    int mode = (int)run.knob("mode"), n = (int)run.knob("rows"), ng = (int)run.knob("groups"), loss = (int)run.knob("loss");
    std::vector<float> y, w;
    std::vector<std::string> g;
    std::vector<double> f;
    std::vector<Grp> grps;
    std::vector<int> group_of(n);
    std::vector<u64> lower(n), upper(n);
    std::vector<double> wins(n), losses(n);
    gbdt::Config config;
    u64 total = 0;
    double prob = 0;
    std::unique_ptr<gbdt::StringColumn> col;
    bool nogroup = run.knob("nogroup");
    { Oracle o;
      Rng r(run.seed_of("pairs"));
      std::map<std::string, int> idx;
      int levels = (int)run.knob("levels");
      std::vector<int> flat(ng);
      for (auto& x : flat) x = (int)r.below(100) < run.knob("flat_groups");
      for (int i = 0; i < n; ++i) {
        int q = (int)r.below(ng);
        std::string name = sfmt("q%d", q);
        bool fl = flat[q] && !nogroup;
        if ((int)r.below(100) < run.knob("missing")) { name = "__missing__"; fl = false; }
        else if ((int)r.below(100) < run.knob("singles")) { name = sfmt("single%d", i); }
        if (nogroup) name = "";
        g.push_back(name);
        y.push_back(fl ? 1.0f : levels == 0 ? (float)(r.unit() * 6 - 3) : (float)((int)r.below(levels)) - (float)(levels == 2));
        if (i64 near = run.knob("near")) {
          float b = near == 1 ? 1.0f : near == 2 ? 16000001.0f : -0.1f;
          int up = (int)y.back() + (levels == 2);
          y.back() = b;
          for (int s = 0; s < up; ++s) y.back() = nextafterf(y.back(), INFINITY);
        }
        w.push_back(run.knob("weights") ? (float)(0.2 + r.unit() * 3) : 1.0f);
        f.push_back(run.knob("scores") ? r.unit() * 4 - 2 : 0.0);
        if (!idx.count(name)) { int k = (int)idx.size(); idx[name] = k; grps.emplace_back(); }
        group_of[i] = idx[name];
        grps[idx[name]].rows.push_back(i);
      }
      u64 least = 0, most = 0;
      for (auto& x : grps) {
        for (int a : x.rows) for (int b : x.rows) if (y[a] > y[b]) { ++x.pairs; ++lower[a]; ++upper[b]; }
        total += x.pairs;
        if (x.pairs) { least = least ? std::min(least, x.pairs) : x.pairs; most = std::max(most, x.pairs); }
      }
      config.set_loss_func(loss_name(loss));
      config.set_pair_weight_by_delta_target(run.knob("delta"));
      config.set_equal_group_weight(run.knob("equal_group"));
      // Decoding: at most one comparison per group and round.
      float rate = 1;
      if (total) {
        double want = mode == M_DECODE ? 1.0 / most * 1.3 : mode == M_MARGINS ? (double)run.knob("per_group") / least * 1.001 : (double)run.knob("per_group") / most;
        if (mode != M_DECODE) want = std::min(want, 1500.0 / total);
        rate = (float)(want * 2 * total / n);
        if (rate <= 0) rate = 0.01f;
      }
      config.set_pair_sampling_rate(rate);
      prob = total ? (double)rate * n / total / 2 : 0;
      if (loss == 6 && r.chance(0.5)) config.set_lambdamart_dcg_base((float)(2 + r.unit() * 10));
    }
    if (!nogroup) {
      col.reset(new gbdt::StringColumn("group"));
      col->Add(&g);
      col->Finalize();
    }
    FLAGS_num_threads = (int)run.knob("nthreads");
    gbdt::Subsampling::Reseed((uint32)run.knob("rng"));
    auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
    FloatVector fw = [&w](int i) { return w[i]; };
    FloatVector fy = [&y](int i) { return y[i]; };
    auto st = lf->Init(n, fw, fy, col.get());
    if (!st.ok()) { Oracle o; violate("C14 loss function cannot be initialised", st.ToString()); }
    rt_faults_enable(1);
    bool unit = mode == M_MARGINS && !run.knob("equal_group");
    double h0 = loss == 3 ? 1 : loss == 4 ? 0.25 : 1;      // hessian of one comparison at score 0
    double rounds = (double)run.knob("rounds");
    std::vector<gbdt::GradientData> gd;
    for (int round = 0; round < rounds; ++round) {
      double cst = 1;
      std::string progress;
      lf->ComputeFunctionalGradientsAndHessians(f, &cst, &gd, &progress);
      Oracle o;
      if ((int)gd.size() != n) violate("C14 wrong number of gradients", sfmt("%zu for %d rows", gd.size(), n));
      if (cst != 0) violate("C14 a pairwise loss moves all scores", sfmt("constant %g", cst));
      for (int i = 0; i < n; ++i) {
        if (!std::isfinite(gd[i].g) || !std::isfinite(gd[i].h)) violate("C14 gradient is not finite", sfmt("row %d: %g %g", i, gd[i].g, gd[i].h));
        if (gd[i].h < 0) violate("C14 negative hessian", sfmt("row %d: %g", i, gd[i].h));
        if (!lower[i] && !upper[i] && (gd[i].g != 0 || gd[i].h != 0))
          violate("C14 a row without a partner is pushed", sfmt("round %d row %d: g %g h %g", round, i, gd[i].g, gd[i].h));
      }
      u64 cmps = 0;
      for (auto& x : grps) {
        // Pushes cross every target level upwards only, and cancel.
        std::vector<int> by = x.rows;
        std::sort(by.begin(), by.end(), [&](int a, int b) { return y[a] > y[b]; });
        double sum = 0, abs = 0, hs = 0;
        for (int a : x.rows) { abs += fabs(gd[a].g); hs += gd[a].h; }
        for (size_t i = 0; i < by.size(); ++i) {
          sum += gd[by[i]].g;
          bool level_end = i + 1 == by.size() || y[by[i + 1]] < y[by[i]];
          if (level_end && sum < -1e-9 * abs) violate("C14 rows with larger targets are pushed down", sfmt("round %d row %d: %g of %g", round, by[i], sum, abs));
        }
        if (fabs(sum) > 1e-9 * abs) violate("C14 pushes within a group do not cancel", sfmt("round %d: %g of %g", round, sum, abs));
        if (mode == M_DECODE && x.pairs) {
          int hi = -1, lo = -1, touched = 0;
          for (int a : x.rows)
            if (gd[a].h != 0 || gd[a].g != 0) { ++touched; if (gd[a].g > 0) hi = a; else if (gd[a].g < 0) lo = a; }
          double expect = x.pairs * prob;
          bool may0 = expect < 1 + 1e-6, may1 = expect > 1 - 1e-6 && expect < 2 - 1e-6;
          if (touched == 0) { if (!may0) violate("C14 a group is not compared", sfmt("round %d: %llu pairs, %g comparisons expected", round, (unsigned long long)x.pairs, expect)); continue; }
          if (!may1) violate("C14 wrong number of comparisons", sfmt("%d rows touched, %g comparisons expected", touched, expect));
          if (touched != 2 || hi < 0 || lo < 0) violate("C14 one comparison does not push one row up and one down", sfmt("round %d: %d rows touched", round, touched));
          if (!(y[hi] > y[lo])) violate("C14 compared rows are not ordered by target", sfmt("round %d: rows %d and %d with targets %g and %g", round, hi, lo, y[hi], y[lo]));
          if (gd[hi].h <= 0 || fabs(gd[hi].h - gd[lo].h) > 1e-9 * gd[hi].h) violate("C14 the two rows of a comparison have different hessians", sfmt("%g %g", gd[hi].h, gd[lo].h));
          x.seen[std::make_pair(hi, lo)]++;
          x.draws++;
          ++cmps;
        }
        if (unit && loss != 5) {
          double k = hs / (4 * h0);
          double expect = floor(x.pairs * prob);
          if (fabs(k - expect) > 1.01) violate("C14 wrong number of comparisons", sfmt("%g in a group of %zu rows with %llu pairs, %g expected", k, x.rows.size(), (unsigned long long)x.pairs, expect));
          x.draws += (u64)llround(k);
          double g0 = loss == 3 ? 1 : 0.5;
          for (int a : x.rows) {
            double deg = gd[a].h / (2 * h0), diff = gd[a].g / g0;
            wins[a] += (deg + diff) / 2;
            losses[a] += (deg - diff) / 2;
          }
          cmps += (u64)k;
        } else if (unit) {       // gbrank: hessian 1 per comparison, gradient the target difference
          double k = hs / 4;
          double expect = floor(x.pairs * prob);
          if (fabs(k - expect) > 1.01) violate("C14 wrong number of comparisons", sfmt("%g in a group of %zu rows with %llu pairs, %g expected", k, x.rows.size(), (unsigned long long)x.pairs, expect));
          x.draws += (u64)llround(k);
          for (int a : x.rows) wins[a] += gd[a].h / 2;      // all comparisons of the row
          cmps += (u64)k;
        }
      }
      if (cmps) note("comparisons", (i64)cmps);
      note("rounds");
      if (total == 0) note("rounds_without_pairs");
    }
    Oracle o;
    for (auto& x : grps) {
      if (!x.draws) continue;
      if (mode == M_DECODE) {
        for (int a : x.rows)
          for (int b : x.rows)
            if (y[a] > y[b]) {
              u64 s = x.seen.count(std::make_pair(a, b)) ? x.seen[std::make_pair(a, b)] : 0;
              double t = log_tail((double)s, (double)x.draws, 1.0 / x.pairs);
              if (t < kTail) violate("C14 eligible pairs are not compared equally often", sfmt("rows %d and %d: %llu of %llu comparisons, %llu eligible pairs (log p %.0f)", a, b, (unsigned long long)s, (unsigned long long)x.draws, (unsigned long long)x.pairs, t));
              note("pair_frequencies_tested");
            }
      } else if (unit) {
        for (int a : x.rows) {
          double t = loss == 5 ? log_tail(wins[a], (double)x.draws, (double)(lower[a] + upper[a]) / x.pairs)
                               : std::min(log_tail(std::max(0.0, wins[a]), (double)x.draws, (double)lower[a] / x.pairs),
                                          log_tail(std::max(0.0, losses[a]), (double)x.draws, (double)upper[a] / x.pairs));
          if (t < kTail) violate("C14 eligible pairs are not compared equally often",
                                 sfmt("row %d: wins %g losses %g of %llu, %llu lower and %llu higher of %llu pairs (log p %.0f)", a, wins[a], losses[a], (unsigned long long)x.draws,
                                      (unsigned long long)lower[a], (unsigned long long)upper[a], (unsigned long long)x.pairs, t));
          note("row_frequencies_tested");
        }
      }
    }
    return 0;
  });
}
Register reg({"C14", "pair-sampling", gen, exec});

// Groups with more than 2^32 eligible pairs.
void gen_large(Rng& r, Knobs& k, int tier) {
  gen_sched_seq(r, k);
  k.set("rows", r.range(131080, 133000)); k.set("min.rows", 131080);
  k.set("levels", r.range(2, 3)); k.set("min.levels", 2);
  k.set("small", r.range(0, 40));          // rows in groups of two
  k.set("order", (i64)r.below(3));
  k.set("nthreads", r.range(1, 4)); k.set("min.nthreads", 1);
  k.set("rng", (i64)r.below(1 << 20));
  k.set("heap", 0); k.set("fill", 256);
  k.set("tick_cap", 2000000000);
}
void exec_large(Run& run) {
  run.spawn(run.config(), [&] {
    int n = (int)run.knob("rows"), levels = (int)run.knob("levels"), small = (int)run.knob("small") / 2 * 2, m = n - small;
    std::vector<float> y(n);
    std::vector<double> f(n, 0.0);
    std::vector<std::string> g;
    std::vector<u64> size(levels), lower(levels), upper(levels);
    u64 pairs = 0;
    gbdt::Config config;
    { Oracle o;
      Rng r(run.seed_of("pairs"));
      for (int i = 0; i < n; ++i) {
        y[i] = i >= m ? (float)((i - m) % 2) : run.knob("order") == 0 ? (float)((i64)i * levels / m) : run.knob("order") == 1 ? (float)(levels - 1 - (i64)i * levels / m) : (float)r.below((u64)levels);
        g.push_back(i >= m ? sfmt("s%d", (i - m) / 2) : "big");
        if (i < m) ++size[(int)y[i]];
      }
      for (int a = 0; a < levels; ++a)
        for (int b = 0; b < a; ++b) { lower[a] += size[b]; upper[b] += size[a]; pairs += size[a] * size[b]; }
      config.set_loss_func("auc");
      config.set_pair_sampling_rate(1);
    }
    gbdt::StringColumn col("group");
    { Oracle o; col.Add(&g); col.Finalize(); }
    FLAGS_num_threads = (int)run.knob("nthreads");
    gbdt::Subsampling::Reseed((uint32)run.knob("rng"));
    auto lf = gbdt::LossFuncFactory::CreateLossFunc(config);
    auto st = lf->Init(n, [](int) { return 1.0; }, [&y](int i) { return y[i]; }, &col);
    if (!st.ok()) { Oracle o; violate("C14 loss function cannot be initialised", st.ToString()); }
    std::vector<gbdt::GradientData> gd;
    double cst = 1;
    std::string progress;
    lf->ComputeFunctionalGradientsAndHessians(f, &cst, &gd, &progress);
    Oracle o;
    note("large_groups");
    // A comparison adds 2 to the hessians of both and 1 to the gradient of the one, -1 to that of the other.
    double hs = 0;
    std::vector<double> wins(levels), losses(levels), winners(levels), losers(levels);
    std::vector<double> part(levels * 8);
    std::vector<u64> rank(levels);
    for (int i = 0; i < m; ++i) {
      hs += gd[i].h;
      double deg = gd[i].h / 2, w = (deg + gd[i].g) / 2, l = (deg - gd[i].g) / 2;
      int v = (int)y[i];
      wins[v] += w; losses[v] += l;
      winners[v] += w > 0.5; losers[v] += l > 0.5;
      part[v * 8 + (int)(rank[v]++ * 8 / size[v])] += deg;
    }
    double k = hs / 4, all = (double)pairs + small / 2, expect = n / 2.0 * (double)pairs / all;
    if (fabs(k - expect) > 2) violate("C14 wrong number of comparisons", sfmt("%g among %llu pairs, %g expected", k, (unsigned long long)pairs, expect));
    for (int v = 0; v < levels; ++v) {
      double s = (double)size[v];
      double t = std::min(log_tail(wins[v], k, (double)size[v] * (double)lower[v] / (double)pairs), log_tail(losses[v], k, (double)size[v] * (double)upper[v] / (double)pairs));
      for (int q = 0; q < 8; ++q) {
        double mine = (double)((u64)(q + 1) * size[v] / 8 - (u64)q * size[v] / 8);
        t = std::min(t, log_tail(part[v * 8 + q], k, mine * (double)(lower[v] + upper[v]) / (double)pairs));
      }
      if (t < kTail) violate("C14 eligible pairs are not compared equally often", sfmt("target %d: %g wins %g losses of %g (log p %.0f)", v, wins[v], losses[v], k, t));
      // Drawn with replacement: so many different rows.
      for (int side = 0; side < 2; ++side) {
        double d = side ? losses[v] : wins[v], seen = side ? losers[v] : winners[v], e = s * (1 - exp(d * log1p(-1 / s)));
        if (fabs(seen - e) > 12 * sqrt(s) + 5) violate("C14 eligible pairs are not compared equally often", sfmt("target %d: %g different rows in %g comparisons, %g expected", v, seen, d, e));
      }
      note("target_levels_tested");
    }
    return 0;
  });
}
Register reg_large({"C14", "large-group", gen_large, exec_large, 0, 8});

}  // namespace
