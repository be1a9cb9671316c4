// C01, C02: training under different schedules and thread counts. C13: resumed training.
#include "work.h"
#include "recorder.h"
#include "src/utils/subsampling.h"
#include <math.h>
#include "src/gbdt_algo/evaluation.h"
#include "src/utils/json_utils.h"
#include <stdlib.h>
#include <string.h>
#include <gflags/gflags.h>
DECLARE_int32(num_threads);
using namespace sim;

namespace sim {

void canonical(Run& run, RtConfig* c) {
  c->strategy = S_SEQ;
  c->sync_permille = 0;
  c->stall_permyriad = 0;
  c->fp[F_SPURIOUS].permille = 0;
  c->fp[F_CLOCK].permille = 0;
  c->fp[F_SLOW].permille = 0;
  c->heap_policy = 0;
  c->heap_offset = 0;
  c->fill = 0;
}

int train_raw_body(const Train& t, const gbdt::Forest* base) {
  std::string err;
  auto ds = make_store(t, &err);
  gbdt::Forest f;
  if (ds) err = train_forest(t, ds.get(), base, &f);
  Oracle o;
  note(err.empty() ? "trainings" : "training_errors");
  blob_put(err.empty() ? "ok " + forest_bytes(f) : "error " + err);
  return 0;
}

// Parses with protobuf only in a forked child: the controlling process stays free of library state.
std::string compare_in_child(Run& run, const std::string& a, const std::string& b, double tie, double tol, double min_gain) {
  RtConfig c = run.config();
  canonical(run, &c);
  run.spawn(c, [&] {
    Oracle o;
    gbdt::Forest x, y;
    if (!x.ParseFromString(a.substr(3)) || !y.ParseFromString(b.substr(3))) { blob_put("cannot parse"); return 0; }
    bool tied;
    std::string d = forest_diff(x, y, tie, tol, min_gain, run.knob("loss") != 0, &tied);
    note(tied ? "compared_until_tie" : "compared_fully");
    blob_put(d);
    return 0;
  });
  return blob_get();
}

// Rounding decides nothing in a well conditioned workload: there the forest stays the same, up to the tolerance, when each
// weight changes by a few units in the last place. Where it does not, two forests cannot be compared.
bool ill_conditioned(Run& run, Train t, const std::string& ref, double tie, double tol, const std::function<int(const Train&)>& body) {
  RtConfig c = run.config();
  canonical(run, &c);
  Rng r(run.seed_of("nudge"));
  std::vector<float> w = t.w;
  for (int i = 0; i < 8; ++i) {
    for (size_t j = 0; j < w.size(); ++j) t.w[j] = w[j] * (float)(1 + (r.unit() - 0.5) * 2e-6);
    run.spawn(c, [&] { return body ? body(t) : train_raw_body(t, nullptr); });
    std::string got = blob_get();
    if (got.compare(0, 3, "ok ")) { note("ill_conditioned"); return true; }
    run.spawn(c, [&] {
      Oracle o;
      gbdt::Forest x, y;
      x.ParseFromString(ref.substr(3));
      y.ParseFromString(got.substr(3));
      bool tied;
      std::string d = forest_diff(x, y, tie, tol, run.knob("min_gain") / 1000.0, false, &tied);
      blob_put(!d.empty() || tied ? "differs" : "");
      return 0;
    });
    if (!blob_get().empty()) { note("ill_conditioned"); return true; }
  }
  return false;
}

}  // namespace sim

namespace {

// ---- C01 ----------------------------------------------------------------------------------------
void gen1(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, r.chance(0.4) ? GT_PAIRWISE : 0);
  k.set("variants", r.range(1, 2)); k.set("min.variants", 1);
  k.set("style", (i64)r.below(8));
  gen_history(r, k);
}

std::string result_of(const Train& t, const gbdt::Forest& f, gbdt::DataStore* ds, const std::string& err) {
  if (!err.empty()) return "error " + err;
  std::string s = "ok " + forest_bytes(f);
  return s;
}

int train_body(const Train& t, const gbdt::Forest* base) {
  std::string err;
  auto ds = make_store(t, &err);
  gbdt::Forest f;
  if (ds) err = train_forest(t, ds.get(), base, &f);
  Oracle o;
  std::string res = result_of(t, f, ds.get(), err);
  bool split = false;
  for (auto& x : f.tree()) split = split || x.has_left_child();
  note(err.empty() ? "trainings" : "training_errors");
  if (split) note("forests_with_splits");
  if (is_pairwise((int)R->knob("loss"))) note("pairwise_trainings");
  blob_put(res);
  return 0;
}

void exec1(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, (int)run.knob("style"));
  Rng fr(run.seed_of("base"));
  gbdt::Forest base;
  int nb = (int)run.knob("base");
  bool past = false;
  auto body = [&] {
    gbdt::Forest b;
    { Oracle o; if (nb) b = random_forest(fr, t.t, nb, 4); }
    rt_faults_enable(1);
    if (past) history(run);
    return train_body(t, nb ? &b : nullptr);
  };
  RtConfig c = run.config();
  canonical(run, &c);
  run.spawn(c, body);
  std::string want = blob_get();
  past = true;
  for (int v = 0; v < run.knob("variants"); ++v) {
    RtConfig d = run.config();
    if (v == 1) {       // a second schedule of another kind
      d.strategy = d.strategy == S_ACCESS ? S_PCT : S_ACCESS;
      d.gap = 50 + d.seed % 3000;
      d.heap_policy = (d.heap_policy + 1) % 3;
      d.fill = d.fill ? 0 : 0xff;
    }
    run.spawn(d, body);
    std::string got = blob_get();
    if (got != want) {
      gbdt::Forest a, b;
      std::string how;
      if (want.compare(0, 3, "ok ") || got.compare(0, 3, "ok ")) how = "outcome: " + want.substr(0, 150) + " versus " + got.substr(0, 150);
      else how = sfmt("forests of %zu and %zu bytes", want.size() - 3, got.size() - 3);
      run.fail("C01 schedule changes the forest", sfmt("loss %s, %d threads, %d rows: %s", t.loss.c_str(), t.threads, t.t.rows, how.c_str()));
    }
  }
}
Register r1({"C01", "train-two-schedules", gen1, exec1});

// ---- C02 ----------------------------------------------------------------------------------------
void gen2(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SAFE | GT_NOBASE);
  if (r.chance(0.3)) k.set("nthreads", r.range(2, 20));
  if (r.chance(0.15)) { k.set("nf", r.range(5, 60)); k.set("nc", r.range(0, 8)); k.set("rows", r.range(4, 30)); }
  k.set("style", 0);
  gen_history(r, k);
}

void exec2(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  int n = t.threads;
  bool past = false;
  auto body = [&] { rt_faults_enable(1); if (past) history(run); return train_raw_body(t, nullptr); };
  RtConfig c = run.config();
  canonical(run, &c);
  t.threads = 1;
  run.spawn(c, body);
  std::string one = blob_get();
  RtConfig d = run.config();
  t.threads = n;
  past = true;
  run.spawn(d, body);
  std::string many = blob_get();
  if (one.compare(0, 3, many, 0, 3)) run.fail("C02 outcome depends on the number of threads", "1: " + one.substr(0, 150) + sfmt("; %d: ", n) + many.substr(0, 150));
  if (one.compare(0, 3, "ok ")) return;
  double gain = run.knob("min_gain") / 1000.0;
  std::string diff = compare_in_child(run, one, many, 1e-6, 2e-4, gain);
  if (diff.empty()) return;
  t.threads = 1;
  if (ill_conditioned(run, t, one, 1e-6, 2e-4)) return;
  run.fail("C02 forest depends on the number of threads", sfmt("loss %s, 1 versus %d threads, %d rows: %s", t.loss.c_str(), n, t.t.rows, diff.c_str()));
}
Register r2({"C02", "one-versus-many-threads", gen2, exec2});

// ---- C13 ----------------------------------------------------------------------------------------
void gen13(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SAFE | GT_NOBASE | GT_NOSAMPLE | GT_POINTWISE);
  k.set("trees", r.range(2, 6)); k.set("min.trees", 2);
  k.set("cut1", (i64)r.below(100)); k.set("cut2", r.chance(0.4) ? (i64)r.below(100) : 0);
  k.set("json", (i64)r.below(2));
  k.set("crash", (i64)r.below(3));
  k.set("threads2", r.range(1, 6)); k.set("min.threads2", 1);
  gen_history(r, k);
  k.set("inproc", r.chance(0.3));      // the continuations in one process, with one store
}

// One stretch of training in a process of its own: base (or none) plus n trees.
std::string stretch(Run& run, Train t, const std::string& base, int n, int threads, bool json, bool canon, double crash) {
  RtConfig c = run.config();
  if (canon) canonical(run, &c);
  t.threads = threads;
  auto body = [&] {
    gbdt::Forest b, f;
    { Oracle o;
      if (!base.empty()) {
        if (json) { auto st = JsonUtils::FromJson(base, &b); if (!st.ok()) violate("C13 saved forest does not load", st.ToString()); }
        else if (!b.ParseFromString(base)) violate("C13 saved forest does not parse", "");
      } }
    std::string before;
    { Oracle o; before = b.SerializeAsString(); }
    t.config.set_num_trees(n);
    rt_faults_enable(1);
    if (!canon && !base.empty()) history(run);
    std::string err;
    auto ds = make_store(t, &err);
    if (ds) err = train_forest(t, ds.get(), base.empty() ? nullptr : &b, &f);
    Oracle o;
    if (!err.empty()) { blob_put("error " + err); return 0; }
    if (!base.empty()) {
      if (before != b.SerializeAsString()) violate("C13 resuming changes the saved forest", "");
      // The non-constant trees of the base come first, unchanged.
      int j = 1;
      for (auto& tree : b.tree()) {
        if (!tree.has_left_child()) continue;
        if (j >= f.tree_size() || f.tree(j).SerializeAsString() != tree.SerializeAsString())
          violate("C13 a saved tree is altered or lost", sfmt("tree %d of the resumed forest", j));
        ++j;
      }
      if (f.tree_size() != j + n) violate("C13 wrong number of trees", sfmt("%d instead of %d", f.tree_size(), j + n));
      note("resumed");
    }
    std::string s;
    if (json) { auto st = JsonUtils::ToJson(f, &s); if (!st.ok()) violate("C13 forest cannot be saved", st.ToString()); }
    else s = f.SerializeAsString();
    blob_put("ok " + s);
    return 0;
  };
  if (crash > 0) {           // a first attempt that is killed, then the same again
    RtConfig d = c;
    d.fp[F_CRASH].n_at = 1;
    d.fp[F_CRASH].at[0] = (u64)(crash * 400000) + 1;
    d.fp[F_CRASH].action[0] = 1;
    Outcome o = run.spawn(d, body, ALLOW(OUT_CRASH));
    if (o.kind == OUT_CRASH) note("killed_before_saving");
    else return blob_get();
    c.seed = c.seed * 3 + 1;
  }
  run.spawn(c, body);
  return blob_get();
}

// The same stretches in one process, one after another on one data store.
std::vector<std::string> stretches(Run& run, Train t, const std::vector<int>& sizes, bool json) {
  RtConfig c = run.config();
  run.spawn(c, [&] {
    rt_faults_enable(1);
    history(run);
    std::string all, err;
    auto ds = make_store(t, &err);
    std::unique_ptr<gbdt::Forest> b;
    for (size_t i = 0; i < sizes.size(); ++i) {
      std::unique_ptr<gbdt::Forest> f(new gbdt::Forest);
      t.config.set_num_trees(sizes[i]);
      t.threads = i == 0 ? (int)run.knob("threads2") : (int)run.knob("nthreads");
      if (ds) err = train_forest(t, ds.get(), b.get(), f.get());
      Oracle o;
      std::string s = "error " + err;
      if (err.empty()) {
        // What the next stretch continues from is the saved text, as after a restart.
        s.clear();
        if (json) JsonUtils::ToJson(*f, &s); else s = f->SerializeAsString();
        b.reset(new gbdt::Forest);
        if (json) JsonUtils::FromJson(s, b.get()); else b->ParseFromString(s);
        s = "ok " + s;
      }
      all += sfmt("%010zu", s.size()) + s;
      note("resumed_in_process", i > 0);
      if (!err.empty()) break;
    }
    Oracle o;
    blob_put(all);
    return 0;
  });
  std::string all = blob_get();
  std::vector<std::string> v;
  for (size_t p = 0; p < all.size();) { size_t n = strtoull(all.substr(p, 10).c_str(), 0, 10); v.push_back(all.substr(p + 10, n)); p += 10 + n; }
  return v;
}

void exec13(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  int total = (int)run.knob("trees");
  bool json = run.knob("json");
  int k1 = 1 + (int)(run.knob("cut1") * (total - 1) / 100);
  if (k1 >= total) k1 = total - 1;
  int k2 = 0;
  if (run.knob("cut2") && total - k1 >= 2) k2 = 1 + (int)(run.knob("cut2") * (total - k1 - 1) / 100);
  double crash = run.knob("crash") == 1 ? (double)(r.next() % 1000 + 1) / 1000 : 0;
  std::string full = stretch(run, t, "", total, t.threads, json, true, 0);
  std::vector<std::string> part;
  std::vector<int> size;
  auto go = [&](int n, int threads, double kill) {
    part.push_back(stretch(run, t, part.empty() ? "" : part.back().substr(3), n, threads, json, false, kill));
    size.push_back(n);
    return part.back().compare(0, 3, "ok ") == 0;
  };
  if (run.knob("inproc")) {
    std::vector<int> sizes = {k1};
    if (k2) sizes.push_back(k2);
    sizes.push_back(total - k1 - k2);
    part = stretches(run, t, sizes, json);
    size = sizes;
  } else {
    bool ok = go(k1, (int)run.knob("threads2"), 0);
    if (ok && k2) ok = go(k2, t.threads, 0);
    if (ok) go(total - k1 - k2, t.threads, crash);
  }
  const std::string& a = part.back();
  if (a.compare(0, 3, full, 0, 3)) run.fail("C13 resuming changes the outcome", "at once: " + full.substr(0, 150) + "; resumed: " + a.substr(0, 150));
  if (a.compare(0, 3, "ok ")) return;
  // Compare, tree by tree: the ones of each stretch one after another. Single-node trees of earlier stretches are merged into
  // the constant when resuming.
  RtConfig c = run.config();
  canonical(run, &c);
  run.spawn(c, [&] {
    Oracle o;
    auto load = [&](const std::string& s) {
      gbdt::Forest f;
      if (json) JsonUtils::FromJson(s.substr(3), &f); else f.ParseFromString(s.substr(3));
      return f;
    };
    gbdt::Forest p = load(full), q;
    q.add_tree();
    double constant = load(part.back()).tree(0).score();
    for (size_t i = 0; i < part.size(); ++i) {
      gbdt::Forest f = load(part[i]);
      for (int j = std::max(1, f.tree_size() - size[i]); j < f.tree_size(); ++j) {
        *q.add_tree() = f.tree(j);
        if (i + 1 < part.size() && !f.tree(j).has_left_child()) constant -= f.tree(j).score();
      }
    }
    q.mutable_tree(0)->set_score((float)constant);
    bool tied;
    std::string diff = forest_diff(p, q, 1e-4, 2e-3, run.knob("min_gain") / 1000.0, run.knob("loss") != 0, &tied);
    note(tied ? "compared_until_tie" : "compared_fully");
    blob_put(diff);
    return 0;
  });
  std::string diff = blob_get();
  if (diff.empty()) return;
  t.config.set_num_trees(total);
  RtConfig cc = run.config();
  canonical(run, &cc);
  run.spawn(cc, [&] { return train_raw_body(t, nullptr); });
  if (ill_conditioned(run, t, blob_get(), 1e-4, 2e-3)) return;
  run.fail("C13 resumed forest differs", sfmt("loss %s, %d trees cut at %d,%d, %d rows: %s", t.loss.c_str(), total, k1, k1 + k2, t.t.rows, diff.c_str()));
}
Register r13({"C13", "resume", gen13, exec13});

// Any saved forest, constant trees at any place, is continued from what it predicts, once or several times in a row.
void gen13b(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, r.chance(0.3) ? GT_PAIRWISE : 0);
  if (k.get("rows") > 200) k.set("rows", 200);
  k.set("base_trees", r.range(0, 7)); k.set("min.base_trees", 0);
  k.set("base_const", r.range(0, 100));
  k.set("times", r.range(1, 3)); k.set("min.times", 1);
  k.set("json", (i64)r.below(2));
  k.set("same_store", (i64)r.below(2));
  gen_history(r, k);
}

void exec13b(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  RtConfig c = run.config();
  run.spawn(c, [&] {
    std::unique_ptr<gbdt::Forest> base(new gbdt::Forest);
    { Oracle o;
      Rng fr(run.seed_of("base"));
      for (int i = 0; i < run.knob("base_trees"); ++i) {
        auto* tree = base->add_tree();
        random_tree(fr, t.t, (int)fr.below(100) < run.knob("base_const") ? 1 : 4, tree);
        if (!tree->has_left_child()) tree->set_score((float)(fr.unit() * 20 - 10));
      } }
    rt_faults_enable(1);
    history(run);
    std::string err;
    auto ds = make_store(t, &err);
    int n = t.t.rows;
    for (int k = 0; k < run.knob("times"); ++k) {
      if (k && !run.knob("same_store")) { ds.reset(); ds = make_store(t, &err); }
      if (!ds) { Oracle o; violate("C13 the data does not load", err); }
      FLAGS_num_threads = t.threads;
      gbdt::Subsampling::Reseed(t.seed);
      Recorder rec;
      rec.in = gbdt::LossFuncFactory::CreateLossFunc(t.config);
      std::unordered_set<std::string> feats(t.features.begin(), t.features.end());
      if (t.source == 2 && t.config.group_column().size()) ds->GetColumn(t.config.group_column());
      const std::vector<float>*w = &t.w, *y = &t.y;
      FloatVector fw = [w](int i) { return (*w)[i]; };
      FloatVector fy = [y](int i) { return (*y)[i]; };
      std::string before;
      { Oracle o; before = base->SerializeAsString(); }
      gbdt::Forest f;
      auto st = gbdt::TrainGBDT(ds.get(), feats, fw, fy, &rec, t.config, base.get(), &f);
      Oracle o;
      if (before != base->SerializeAsString()) violate("C13 resuming changes the saved forest", "");
      if (!st.ok()) { note("training_errors"); return 0; }
      int rounds = t.config.num_trees(), kept = 0;
      for (auto& tree : base->tree()) {
        if (!tree.has_left_child()) continue;
        if (1 + kept >= f.tree_size() || f.tree(1 + kept).SerializeAsString() != tree.SerializeAsString())
          violate("C13 a saved tree is altered or lost", sfmt("tree %d of the resumed forest", 1 + kept));
        ++kept;
      }
      if (f.tree_size() != 1 + kept + rounds || (int)rec.rounds.size() != rounds)
        violate("C13 wrong number of trees", sfmt("%d instead of %d", f.tree_size(), 1 + kept + rounds));
      for (int i = 0; i < n; ++i) {
        double want = 0, mag = 0;
        for (auto& tree : base->tree()) { double v = walk(tree, t.t, i); want += v; mag += fabs(v); }
        if (!(fabs(rec.rounds[0].f[i] - want) <= 1e-9 * (1 + mag)) && std::isfinite(want))
          violate("C13 training does not start from the predictions of the saved forest", sfmt("row %d: %.17g instead of %.17g", i, rec.rounds[0].f[i], want));
        for (int j = 0; j < rounds; ++j) {
          double v = walk(f.tree(1 + kept + j), t.t, i);
          want += v + rec.rounds[j].c;
          mag += fabs(v) + fabs(rec.rounds[j].c);
        }
        double got = walk(f, t.t, i);
        // The constant, and with it each of its parts, is kept as a float.
        if (!(fabs(got - want) <= 2e-6 * (1 + mag) * (rounds + kept + 2)) && std::isfinite(want))
          violate("C13 the resumed forest does not add to the predictions of the saved one", sfmt("row %d: %.9g instead of %.9g", i, got, want));
      }
      note("continued");
      std::string s;
      if (run.knob("json")) { JsonUtils::ToJson(f, &s); base.reset(new gbdt::Forest); JsonUtils::FromJson(s, base.get()); }
      else { s = f.SerializeAsString(); base.reset(new gbdt::Forest); base->ParseFromString(s); }
    }
    return 0;
  });
}
Register r13b({"C13", "from-any-forest", gen13b, exec13b});

}  // namespace
