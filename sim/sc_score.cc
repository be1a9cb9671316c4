// C09 parallel prediction, C10 checkpoint score files.
#include "work.h"
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <list>
#include <memory>
#include <gflags/gflags.h>
#include "src/gbdt_algo/evaluation.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

void gen_scoring(Rng& r, Knobs& k) {
  gen_sched(r, k);
  gen_train(r, k, GT_NOBASE | GT_SMALL);
  k.set("rows", r.chance(0.1) ? (i64)r.below(3) : r.range(1, r.chance(0.15) ? 300 : 60));
  k.set("min.rows", 0);
  k.set("trees", r.range(1, 7));
  k.set("leaves", r.range(1, 12));
  k.set("nthreads", r.chance(0.2) ? 1 : r.range(2, r.chance(0.3) ? 20 : 5));
  k.set("distinct", r.chance(0.4) ? r.range(2, 8) : 0);
  if (r.chance(0.1)) k.set("rows", r.range(260, 600));   // more than 256 values: wider columns
  // Now and then as many rows as real data has.
  Rng q(k.get("rseed") + 11);
  if (q.chance(0.012)) {
    k.set("rows", q.chance(0.5) ? q.range(600, 5000) : q.range(5000, 50000));
    k.set("trees", q.range(1, 3)); k.set("leaves", q.range(2, 6));
    k.set("nf", q.range(1, 2)); k.set("nc", q.range(0, 1));
    k.set("nthreads", q.range(1, 6));
    k.set("source", (i64)q.below(3));
    k.set("big", 1);
  }
}

// Bound of the rounding error that any order of summation may have.
double slack(const gbdt::TreeNode& n) {
  if (!n.has_left_child()) return fabs(n.score());
  return std::max(slack(n.left_child()), slack(n.right_child()));
}
double slack(const gbdt::Forest& f) {
  double s = 0;
  for (auto& t : f.tree()) s += slack(t);
  return 1e-9 * (1 + s);
}

void gen9(Rng& r, Knobs& k, int tier) {
  gen_scoring(r, k);
  k.set("repeat", (i64)r.below(3));
  k.set("forests", (i64)r.below(4));       // the passes below this number have a forest of their own
  gen_history(r, k);
  k.set("plain", r.chance(0.5) && k.get("history"));
  k.set("unknown", r.chance(0.05));
  if (k.get("big")) { k.set("history", 0); k.set("plain", 0); }
}

// Scores forests on one store and checks every score. The store and the forests are gone afterwards.
void score_one(const Run& run, const Train& t, u64 seed, bool main_one) {
  FLAGS_num_threads = t.threads;
  std::string err, data;
  auto ds = make_store(t, &err);
  if (!ds) { Oracle o; violate("C09 the data does not load", err); }
  { Oracle o; if (t.source != 2) data = store_dump(ds.get(), t.t); }
  int n = 1 + (int)run.knob("repeat");
  std::unique_ptr<std::vector<double>> s(new std::vector<double>{123.0, 456.0});
  std::unique_ptr<gbdt::Forest> f;
  std::string before;
  bool held = t.source != 2;
  for (int pass = 0; pass < n; ++pass) {
    { Oracle o;
      Rng q(seed + (u64)(run.knob("forests") > pass ? pass : 0) * 1000);
      if (pass == 0 || run.knob("forests") > pass) {
        gbdt::Forest g = random_forest(q, t.t, (int)run.knob("trees"), (int)run.knob("leaves"));
        if (run.knob("unknown") && main_one && pass == n - 1) {
          auto* x = g.add_tree();
          x->mutable_split()->set_feature("no such feature");
          x->mutable_split()->mutable_float_split()->set_threshold(1);
          x->mutable_left_child()->set_score(1);
          x->mutable_right_child()->set_score(2);
        }
        // Trees saved with a split message but without children count as leaves.
        if (q.chance(0.1)) { auto* x = g.add_tree(); x->set_score(0.5); }
        before = g.SerializeAsString();
      }
    }
    if (pass == 0 || run.knob("forests") > pass) {
      f.reset();
      f.reset(new gbdt::Forest);
      f->ParseFromString(before);
    }
    Status st = gbdt::EvaluateForest(ds.get(), *f, s.get());
    Oracle o;
    if (f->tree_size() && f->tree(f->tree_size() - 1).split().feature() == "no such feature") {
      if (st.ok()) violate("C09 a forest with an unknown feature is scored", "");
      note("refused");
      return;
    }
    bool unknown = false;
    for (auto& tr : f->tree()) unknown = unknown || tr.split().feature() == "no such feature";
    if (unknown) { if (st.ok()) violate("C09 a forest with an unknown feature is scored", ""); note("refused"); return; }
    if (!st.ok()) violate("C09 a valid forest is not scored", st.ToString());
    for (auto& tr : f->tree()) held = held || tr.has_left_child();
    if (!held) { note("constant_forest_without_data"); continue; }   // a lazy store that holds nothing has no rows
    if ((int)s->size() != t.t.rows) violate("C09 wrong number of scores", sfmt("%zu for %d rows", s->size(), t.t.rows));
    double tol = slack(*f);
    for (int i = 0; i < t.t.rows; ++i) {
      double w = walk(*f, t.t, i);
      if (!(fabs(w - (*s)[i]) <= tol))
        violate("C09 wrong score", sfmt("row %d of %d with %d threads: %.17g instead of %.17g", i, t.t.rows, t.threads, (*s)[i], w));
    }
    if (f->SerializeAsString() != before) violate("C09 predicting changes the forest", "");
    note("rows_scored", t.t.rows);
    note("predictions");
    if (t.threads > t.t.rows) note("more_threads_than_rows");
    std::string now = store_dump(ds.get(), t.t);
    if (!data.empty() && now != data) violate("C09 predicting changes the data", "");
    data = now;
  }
}

void exec9(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  if (run.knob("plain")) t.source = 0;
  RtConfig c = run.config();
  run.spawn(c, [&] {
    rt_faults_enable(1);
    // Other data and forests first: nothing of them may show.
    for (int i = 0; i < run.knob("history"); ++i) {
      Train u;
      { Oracle o; u = other_workload(run, i); }
      score_one(run, u, run.seed_of("forest") + 5 + i, false);
    }
    score_one(run, t, run.seed_of("forest"), true);
    return 0;
  });
}
Register r9({"C09", "predict", gen9, exec9});

// ---- C10 ----------------------------------------------------------------------------------------
void gen10(Rng& r, Knobs& k, int tier) {
  gen_scoring(r, k);
  k.set("source", (i64)r.below(2));
  k.set("points", r.range(0, 6));
  k.set("dir", (i64)r.below(4));       // 0 new, 1 exists with old files, 2 parent missing, 3 is a file
  if (r.chance(0.6)) k.set("dir", (i64)r.below(2));
  k.set("min.dir", k.get("dir"));
  // 0 none, 1 open, 2 write error, 3 disk full, 4 close, 5 mkdir, 6 odd but successful writes
  k.set("fault", r.chance(0.2) ? 0 : r.range(1, 6)); k.set("min.fault", k.get("fault"));
  k.set("at", r.chance(0.8) ? r.range(0, 3) : r.range(0, 8)); k.set("min.at", 0);
  k.set("cap", r.range(0, 1500));
  k.set("errno", (i64)r.below(4));
  k.set("wkind", (i64)r.below(2));
  if (r.chance(0.15)) { k.set("rows", r.range(700, 1500)); k.set("trees", r.range(1, 3)); k.set("source", 0); }   // several write calls
  if (k.get("big")) {
    k.set("rows", r.range(1000, 20000)); k.set("source", 0); k.set("points", r.range(1, 3)); k.set("dir", (i64)r.below(2)); k.set("min.dir", k.get("dir"));
    k.set("at", r.range(0, 40));
    k.set("cap", r.range(0, 300000));
  }
}

}  // namespace
namespace sim {
std::string check_scores(const std::string& path, const std::vector<double>& want) {
  SFile* sf = disk_find(path.c_str());
  if (!sf || !sf->used) return "no file " + path;
  std::string s(disk_data(sf), sf->size);
  if (!s.empty() && s.back() == '\n') s.resize(s.size() - 1);
  std::vector<std::string> lines;
  if (!s.empty() || want.size()) {
    size_t p = 0;
    for (;;) {
      size_t e = s.find('\n', p);
      lines.push_back(s.substr(p, e == std::string::npos ? e : e - p));
      if (e == std::string::npos) break;
      p = e + 1;
    }
  }
  if (lines.size() != want.size()) return sfmt("%s has %zu lines for %zu rows", path.c_str(), lines.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    char* e;
    double v = strtod(lines[i].c_str(), &e);
    if (lines[i].empty() || *e) return sfmt("%s line %zu is '%.40s'", path.c_str(), i, lines[i].c_str());
    if (!(fabs(v - want[i]) <= 1.1e-5 * fabs(want[i]) + 1e-7))
      return sfmt("%s line %zu is %s instead of %.9g", path.c_str(), i, lines[i].c_str(), want[i]);
  }
  return "";
}
}  // namespace sim
namespace {

u64 fired_any() {
  RtStats s;
  rt_stats(&s);
  return s.io_open_fail + s.io_eio + s.io_enospc + s.io_close_fail + s.fired[F_META];
}

void exec10(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  int dir = (int)run.knob("dir"), fault = (int)run.knob("fault");
  std::string out = dir == 2 ? "/sim/none/out" : "/sim/out";
  if (dir == 1) {
    disk_mkdir("/sim/out");
    for (int i = 1; i < 6; ++i) if (r.chance(0.5)) disk_put(sfmt("/sim/out/forest.%d.score", i).c_str(), "1\n2\n3\n4\n5\n6\n7", 13);
  }
  if (dir == 3) disk_put("/sim/out", "file", 4);
  RtConfig c = run.config();
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENOSPC};
  u64 at = (u64)run.knob("at");
  u32 e = errs[run.knob("errno") % 4];
  // Only the scoring counts: opens of the loading phase are not hit since faults are armed after it.
  if (fault == 1) { c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = at; c.fp[F_OPEN].action[0] = e; }
  if (fault == 2) { c.fp[F_WRITE].n_at = 1; c.fp[F_WRITE].at[0] = at; c.fp[F_WRITE].action[0] = run.knob("wkind") ? IOA_EIO : IOA_ENOSPC; }
  if (fault == 3) c.disk_cap = (u64)run.knob("cap");
  if (fault == 4) { c.fp[F_CLOSE].n_at = 1; c.fp[F_CLOSE].at[0] = at; c.fp[F_CLOSE].action[0] = 1; }
  if (fault == 5) { c.fp[F_META].n_at = 1; c.fp[F_META].at[0] = 0; c.fp[F_META].action[0] = e; }
  if (fault == 6) { c.fp[F_WRITE].permille = 500; c.fp[F_WRITE].rnd_action = run.knob("wkind") ? IOA_SHORT : IOA_EINTR; }
  run.spawn(c, [&] {
    gbdt::Forest f;
    std::list<int> points;
    std::vector<int> want;
    { Oracle o;
      Rng q(run.seed_of("forest"));
      f = random_forest(q, t.t, (int)run.knob("trees"), (int)run.knob("leaves"));
      for (int i = 0; i < run.knob("points"); ++i) {
        int p = q.chance(0.15) ? (int)q.range(-2, 0) : q.chance(0.15) ? f.tree_size() + (int)q.range(1, 3) : (int)q.range(1, f.tree_size());
        points.push_back(p);
        if (p >= 1 && p <= f.tree_size()) want.push_back(p);
      } }
    FLAGS_num_threads = t.threads;
    std::string err;
    auto ds = make_store(t, &err);
    if (!ds) { Oracle o; violate("C10 the data does not load", err); }
    rt_faults_enable(1);
    Status st = gbdt::EvaluateForest(ds.get(), f, points, out);
    u64 fired;
    { Oracle o; fired = fired_any(); }
    rt_faults_enable(0);
    for (int again = 0; again < 2; ++again) {
      { Oracle o;
        if (st.ok()) {
          for (int p : want) {
            std::vector<double> s;
            for (int i = 0; i < t.t.rows; ++i) s.push_back(walk(f, t.t, i, p));
            std::string d = check_scores(sfmt("%s/forest.%d.score", out.c_str(), p), s);
            if (!d.empty()) violate("C10 success without a complete score file", d);
            note("score_files_checked");
          }
          note(again ? "reruns" : "scored");
          if (again == 0 && fired) note("faults_without_effect");
        } else {
          if (again == 0 ? dir < 2 && !fired : dir < 2) violate("C10 failure without a reason", st.ToString());
          note("failures_reported");
        }
      }
      if (again == 0 && (!st.ok() || fired)) st = gbdt::EvaluateForest(ds.get(), f, points, out); else break;
    }
    return 0;
  });
}
Register r10({"C10", "score-files", gen10, exec10});

}  // namespace
