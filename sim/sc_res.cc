// C29: what a finished call leaves behind.
#include "work.h"
#include <errno.h>
#include <algorithm>
#include <list>
#include <new>
#include <gflags/gflags.h>
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

enum { FT_NONE = 0, FT_OPEN, FT_READ, FT_WRITE, FT_CLOSE, FT_THREAD, FT_ALLOC, FT_MISSING, FT_MALFORMED, FT_BADCONFIG, FT_N };

void gen(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, (r.chance(0.4) ? GT_PAIRWISE : 0) | GT_SMALL);
  k.set("rows", r.range(2, 40)); k.set("min.rows", 1);
  k.set("style", (i64)r.below(8));
  k.set("phase", r.chance(0.5) ? 1 : r.range(0, 3)); k.set("min.phase", k.get("phase"));   // 0 everything, 1 load, 2 train, 3 score
  if (k.get("phase") <= 1) { k.set("source", r.chance(0.6) ? 1 : (i64)r.below(3)); k.set("min.source", k.get("source")); }
  if (r.chance(0.5)) k.set("blocks", r.range(2, 9));
  i64 f = r.chance(0.15) ? 0 : r.range(1, FT_N - 1);
  k.set("fault", f); k.set("min.fault", f);
  k.set("at", (i64)r.below(10000));
  k.set("random", r.chance(0.25));
  k.set("errno", (i64)r.below(4));
  k.set("victim", (i64)r.below(16));
  k.set("reps", r.range(6, 8)); k.set("min.reps", 6);
}

void exec(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, (int)run.knob("style"));
  int phase = (int)run.knob("phase"), fault = (int)run.knob("fault");
  // Files that are no good from the start.
  if (fault == FT_MISSING || fault == FT_MALFORMED) {
    std::string path;
    if (t.source == 1 && !t.tsvs.empty()) path = t.tsvs[run.knob("victim") % t.tsvs.size()];
    if (t.source == 2) path = "/sim/flat/" + t.t.cols[run.knob("victim") % t.t.cols.size()].name;
    if (!path.empty() && disk_exists(path.c_str())) {
      if (fault == FT_MISSING) {
        disk_remove(path.c_str());
      } else {
        SFile* f = disk_find(path.c_str());
        std::string s(disk_data(f), f->size);
        s = t.source == 1 ? s + "\nnot\n" : "# dtype=unheard of\n" + s;
        disk_put(path.c_str(), s.data(), s.size());
      }
    }
  }
  if (fault == FT_BADCONFIG) {
    switch (run.knob("victim") % 4) {
      case 0: t.config.set_num_leaves(0); break;
      case 1: t.config.set_example_sampling_rate(2); break;
      case 2: t.config.set_shrinkage(1e30f); t.config.set_l2_lambda(0); t.config.set_min_hessian(0); break;   // diverges
      default: t.features.push_back("there is none of that name");
    }
  }
  const int reps = (int)run.knob("reps");
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENFILE};
  auto body = [&](bool probe) {
    gbdt::Forest base;
    std::unique_ptr<gbdt::DataStore> held;
    { Oracle o;
      Rng q(run.seed_of("base"));
      base = random_forest(q, t.t, 1 + (int)run.knob("base"), 5);
      (void)t.config.ShortDebugString();
      (void)base.ShortDebugString(); }
    FLAGS_num_threads = t.threads;
    std::string err;
    if (phase >= 2) {
      held = make_store(t, &err);
      if (held && t.source == 2) for (auto& x : t.t.cols) held->GetColumn(x.name);
    }
    std::string last;
    auto attempt = [&] {
      std::string e;
      try {
        std::unique_ptr<gbdt::DataStore> own;
        gbdt::DataStore* ds = held.get();
        if (phase <= 1) {
          own = make_store(t, &e);
          ds = own.get();
          if (ds && phase == 1 && t.source == 2) for (auto& x : t.t.cols) if (!ds->GetColumn(x.name)) e = "a column is not loaded";
        }
        gbdt::Forest f, *use = &base;
        if (ds && (phase == 0 || phase == 2)) {
          e = train_forest(t, ds, run.knob("base") ? &base : nullptr, &f);
          use = &f;
        }
        if (ds && e.empty() && (phase == 0 || phase == 3)) {
          std::vector<double> s;
          auto st = gbdt::EvaluateForest(ds, *use, &s);
          if (!st.ok()) e = st.ToString();
          std::list<int> tp;
          for (int i = 1; i <= use->tree_size(); ++i) tp.push_back(i);
          st = gbdt::EvaluateForest(ds, *use, tp, "/sim/out");
          if (!st.ok()) e = st.ToString();
        }
      } catch (const std::bad_alloc&) {
        e = "bad_alloc";
      } catch (const std::exception& x) {
        e = x.what();
      }
      rt_faults_enable(0);
      Oracle o;
      note(e.empty() ? "calls_succeeded" : "calls_failed");
      last = e;
    };
    if (probe) {
      rt_faults_enable(1);
      attempt();
      return 0;
    }
    std::vector<u64> blocks;
    blocks.reserve(16);
    u64 bytes0 = 0, bytes1 = 0;
    for (int i = 0; i < reps; ++i) {
      rt_faults_enable(1);
      attempt();
      Oracle o;
      if (rt_live_threads() > 1) violate("C29 threads left behind", sfmt("%d worker threads still run after the call (%s)", rt_live_threads() - 1, last.substr(0, 200).c_str()));
      if (rt_open_files()) violate("C29 files left open", sfmt("%d files are still open after the call (%s)", rt_open_files(), last.substr(0, 200).c_str()));
      u64 b, n;
      rt_heap_live(&b, &n);
      blocks.push_back(b);
      if (i == 1) bytes0 = n;
      bytes1 = n;
    }
    Oracle o;
    // What is built once, and caches of a bounded size, are in place after the first calls.
    int grown = 0;
    for (int i = 2; i < reps; ++i) grown += blocks[i] > blocks[i - 1];
    note("repeated_calls", reps);
    if (grown >= 3 && blocks[reps - 1] > blocks[1]) {
      std::string s;
      for (u64 b : blocks) s += sfmt(" %llu", (unsigned long long)b);
      violate("C29 memory is not given back", sfmt("blocks in use after each of %d equal calls:%s; %lld bytes more in the end; the last call: %s", reps, s.c_str(), (long long)(bytes1 - bytes0), last.substr(0, 200).c_str()));
    }
    if (grown == 0) note("no_growth");
    return 0;
  };
  RtConfig c = run.config();
  const u32 ends = ALLOW(OUT_EXIT) | ALLOW(OUT_ABORT);
  Outcome o = run.spawn(c, [&] { return body(true); }, ends);
  c = run.config();
  static const int cls[FT_N] = {-1, F_OPEN, F_READ, F_WRITE, F_CLOSE, F_THREAD, F_ALLOC, -1, -1, -1};
  if (cls[fault] >= 0) {
    FaultPlan& p = c.fp[cls[fault]];
    u64 n = o.st.ops[cls[fault]];
    u32 act = fault == FT_OPEN ? errs[run.knob("errno")] : fault == FT_READ ? IOA_EIO : fault == FT_WRITE ? (run.knob("errno") & 1 ? IOA_ENOSPC : IOA_EIO) : fault == FT_CLOSE ? EIO : 1;
    p.n_at = 1; p.at[0] = (u64)run.knob("at") * (n ? n : 1) / 10000; p.action[0] = act;
    if (run.knob("random")) { p.permille = n > 500 ? 3 : n > 20 ? 40 : 300; p.rnd_action = act; }
  }
  Outcome e = run.spawn(c, [&] { return body(false); }, ends);
  if (e.kind == OUT_ABORT) note("aborts");
}
Register reg({"C29", "repeated-calls", gen, exec});

}  // namespace
