// C16: failing allocations and thread creations.
#include "work.h"
#include <string.h>
#include <algorithm>
#include <list>
#include <new>
#include <system_error>
#include <gflags/gflags.h>
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"
DECLARE_int32(num_threads);
using namespace sim;
extern int gbdt_main(int argc, char** argv);

namespace {

const u32 kEnds = ALLOW(OUT_EXIT) | ALLOW(OUT_ABORT);

void gen_fault(Rng& r, Knobs& k) {
  k.set("cls", r.chance(0.75) ? 0 : 1); k.set("min.cls", k.get("cls"));
  k.set("how", (i64)r.below(4)); k.set("min.how", k.get("how"));      // 0 one, 1 from then on, 2 several in a row, 3 random
  k.set("at", (i64)r.below(10000));
  k.set("at_thread", (i64)r.below(1000));
}

std::string first_diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t k = i < 40 ? 0 : i - 40;
  return sfmt("%zu bytes instead of %zu, from byte %zu: ...", a.size(), b.size(), i) + a.substr(k, 200) + " instead of ..." + b.substr(k, 200);
}

// Fault plan, given the number of operations without faults.
void arm(Run& run, RtConfig* c, const u64* ops, u64 from) {
  int cls = run.knob("cls") ? F_THREAD : F_ALLOC;
  u64 n = ops[cls] > from ? ops[cls] - from : 1;
  u64 at = from + (u64)run.knob("at") * n / 10000;
  FaultPlan& p = c->fp[cls];
  switch (run.knob("how")) {
    case 0: p.n_at = 1; p.at[0] = at; p.action[0] = 1; break;
    case 1: p.permille = 1000; p.from = at; p.rnd_action = 1; break;
    case 2: p.n_at = 6; for (int i = 0; i < 6; ++i) { p.at[i] = at + i; p.action[i] = 1; } break;
    default: p.permille = cls == F_THREAD ? 150 : 1 + (u32)(4000 / n); p.from = from; p.rnd_action = 1;
  }
}

// ---- library calls ----------------------------------------------------------------------------------
void gen(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, (r.chance(0.4) ? GT_PAIRWISE : 0) | GT_SMALL);
  k.set("rows", r.range(2, 24));
  k.set("style", (i64)r.below(8));
  k.set("phase", r.chance(0.3) ? 0 : r.range(1, 3)); k.set("min.phase", k.get("phase"));   // 0 everything, 1 load, 2 train, 3 score
  gen_fault(r, k);
}

struct Step { std::string what, result; };

void scores_text(const std::vector<double>& s, std::string* out) { for (double d : s) *out += double_bits(d) + " "; }

void exec(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, (int)run.knob("style"));
  int phase = (int)run.knob("phase");
  std::string base_bytes;
  RtConfig c = run.config();
  run.spawn(c, [&] {
    Oracle o;
    Rng q(run.seed_of("base"));
    blob_put(random_forest(q, t.t, 1 + (int)run.knob("base"), 5).SerializeAsString());
    return 0;
  });
  base_bytes = blob_get();
  // Loads, trains and scores; every result is handed over as soon as it is reported as success.
  auto body = [&](bool reference) {
    FLAGS_num_threads = t.threads;
    gbdt::Forest base;
    { Oracle o;
      base.ParseFromString(base_bytes);
      // Protobuf builds its descriptor tables at first use and does not survive a failing allocation in there.
      (void)t.config.ShortDebugString();
      (void)base.ShortDebugString(); }
    std::string res;
    auto attempt = [&](bool armed) -> std::string {
      std::string out;
      try {
        std::string err;
        gbdt::Forest f;
        if (armed && phase <= 1) rt_faults_enable(1);
        std::unique_ptr<gbdt::DataStore> ds = make_store(t, &err);
        if (armed && phase == 1) rt_faults_enable(0);
        if (!ds) return "failed: " + err;
        if (phase <= 1) { Oracle o; out += t.source == 2 ? std::string() : store_dump(ds.get(), t.t); }
        if (phase == 1 && t.source == 2) {
          // The lazy store reads the columns now.
          for (auto& x : t.t.cols) {
            if (armed) rt_faults_enable(1);
            const gbdt::Column* col = ds->GetColumn(x.name);
            if (armed) rt_faults_enable(0);
            if (!col) return "failed: column " + x.name;
          }
          Oracle o;
          out += store_dump(ds.get(), t.t);
        }
        gbdt::Forest* use = &base;
        if (phase == 0 || phase == 2) {
          if (armed && phase == 2) rt_faults_enable(1);
          err = train_forest(t, ds.get(), run.knob("base") ? &base : nullptr, &f);
          if (armed && phase == 2) rt_faults_enable(0);
          if (!err.empty()) return "failed: " + err;
          Oracle o;
          out += " forest " + forest_bytes(f);
          use = &f;
        }
        if (phase == 0 || phase == 3) {
          std::vector<double> s;
          if (armed && phase == 3) rt_faults_enable(1);
          auto st = gbdt::EvaluateForest(ds.get(), *use, &s);
          if (!st.ok()) { rt_faults_enable(0); return "failed: " + st.ToString(); }
          { Oracle o; out += " scores "; scores_text(s, &out); }
          std::list<int> tp;
          for (int i = 1; i <= use->tree_size(); ++i) tp.push_back(i);
          std::list<int> tp2(tp);
          st = gbdt::EvaluateForest(ds.get(), *use, tp2, "/sim/out");
          rt_faults_enable(0);
          if (!st.ok()) return "failed: " + st.ToString();
          Oracle o;
          for (int i : tp) {
            SFile* sf = disk_find(sfmt("/sim/out/forest.%d.score", i).c_str());
            out += sf ? " file " + std::string(disk_data(sf), sf->size) : std::string(" nofile");
          }
        }
        rt_faults_enable(0);
        return out;
      } catch (const std::bad_alloc&) {
        rt_faults_enable(0);
        return "failed: bad_alloc";
      } catch (const std::exception& e) {
        rt_faults_enable(0);
        return std::string("failed: exception ") + e.what();
      }
    };
    if (reference) {
      // Counts the operations: a fault plan that never fires.
      res = attempt(true);
      Oracle o;
      blob_put(res);
      return 0;
    }
    res = attempt(true);
    rt_faults_enable(0);
    { Oracle o; if (rt_live_threads() > 1) violate("C16 worker threads outlive the call", ""); }
    std::string again;
    if (res.compare(0, 7, "failed:") == 0) again = attempt(false);
    Oracle o;
    blob_put(sfmt("%010zu", res.size()) + res + again);
    return 0;
  };
  Outcome o = run.spawn(c, [&] { return body(true); });
  std::string want = blob_get();
  bool good = want.compare(0, 7, "failed:") != 0;
  c = run.config();
  arm(run, &c, o.st.ops, 0);
  Outcome e = run.spawn(c, [&] { return body(false); }, kEnds);
  if (e.kind == OUT_ABORT) { note("aborts"); return; }
  std::string got = blob_get();
  size_t cut = strtoull(got.substr(0, 10).c_str(), 0, 10);
  std::string again = got.substr(10 + cut);
  got = got.substr(10, cut);
  if (got.compare(0, 7, "failed:") == 0) {
    note(got.find("bad_alloc") != std::string::npos ? "bad_alloc_thrown" : "failures_reported");
    if (again != want) run.fail("C16 after a failure the same operation gives another result", first_diff(again, want));
    note("repeats_after_failure");
    return;
  }
  if (!good) run.fail("C16 success where failure is due", got.substr(0, 200));
  if (got != want) run.fail("C16 success with a different result", first_diff(got, want));
  note(e.st.fired[F_ALLOC] + e.st.fired[F_THREAD] ? "same_result_in_spite_of_fault" : "fault_not_reached");
}
Register reg({"C16", "library-calls", gen, exec});

// ---- the program -------------------------------------------------------------------------------------
void genc(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, (r.chance(0.3) ? GT_PAIRWISE : 0) | GT_SMALL);
  k.set("source", r.range(1, 2)); k.set("min.source", 1);
  k.set("rows", r.range(3, 24));
  k.set("late", r.chance(0.5));
  gen_fault(r, k);
}

void execc(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  std::vector<std::string> a = {"gbdt", "--config_file=/sim/config.json", "--mode=train", "--output_dir=/sim/out", "--output_model_name=model",
                                sfmt("--seed=%d", t.seed), sfmt("--num_threads=%d", t.threads)};
  if (t.source == 1) {
    std::string s;
    for (auto& x : t.tsvs) s += (s.empty() ? "" : ",") + x;
    a.push_back("--tsvs=" + s);
  } else {
    a.push_back("--flatfiles_dirs=/sim/flat");
  }
  RtConfig c = run.config();
  run.spawn(c, [&] {
    Oracle o;
    std::string s;
    JsonUtils::ToJson(t.config, &s);
    disk_put("/sim/config.json", s.data(), s.size());
    return 0;
  });
  auto body = [&] {
    std::vector<char*> argv;
    for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
    argv.push_back(nullptr);
    rt_faults_enable(1);
    int rc = 1;
    rc = gbdt_main((int)a.size(), argv.data());
    rt_faults_enable(0);
    return rc;
  };
  Outcome o = run.spawn(c, body, kEnds);
  bool good = o.kind == OUT_EXIT && o.code == 0;
  // The model, without its free text, as it loads.
  auto load = [&](bool* ok) {
    Outcome l = run.spawn(run.config(), [&] {
      gbdt::Forest f = gbdt::LoadForestOrDie("/sim/out/model.json");
      Oracle x;
      blob_put(forest_bytes(f));
      return 0;
    }, kEnds);
    *ok = l.kind == OUT_EXIT && l.code == 0;
    return *ok ? blob_get() : std::string();
  };
  std::string want, fimps;
  bool ok;
  if (good) {
    want = load(&ok);
    if (!ok) run.fail("C16 the model does not load", "");
    SFile* f = disk_find("/sim/out/model.fimps");
    fimps = std::string(disk_data(f), f->size);
  }
  for (const char* p : {"/sim/out/model.json", "/sim/out/model.fimps", "/sim/out"}) if (disk_exists(p)) disk_remove(p);
  c = run.config();
  // The last tenth of the run holds the saving.
  int cls = run.knob("cls") ? F_THREAD : F_ALLOC;
  arm(run, &c, o.st.ops, run.knob("late") ? o.st.ops[cls] - o.st.ops[cls] / 8 : 0);
  Outcome e = run.spawn(c, body, kEnds);
  note("program_runs", 2);
  bool success = e.kind == OUT_EXIT && e.code == 0;
  if (success && !good) run.fail("C16 success where failure is due", o.text);
  if (!success) note("failures_reported");
  if (disk_exists("/sim/out/model.json")) {
    std::string got = load(&ok);
    if (ok && got != want) run.fail("C16 a different model loads", sfmt("%zu bytes instead of %zu", got.size(), want.size()));
    if (success && !ok) run.fail("C16 success with a model that does not load", "");
    if (!success) note(ok ? "right_model_in_spite_of_failure" : "damaged_model_rejected");
  } else if (success) {
    run.fail("C16 success without a model", "");
  }
  if (success) {
    SFile* f = disk_find("/sim/out/model.fimps");
    if (!f || !f->used || std::string(disk_data(f), f->size) != fimps) run.fail("C16 success with wrong feature importances", "");
    note(e.st.fired[F_ALLOC] + e.st.fired[F_THREAD] ? "same_result_in_spite_of_fault" : "fault_not_reached");
  }
}
Register regc({"C16", "program", genc, execc});

}  // namespace
