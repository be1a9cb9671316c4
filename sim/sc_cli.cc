// The command-line program, from main() on. C11 saving, C12 crashes, C07 failing reads, C10 test mode.
#include "work.h"
#include <errno.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <map>
#include <gflags/gflags.h>
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"
DECLARE_int32(num_threads);
using namespace sim;
extern int gbdt_main(int argc, char** argv);

namespace {

const char* kModel = "/sim/out/model.json";
const char* kImp = "/sim/out/model.fimps";

void gen_cli(Rng& r, Knobs& k) {
  gen_sched(r, k);
  gen_train(r, k, GT_SMALL);
  k.set("source", r.range(1, 2)); k.set("min.source", 1);
  k.set("trees", r.chance(0.15) ? r.range(10, 25) : r.range(1, 4));
  if (k.get("trees") > 9 && k.get("gap") < 200) k.set("gap", 200);
  k.set("leaves", r.chance(0.15) ? 1 : r.range(2, 8));
  k.set("rows", r.range(3, 40)); k.set("min.rows", 1);
  k.set("old", (i64)r.below(2));
  k.set("at", (i64)r.below(1000));
}

int cli(std::vector<std::string> a) {
  std::vector<char*> argv;
  for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
  argv.push_back(nullptr);
  return gbdt_main((int)a.size(), argv.data());
}

std::vector<std::string> train_args(const Run& run, const Train& t) {
  std::vector<std::string> a = {"gbdt", "--config_file=/sim/config.json", "--mode=train", "--output_dir=/sim/out", "--output_model_name=model",
                                sfmt("--seed=%d", t.seed), sfmt("--num_threads=%d", t.threads)};
  if (t.source == 1) {
    std::string s;
    for (auto& x : t.tsvs) s += (s.empty() ? "" : ",") + x;
    a.push_back("--tsvs=" + s);
  } else {
    a.push_back("--flatfiles_dirs=/sim/flat");
  }
  if (run.knob("base")) a.push_back("--base_model_file=/sim/base.json");
  return a;
}

// Writes the inputs and trains in process: the reference. "ok " + forest, or "error ...".
std::string prepare(Run& run, Train* t) {
  *t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(*t, (int)run.knob("blocks"), r, 0);
  RtConfig c = run.config();
  run.spawn(c, [&] {
    gbdt::Forest base, f;
    { Oracle o;
      std::string s;
      JsonUtils::ToJson(t->config, &s);
      disk_put("/sim/config.json", s.data(), s.size());
      if (run.knob("base")) {
        Rng q(run.seed_of("base"));
        base = random_forest(q, t->t, (int)run.knob("base"), 4);
        s.clear();
        JsonUtils::ToJson(base, &s);
        disk_put("/sim/base.json", s.data(), s.size());
      } }
    std::string err;
    auto ds = make_store(*t, &err);
    if (ds) err = train_forest(*t, ds.get(), run.knob("base") ? &base : nullptr, &f);
    Oracle o;
    note(err.empty() ? "trainings" : "training_errors");
    blob_put(err.empty() ? "ok " + forest_bytes(f) : "error " + err);
    return 0;
  });
  std::string ref = blob_get();
  disk_sync_all();
  return ref;
}

void gains(const gbdt::TreeNode& n, std::map<std::string, double>* m) {
  if (!n.has_left_child()) return;
  (*m)[n.split().feature()] += n.split().gain();
  gains(n.left_child(), m);
  gains(n.right_child(), m);
}

// In a simulated process. Whether both outputs are complete and belong to the reference. Empty: yes.
std::string check_outputs(const std::string& ref) {
  gbdt::Forest want, got;
  if (!want.ParseFromString(ref.substr(3))) return "harness: bad reference";
  SFile* sf = disk_find(kModel);
  if (!sf || !sf->used) return "there is no model file";
  std::string text(disk_data(sf), sf->size);
  Status st = JsonUtils::FromJson(text, &got);
  if (!st.ok()) return sfmt("the model file of %zu bytes does not load: %s", text.size(), st.ToString().c_str());
  if (forest_bytes(got) != forest_bytes(want)) {
    std::string a, b;
    size_t i = 0;
    a = want.ShortDebugString(); b = got.ShortDebugString();
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t f = i > 150 ? i - 150 : 0;
    return sfmt("the model file holds another forest: ...%s instead of ...%s", b.substr(f, 300).c_str(), a.substr(f, 300).c_str());
  }
  sf = disk_find(kImp);
  if (!sf || !sf->used) return "there is no importance file";
  std::string s(disk_data(sf), sf->size);
  std::map<std::string, double> m, seen;
  double top = 0;
  for (auto& t : want.tree()) gains(t, &m);
  for (auto& x : m) top = std::max(top, x.second);
  size_t p = 0;
  double last = 2;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) e = s.size();
    std::string line = s.substr(p, e - p);
    p = e + 1;
    size_t tab = line.find('\t');
    if (tab == std::string::npos) return "importance line '" + line.substr(0, 50) + "'";
    char* end;
    double v = strtod(line.c_str() + tab + 1, &end);
    if (*end || tab + 1 == line.size()) return "importance line '" + line.substr(0, 50) + "'";
    if (v > last + 1e-9) return "importances out of order";
    last = v;
    if (!seen.emplace(line.substr(0, tab), v).second) return "feature listed twice";
  }
  if (seen.size() != m.size()) return sfmt("%zu features in the importance file instead of %zu", seen.size(), m.size());
  for (auto& x : m) {
    auto it = seen.find(x.first);
    if (it == seen.end()) return "feature " + x.first + " is missing in the importance file";
    if (top > 0 && !(fabs(it->second - x.second / top) <= 1e-4)) return sfmt("importance of %s is %g instead of %g", x.first.c_str(), it->second, x.second / top);
  }
  return "";
}

// A complete older model at the output path.
std::string spawn_old(Run& run, const Train& t) {
  RtConfig c = run.config();
  run.spawn(c, [&] {
    Oracle o;
    Rng q(run.seed_of("old"));
    gbdt::Forest f = random_forest(q, t.t, 2 + (int)q.below(20), 6);
    for (auto& tr : *f.mutable_tree()) if (q.chance(0.3)) tr.set_score((float)q.unit());
    std::string s;
    JsonUtils::ToJson(f, &s);
    disk_mkdir("/sim/out");
    disk_put(kModel, s.data(), s.size());
    std::string imp = "somefeature\t1\nother\t0.5\nthird\t0.25\nfourth\t0.125";
    disk_put(kImp, imp.data(), imp.size());
    blob_put("ok " + forest_bytes(f));
    return 0;
  });
  std::string r = blob_get();
  disk_sync_all();
  return r;
}

void remove_outputs() {
  if (disk_exists(kModel)) disk_remove(kModel);
  if (disk_exists(kImp)) disk_remove(kImp);
  if (disk_exists("/sim/out")) disk_remove("/sim/out");
  disk_sync_all();
}

const u32 kEnds = ALLOW(OUT_EXIT) | ALLOW(OUT_ABORT);

bool is_ok(const Outcome& o) { return o.kind == OUT_EXIT && o.code == 0; }

// Runs the program; when it claims success the outputs must be right.
Outcome train_run(Run& run, const Train& t, const RtConfig& c, const std::string& ref, const char* prop, u32 allowed) {
  Outcome o = run.spawn(c, [&] {
    auto a = train_args(run, t);
    rt_faults_enable(1);
    return cli(a);
  }, allowed);
  note("program_runs");
  if (is_ok(o)) {
    if (ref.compare(0, 3, "ok ")) run.fail(std::string(prop) + " success although training cannot succeed", ref.substr(0, 200));
    RtConfig d = run.config();
    run.spawn(d, [&] { Oracle q; blob_put(check_outputs(ref)); return 0; });
    std::string s = blob_get();
    if (!s.empty()) run.fail(std::string(prop) + " success with incomplete or wrong outputs", s);
    note("successes_checked");
  } else if (o.kind == OUT_EXIT || o.kind == OUT_ABORT) {
    note("failures_reported");
  }
  return o;
}

u64 harmful(const RtStats& s) { return s.io_open_fail + s.io_eio + s.io_enospc + s.io_close_fail + s.fired[F_META]; }

// ---- C11 ----------------------------------------------------------------------------------------
void gen11(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  // 0 none, 1 open, 2 write error, 3 disk full, 4 close, 5 mkdir, 6 odd writes, 7 output is a directory, 8 parent missing
  k.set("fault", r.chance(0.1) ? 0 : r.range(1, 8)); k.set("min.fault", k.get("fault"));
  k.set("errno", (i64)r.below(4));
  k.set("wkind", (i64)r.below(2));
}

void exec11(Run& run) {
  Train t;
  std::string ref = prepare(run, &t);
  bool good = ref.compare(0, 3, "ok ") == 0;
  int fault = (int)run.knob("fault");
  // Without faults: counts the operations.
  RtConfig c = run.config();
  Outcome o = train_run(run, t, c, ref, "C11", kEnds);
  if (good && !is_ok(o)) run.fail("C11 the program fails without a reason", o.text);
  u64 opens = o.st.ops[F_OPEN], writes = o.st.ops[F_WRITE], closes = o.st.ops[F_CLOSE];
  u64 bytes = 0;
  for (const char* p : {kModel, kImp}) if (disk_exists(p)) bytes += disk_find(p)->size;
  if (disk_exists(kModel) && !run.knob("old")) remove_outputs();
  if (run.knob("old")) spawn_old(run, t);
  // With a fault, most often one of the last operations.
  u64 at = (u64)run.knob("at");
  auto pick = [&](u64 n) { return n == 0 ? 0 : at < 700 ? n - 1 - std::min<u64>(n - 1, at % 4) : at % n; };
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENOSPC};
  u32 e = errs[run.knob("errno") % 4];
  c = run.config();
  if (fault == 1) { c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = pick(opens); c.fp[F_OPEN].action[0] = e; }
  if (fault == 2) { c.fp[F_WRITE].n_at = 1; c.fp[F_WRITE].at[0] = pick(writes); c.fp[F_WRITE].action[0] = run.knob("wkind") ? IOA_EIO : IOA_ENOSPC; }
  if (fault == 3) c.disk_cap = at < 500 ? bytes - std::min<u64>(bytes, at % 64) : at % (bytes + 1);
  if (fault == 4) { c.fp[F_CLOSE].n_at = 1; c.fp[F_CLOSE].at[0] = pick(closes); c.fp[F_CLOSE].action[0] = 1; }
  if (fault == 5) { c.fp[F_META].n_at = 1; c.fp[F_META].at[0] = 0; c.fp[F_META].action[0] = e; }
  if (fault == 6) { c.fp[F_WRITE].permille = 500; c.fp[F_WRITE].rnd_action = run.knob("wkind") ? IOA_SHORT : IOA_EINTR; }
  const char* blocked = 0;
  if (fault == 7) { blocked = at % 2 ? kModel : kImp; if (disk_exists(blocked)) disk_remove(blocked); disk_mkdir("/sim/out"); disk_mkdir(blocked); }
  Train t2 = t;
  o = train_run(run, t, c, ref, "C11", kEnds);
  if (blocked && is_ok(o)) run.fail("C11 success although an output is a directory", blocked);
  if (good && !is_ok(o) && !blocked && !harmful(o.st) && !(fault == 3)) run.fail("C11 the program fails without a reason", o.text);
  // Afterwards everything works again.
  if (!is_ok(o)) {
    if (blocked) { disk_remove(blocked); }
    RtConfig d = run.config();
    o = train_run(run, t, d, ref, "C11", kEnds);
    if (good && !is_ok(o)) run.fail("C11 the program fails after the faults have stopped", o.text);
  }
}
Register r11({"C11", "train-and-save", gen11, exec11});

// Data with bytes that are no text, which a model file cannot hold: then the program has to say so.
void gen11b(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("odd_cats", 2);
  k.set("base", 0);
  k.set("nc", r.range(1, 3)); k.set("min.nc", 1);
  k.set("min_gain", 0);
  gen_history(r, k);
}

void exec11b(Run& run) {
  Train t;
  std::string ref = prepare(run, &t);
  if (ref.compare(0, 3, "ok ")) return;
  std::string old;
  if (run.knob("old")) { spawn_old(run, t); old.assign(disk_data(disk_find(kModel)), disk_find(kModel)->size); }
  run.spawn(run.config(), [&] {
    Oracle o;
    gbdt::Forest f;
    blob_put(f.ParseFromString(ref.substr(3)) ? "text" : "bytes");
    return 0;
  });
  if (blob_get() == "text") {
    Outcome o = train_run(run, t, run.config(), ref, "C11", kEnds);
    if (!is_ok(o)) run.fail("C11 the program fails without a reason", o.text);
    return;
  }
  Outcome o = run.spawn(run.config(), [&] { auto a = train_args(run, t); rt_faults_enable(1); return cli(a); }, kEnds);
  if (is_ok(o)) run.fail("C11 success with incomplete or wrong outputs", "a category that is no text cannot be saved");
  if (disk_exists(kModel) ? std::string(disk_data(disk_find(kModel)), disk_find(kModel)->size) != old : !old.empty())
    run.fail("C11 a model that cannot be saved leaves another one", "");
  note("unsavable_models_refused");
}
Register r11b({"C11", "not-text", gen11b, exec11b, nullptr, 4});

// ---- C12 ----------------------------------------------------------------------------------------
void gen12(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("how", (i64)r.below(3)); k.set("min.how", k.get("how"));       // 0 at a write, 1 in the last steps, 2 anywhere
  k.set("part", (i64)r.below(1001));
  k.set("power", r.chance(0.6) ? r.range(1, 6) : 0); k.set("min.power", k.get("power"));
  // A repeated run writes the very same text when the clock says the same.
  if (r.chance(0.4)) { k.set("clock_step", 1); k.set("clockjump", 0); k.set("slow", 0); }
  k.set("crashes", r.range(1, 2)); k.set("min.crashes", 1);
}

void exec12(Run& run) {
  Train t;
  std::string ref = prepare(run, &t);
  if (ref.compare(0, 3, "ok ")) return;
  RtConfig c = run.config();
  Outcome o = train_run(run, t, c, ref, "C12", kEnds);
  if (!is_ok(o)) run.fail("C12 the program fails without a reason", o.text);
  u64 ticks = o.st.ticks, writes = o.st.ops[F_WRITE];
  remove_outputs();
  std::string old;
  if (run.knob("old")) old = spawn_old(run, t);
  Rng q(run.seed_of("crash"));
  for (int i = 0; i < run.knob("crashes"); ++i) {
    u64 at = (u64)(run.knob("at") + i * 337) % 1000;
    c = run.config();
    if (run.knob("how") == 0) {
      c.fp[F_WRITE].n_at = 1; c.fp[F_WRITE].at[0] = at % std::max<u64>(1, writes);
      c.fp[F_WRITE].action[0] = IOA_CRASH | (u32)((run.knob("part") + i * 411) % 1001) << 8;
    } else {
      u64 span = run.knob("how") == 1 ? ticks / 12 : ticks;
      c.fp[F_CRASH].n_at = 1; c.fp[F_CRASH].at[0] = ticks - span + span * at / 1000 + 1; c.fp[F_CRASH].action[0] = 1;
    }
    o = train_run(run, t, c, ref, "C12", kEnds | ALLOW(OUT_CRASH));
    if (o.kind == OUT_CRASH) note("crashes");
    else if (!is_ok(o)) run.fail("C12 the program fails without a reason", o.text);
    if (run.knob("power")) {
      for (u32 j = 0; j < shm0->disk.nfiles; ++j) {
        SFile* f = &shm0->disk.f[j];
        if (!f->dirty) continue;
        note("power_losses");
        disk_power_loss(f, (int)((run.knob("power") - 1 + q.below(2) * q.below(6)) % 6), q.next());
      }
    } else {
      disk_sync_all();
    }
    // What survived, as a later process sees it.
    if (disk_exists(kModel)) {
      RtConfig d = run.config();
      Outcome l = run.spawn(d, [&] {
        gbdt::Forest f = gbdt::LoadForestOrDie(kModel);
        Oracle x;
        blob_put("ok " + forest_bytes(f));
        return 0;
      }, kEnds);
      if (is_ok(l)) {
        std::string got = blob_get();
        if (got == ref) note("survivor_is_new");
        else if (got == old) note("survivor_is_old");
        else run.fail("C12 a wrong model loads after a crash", sfmt("a forest of %zu bytes instead of %zu (new) or %zu (old)", got.size(), ref.size(), old.size()));
      } else {
        note("survivor_rejected");
      }
    } else {
      note("no_survivor");
      if (!old.empty() && run.knob("how") == 2) note("old_model_gone");
    }
  }
  RtConfig d = run.config();
  o = train_run(run, t, d, ref, "C12", kEnds);
  if (!is_ok(o)) run.fail("C12 training again after a crash fails", o.text);
  note("recoveries");
}
Register r12({"C12", "crash-while-saving", gen12, exec12});

// ---- C07, command line ----------------------------------------------------------------------------
void gen7c(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("fault", r.range(1, 3)); k.set("min.fault", k.get("fault"));
  k.set("errno", (i64)r.below(4));
}
void exec7c(Run& run) {
  Train t;
  std::string ref = prepare(run, &t);
  bool good = ref.compare(0, 3, "ok ") == 0;
  RtConfig c = run.config();
  Outcome o = train_run(run, t, c, ref, "C07", kEnds);
  if (good && !is_ok(o)) run.fail("C07 the program fails without a reason", o.text);
  if (!good && is_ok(o)) run.fail("C07 success although training cannot succeed", ref);
  u64 opens = o.st.ops[F_OPEN], reads = o.st.ops[F_READ];
  remove_outputs();
  u64 at = (u64)run.knob("at");
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENOENT};
  c = run.config();
  if (run.knob("fault") == 1) { c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = at % std::max<u64>(1, opens); c.fp[F_OPEN].action[0] = errs[run.knob("errno") % 4]; }
  if (run.knob("fault") == 2) { c.fp[F_READ].n_at = 1; c.fp[F_READ].at[0] = at % std::max<u64>(1, reads); c.fp[F_READ].action[0] = IOA_EIO; }
  if (run.knob("fault") == 3) { c.fp[F_READ].permille = 100 + (u32)at / 2; c.fp[F_READ].rnd_action = run.knob("errno") % 2 ? IOA_SHORT : IOA_EINTR; }
  o = train_run(run, t, c, ref, "C07", kEnds);
  if (good && !is_ok(o) && !harmful(o.st)) run.fail("C07 the program fails without a reason", o.text);
}
Register r7c({"C07", "cli-reads", gen7c, exec7c});

// ---- C10, command line, test mode -------------------------------------------------------------------
void gen10c(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("fault", r.range(0, 6)); k.set("min.fault", k.get("fault"));
  k.set("errno", (i64)r.below(4));
  k.set("wkind", (i64)r.below(2));
  k.set("interval", r.chance(0.3) ? 0 : r.range(1, 4));
  k.set("ftrees", r.range(1, 8)); k.set("min.ftrees", 1);
}
void exec10c(Run& run) {
  Train t = make_train(run);
  t.config.set_eval_interval((int)run.knob("interval"));
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  // Score files for the first n trees; in C10c the forest always has a split, so that a lazy store has rows.
  std::vector<std::pair<int, std::vector<double>>> want;
  RtConfig c = run.config();
  run.spawn(c, [&] {
    Oracle o;
    Rng q(run.seed_of("forest"));
    std::string s;
    JsonUtils::ToJson(t.config, &s);
    disk_put("/sim/config.json", s.data(), s.size());
    gbdt::Forest f;
    do { f = random_forest(q, t.t, (int)run.knob("ftrees"), 6); random_tree(q, t.t, 2, f.add_tree()); } while (!f.tree(f.tree_size() - 1).has_left_child());
    s.clear();
    JsonUtils::ToJson(f, &s);
    disk_put("/sim/model.json", s.data(), s.size());
    blob_put(f.SerializeAsString());
    return 0;
  });
  std::string fb = blob_get();
  disk_sync_all();
  std::vector<std::string> a = train_args(run, t);
  a[2] = "--mode=test";
  a[4] = "--testing_model_file=/sim/model.json";
  for (size_t i = 0; i < a.size(); ++i) if (a[i].compare(0, 17, "--base_model_file") == 0) a.erase(a.begin() + i);
  int fault = (int)run.knob("fault");
  u64 ops[F_N] = {0}, bytes = 0;
  for (int pass = 0; pass < 3; ++pass) {
    c = run.config();
    u64 at = (u64)run.knob("at");
    auto pick = [&](u64 n) { return n == 0 ? 0 : at < 700 ? n - 1 - std::min<u64>(n - 1, at % 4) : at % n; };
    static const u32 errs[] = {EMFILE, EIO, EACCES, ENOSPC};
    u32 e = errs[run.knob("errno") % 4];
    if (pass == 1) {
      if (fault == 1) { c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = pick(ops[F_OPEN]); c.fp[F_OPEN].action[0] = e; }
      if (fault == 2) { c.fp[F_WRITE].n_at = 1; c.fp[F_WRITE].at[0] = pick(ops[F_WRITE]); c.fp[F_WRITE].action[0] = run.knob("wkind") ? IOA_EIO : IOA_ENOSPC; }
      if (fault == 3) c.disk_cap = at % (bytes + 1);
      if (fault == 4) { c.fp[F_CLOSE].n_at = 1; c.fp[F_CLOSE].at[0] = pick(ops[F_CLOSE]); c.fp[F_CLOSE].action[0] = 1; }
      if (fault == 5) { c.fp[F_READ].n_at = 1; c.fp[F_READ].at[0] = at % std::max<u64>(1, ops[F_READ]); c.fp[F_READ].action[0] = IOA_EIO; }
      if (fault == 6) { c.fp[F_META].n_at = 1; c.fp[F_META].at[0] = 0; c.fp[F_META].action[0] = e; }
    }
    Outcome o = run.spawn(c, [&] { rt_faults_enable(1); return cli(a); }, kEnds);
    note("program_runs");
    if (is_ok(o)) {
      RtConfig d = run.config();
      run.spawn(d, [&] {
        Oracle x;
        gbdt::Forest f;
        f.ParseFromString(fb);
        int step = (int)run.knob("interval");
        u64 total = 0;
        for (int p = f.tree_size(); p > 0; p -= step > 0 ? step : p) {
          std::vector<double> s;
          for (int i = 0; i < t.t.rows; ++i) s.push_back(walk(f, t.t, i, p));
          std::string path = sfmt("/sim/out/forest.%d.score", p);
          std::string m = check_scores(path, s);
          if (!m.empty()) violate("C10 success without a complete score file", m);
          note("score_files_checked");
          total += disk_find(path.c_str())->size;
        }
        blob_put(sfmt("%llu", (unsigned long long)total));
        return 0;
      });
      if (pass == 0) bytes = strtoull(blob_get().c_str(), 0, 10);
    } else {
      note("failures_reported");
      if (pass != 1) run.fail("C10 the program fails without a reason", o.text);
      if (!harmful(o.st) && fault != 3) run.fail("C10 the program fails without a reason", o.text);
    }
    if (pass == 0) {
      memcpy(ops, o.st.ops, sizeof ops);
      for (u32 j = 0; j < shm0->disk.nfiles; ++j)
        if (shm0->disk.f[j].used && !strncmp(shm0->disk.f[j].path, "/sim/out/", 9)) { std::string p = shm0->disk.f[j].path; disk_remove(p.c_str()); }
      if (disk_exists("/sim/out")) disk_remove("/sim/out");
      disk_sync_all();
    }
  }
}
Register r10c({"C10", "cli-test-mode", gen10c, exec10c});

// ---- C23, feature importance of the program -----------------------------------------------------------
void gen23c(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("base", r.chance(0.5) ? r.range(1, 4) : 0);
  k.set("trees", r.range(1, 4));
  k.set("leaves", r.chance(0.1) ? 1 : r.range(2, 8));
  k.set("l2", 0); k.set("min_hess", r.range(0, 20));
  if (r.chance(0.4)) { k.set("nf", r.range(2, 9)); k.set("nc", r.range(0, 4)); }
  k.set("wfault", r.chance(0.4) ? r.range(1, 2) : 0);
}
void exec23c(Run& run) {
  Train t;
  std::string ref = prepare(run, &t);
  RtConfig c = run.config();
  if (run.knob("wfault")) { c.fp[F_WRITE].permille = 400; c.fp[F_WRITE].rnd_action = run.knob("wfault") == 1 ? IOA_SHORT : IOA_EINTR; }
  Outcome o = train_run(run, t, c, ref, "C23", kEnds);
  if (ref.compare(0, 3, "ok ") == 0 && !is_ok(o)) run.fail("C23 the program fails without a reason", o.text);
}
Register r23c({"C23", "importance-file", gen23c, exec23c});

// ---- C24 ----------------------------------------------------------------------------------------------
// Bad settings. 0: none, but on the edge.
enum { B_EDGE, B_TREES, B_LEAVES, B_EXAMPLES, B_FEATURES, B_PAIRS, B_TARGET, B_LOSS, B_N };

void gen24(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  int bad = (int)r.below(B_N);
  k.set("bad", bad); k.set("min.bad", bad);
  k.set("bad2", r.chance(0.2) ? (i64)r.range(1, B_N - 1) : 0);
  k.set("value", (i64)r.below(1000));
  k.set("pos", (i64)r.below(1000));
  auto loss = [&](int l) { k.set("loss", l); k.set("min.loss", l); k.set("grades", is_pairwise(l) ? 3 : 0); };
  if (bad == B_PAIRS) { loss(3 + (int)r.below(4)); k.set("groups", r.range(0, 4)); }
  if (bad == B_TARGET || k.get("bad2") == B_TARGET) k.set("binarize", 0);
  if (bad == B_TARGET) { loss(1 + (int)r.below(r.chance(0.3) ? 6 : 2)); if (r.chance(0.2)) k.set("rows", r.range(1, 200)); }
  k.set("readodd", r.chance(0.3) ? r.range(1, 300) : 0);
}

// Makes the configuration or the targets unusable. Empty: this setting means nothing here.
std::string spoil(Run& run, int bad, Train* t) {
  u64 v = (u64)run.knob("value");
  gbdt::Config& c = t->config;
  static const int counts[] = {0, -1, -5, -2147483647 - 1};
  const float inf = INFINITY;
  static const float rates[] = {0.0f, -0.0f, -0.25f, -1.0f, 1.0000001f, 1.5f, 2.0f, 100.0f, inf, -inf, NAN, -1e-30f};
  static const float pairs[] = {0.0f, -0.0f, -0.5f, -1.0f, -100.0f, -inf, NAN, -1e-30f};
  static const float targets[] = {0.0f, 2.0f, -2.0f, 0.5f, -0.5f, 1.0000001f, -0.9999999f, 3e38f, inf, -inf, NAN, 1e-30f};
  static const char* losses[] = {"", "MSE", "mse ", "lambdarank", "auc2", "hinge", "log_loss", "unknown"};
  switch (bad) {
    case B_TREES: c.set_num_trees(counts[v % 4]); return sfmt("num_trees %d", c.num_trees());
    case B_LEAVES: c.set_num_leaves(counts[v % 4]); return sfmt("num_leaves %d", c.num_leaves());
    case B_EXAMPLES: c.set_example_sampling_rate(rates[v % 12]); return sfmt("example_sampling_rate %.9g", c.example_sampling_rate());
    case B_FEATURES: c.set_feature_sampling_rate(rates[v % 12]); return sfmt("feature_sampling_rate %.9g", c.feature_sampling_rate());
    case B_PAIRS:
      if (!is_pairwise((int)run.knob("loss"))) return "";
      c.set_pair_sampling_rate(pairs[v % 8]);
      return sfmt("pair_sampling_rate %.9g", c.pair_sampling_rate());
    case B_TARGET: {
      if (run.knob("loss") == 0) return "";
      bool pair = is_pairwise((int)run.knob("loss"));      // there only missing targets are unusable
      int n = 1 + (int)(v / 12 % 3);
      u64 pos = (u64)run.knob("pos");
      std::string s;
      for (auto& col : t->t.cols)
        if (col.name == "target")
          for (int i = 0; i < n && !col.f.empty(); ++i) {
            size_t j = i == 0 && pos % 4 == 0 ? col.f.size() - 1 : (pos * 7 + (u64)i * 13) % col.f.size();
            col.f[j] = pair ? NAN : targets[v % 12];
            col.tok[j] = tok_float(col.f[j]);
            s += sfmt("target of row %zu %.9g ", j, col.f[j]);
          }
      t->y = t->t.find("target")->f;
      return s;
    }
    case B_LOSS: t->loss = losses[v % 8]; c.set_loss_func(t->loss); return "loss_func '" + t->loss + "'";
    default:
      // On the edge, and good.
      if (v % 2) c.set_num_trees(1);
      if (v % 3 == 0) c.set_num_leaves(1);
      if (v % 5 == 0) c.set_example_sampling_rate(1.0f);
      if (v % 5 == 1) c.set_example_sampling_rate(0.99999994f);
      if (v % 7 == 0) c.set_feature_sampling_rate(1.0f);
      if (v % 7 == 1) c.set_feature_sampling_rate(0.99999994f);
      if (v % 11 == 0) c.set_pair_sampling_rate(1e-3f);
      return "";
  }
}

void put_config(const gbdt::Config& config) {
  Oracle o;
  std::string s;
  JsonUtils::ToJson(config, &s);
  disk_put("/sim/config.json", s.data(), s.size());
}

// In the library: refused without a forest, and the process trains as before afterwards.
void exec24(Run& run) {
  Train good;
  std::string ref = prepare(run, &good);
  Train t = good;
  std::string what = spoil(run, (int)run.knob("bad"), &t);
  if (run.knob("bad2") && !what.empty()) what += " " + spoil(run, (int)run.knob("bad2"), &t);
  t.source = 0;
  RtConfig c = run.config();
  run.spawn(c, [&] {
    std::string err;
    auto ds = make_store(t, &err);
    gbdt::Forest base, f, g;
    bool with_base = run.knob("base") != 0;
    if (with_base) { Oracle o; Rng q(run.seed_of("base")); base = random_forest(q, t.t, (int)run.knob("base"), 4); }
    std::string e = err.empty() ? train_forest(t, ds.get(), with_base ? &base : nullptr, &f) : err;
    { Oracle o;
      if (!what.empty()) {
        note("unusable_settings_tried");
        if (e.empty()) violate("C24 unusable settings are accepted", what);
        if (f.tree_size()) violate("C24 a forest in spite of unusable settings", what);
      } else if (run.knob("bad") == B_EDGE) {
        note("usable_settings_tried");
        if (!e.empty() && ref.compare(0, 3, "ok ") == 0) violate("C24 usable settings are refused", e + " " + t.config.ShortDebugString());
      } }
    // The same store with the settings as they should be.
    if (run.knob("bad") == B_TARGET) return 0;
    good.source = 0;
    e = train_forest(good, ds.get(), with_base ? &base : nullptr, &g);
    Oracle o;
    std::string s = e.empty() ? "ok " + forest_bytes(g) : "error";
    if (s != ref && !(ref.compare(0, 3, "ok ") && !e.empty())) violate("C24 another result after a refused training", what + " " + e);
    note("trainings_after_refusal");
    return 0;
  });
}
Register r24({"C24", "library-settings", gen24, exec24});

// The program: fails and leaves earlier outputs alone.
void exec24c(Run& run) {
  Train good;
  std::string ref = prepare(run, &good);
  Train t = good;
  std::string what = spoil(run, (int)run.knob("bad"), &t);
  if (run.knob("bad2") && !what.empty()) what += " " + spoil(run, (int)run.knob("bad2"), &t);
  RtConfig d = run.config();
  std::string old;
  if (run.knob("old")) old = spawn_old(run, t);
  auto put = [&](Train* x) {
    Rng r(run.seed_of("files"));
    put_files(*x, (int)run.knob("blocks"), r, 0);
    run.spawn(d, [&] { put_config(x->config); return 0; });
    disk_sync_all();
  };
  put(&t);
  auto bytes = [&](const char* p) { SFile* f = disk_find(p); return f && f->used && !f->is_dir ? std::string(disk_data(f), f->size) : std::string("-"); };
  std::string m0 = bytes(kModel), i0 = bytes(kImp);
  RtConfig c = run.config();
  if (run.knob("readodd")) { c.fp[F_READ].permille = (u32)run.knob("readodd"); c.fp[F_READ].rnd_action = run.knob("value") % 2 ? IOA_SHORT : IOA_EINTR; }
  Outcome o = run.spawn(c, [&] { auto a = train_args(run, t); rt_faults_enable(1); return cli(a); }, kEnds);
  note("program_runs");
  if (!what.empty()) {
    note("unusable_settings_tried");
    if (is_ok(o)) run.fail("C24 unusable settings are accepted", what);
    if (bytes(kModel) != m0 || bytes(kImp) != i0) run.fail("C24 outputs in spite of unusable settings", what);
  } else if (run.knob("bad") == B_EDGE && !is_ok(o) && ref.compare(0, 3, "ok ") == 0) {
    run.fail("C24 usable settings are refused", o.text);
  }
  put(&good);
  o = train_run(run, good, d, ref, "C24", kEnds);
  if (ref.compare(0, 3, "ok ") == 0 && !is_ok(o)) run.fail("C24 the program fails after a refused training", o.text);
}
Register r24c({"C24", "program-settings", gen24, exec24c});

// ---- C28 ----------------------------------------------------------------------------------------------
void gen28(Rng& r, Knobs& k, int tier) {
  gen_cli(r, k);
  k.set("old", (i64)r.below(2));
  bool tame = r.chance(0.2);
  k.set("tame", tame);
  // Half of the time the losses that can only be seen to diverge by the scores.
  int l = (int)(r.chance(0.6) ? r.range(3, 6) : r.below(7));
  k.set("loss", l); k.set("min.loss", l);
  k.set("grades", is_pairwise(l) && r.chance(0.7) ? r.range(2, 5) : 0);
  k.set("groups", is_pairwise(l) && r.chance(0.4) ? r.range(1, 4) : 0);
  k.set("binarize", 0);
  k.set("rows", r.range(4, 60));
  k.set("nthreads", r.range(1, 4));
  k.set("trees", r.range(3, r.chance(0.4) ? 40 : 12));
  k.set("leaves", r.range(2, 24));
  if (k.get("gap") < 200) k.set("gap", 200);
  if (tame) {
    k.set("shrink", r.range(5, 50)); k.set("l2", r.range(100, 500)); k.set("min_hess", r.range(50, 200));
    k.set("min_gain", 10);
    return;
  }
  k.set("shrink", r.chance(0.7) ? 100 : r.range(30, 100)); k.set("l2", r.chance(0.85) ? 0 : r.range(1, 10));
  k.set("min_hess", 0); k.set("min_gain", 0);
  k.set("pair_rate", r.range(20, 400));
  k.set("huge", r.chance(0.3) ? r.range(1, 7) : 0);     // bit 0: targets, 1: weights, 2: the base forest
  k.set("power", r.chance(0.3) ? r.range(60, 126) : r.range(5, 60));
}

// Values as large as a float holds.
void enlarge(const Run& run, Train* t) {
  if (!run.knob("huge")) return;
  Rng r(run.seed_of("huge"));
  float s = ldexpf(1, (int)run.knob("power"));
  auto blow = [&](const char* name, std::vector<float>* v, bool all) {
    for (auto& c : t->t.cols)
      if (c.name == name)
        for (size_t i = 0; i < c.f.size(); ++i) {
          if (!all && r.chance(0.5)) continue;
          float x = c.f[i] * s;
          if (!std::isfinite(x)) x = c.f[i] > 0 ? 3e38f : -3e38f;
          c.f[i] = x;
          c.tok[i] = tok_float(x);
          (*v)[i] = x;
        }
  };
  int l = (int)run.knob("loss");
  if ((run.knob("huge") & 1) && l != 1 && l != 2) blow("target", &t->y, r.chance(0.5));
  if (run.knob("huge") & 2) blow("weight", &t->w, r.chance(0.5));
}
gbdt::Forest base28(const Run& run, const Train& t) {
  Rng q(run.seed_of("base"));
  gbdt::Forest f = random_forest(q, t.t, (int)run.knob("base"), 4);
  if (run.knob("huge") & 4) {
    std::function<void(gbdt::TreeNode*)> blow = [&](gbdt::TreeNode* n) {
      n->set_score(std::max(-3e38f, std::min(3e38f, n->score() * ldexpf(1, (int)run.knob("power")))));
      if (n->has_left_child()) { blow(n->mutable_left_child()); blow(n->mutable_right_child()); }
    };
    for (auto& x : *f.mutable_tree()) blow(&x);
  }
  return f;
}

std::string no_number(const gbdt::TreeNode& n) {
  if (!std::isfinite(n.score())) return sfmt("score %g", n.score());
  if (!n.has_left_child()) return "";
  if (!std::isfinite(n.split().gain())) return sfmt("gain %g", n.split().gain());
  if (n.split().has_float_split() && !std::isfinite(n.split().float_split().threshold())) return sfmt("threshold %g", n.split().float_split().threshold());
  std::string d = no_number(n.left_child());
  return d.empty() ? no_number(n.right_child()) : d;
}
std::string no_number(const gbdt::Forest& f, const Table& t) {
  for (int i = 0; i < f.tree_size(); ++i) {
    std::string d = no_number(f.tree(i));
    if (!d.empty()) return sfmt("%s in tree %d of %d", d.c_str(), i, f.tree_size());
  }
  for (int i = 0; i < t.rows; ++i) {
    double s = walk(f, t, i);
    if (!std::isfinite(s)) return sfmt("row %d is predicted as %g", i, s);
  }
  return "";
}

void exec28(Run& run) {
  Train t = make_train(run);
  enlarge(run, &t);
  Train calm = other_workload(run, 1);
  calm.config.set_l2_lambda(2);
  calm.config.set_min_hessian(1);
  calm.config.set_shrinkage(0.3f);
  calm.threads = std::min(calm.threads, 3);
  t.source = 0;
  std::string alone;
  for (int pass = 0; pass < 2; ++pass) {
    RtConfig c = run.config();
    run.spawn(c, [&] {
      std::string err, e;
      if (pass == 1) {
        auto ds = make_store(t, &err);
        if (!ds) { Oracle o; violate("C28 the data does not load", err); }
        gbdt::Forest base, f;
        bool with_base = run.knob("base") != 0;
        if (with_base) { Oracle o; base = base28(run, t); }
        e = train_forest(t, ds.get(), with_base ? &base : nullptr, &f);
        if (!e.empty()) {
          Oracle o;
          note("divergence_reported");
          if (run.knob("tame")) violate("C28 a training that does not diverge fails", e + " " + t.config.ShortDebugString());
        } else {
          std::vector<double> s;
          Status st = gbdt::EvaluateForest(ds.get(), f, &s);
          Oracle o;
          note("forests_checked");
          std::string d = no_number(f, t.t);
          if (!d.empty()) violate("C28 success with a forest that does not predict numbers", d + " " + t.config.ShortDebugString());
          if (!st.ok()) violate("C28 the forest is not scored", st.ToString());
          for (size_t i = 0; i < s.size(); ++i)
            if (!std::isfinite(s[i])) violate("C28 success with a forest that does not predict numbers", sfmt("row %zu: %g", i, s[i]));
        }
      }
      gbdt::Forest g;
      auto ds = make_store(calm, &err);
      if (!ds) { Oracle o; violate("C28 the data does not load", err); }
      e = train_forest(calm, ds.get(), nullptr, &g);
      Oracle o;
      if (!e.empty()) violate("C28 a training that does not diverge fails", e + " " + calm.config.ShortDebugString());
      std::string s = forest_bytes(g);
      if (pass == 0) blob_put(s);
      else if (s != alone) violate("C28 another result after a training that diverged", "");
      return 0;
    });
    if (pass == 0) alone = blob_get();
  }
}
Register r28({"C28", "diverging-training", gen28, exec28});

// The program: a forest of numbers, or failure with the outputs of earlier runs as they were.
void exec28c(Run& run) {
  Train t = make_train(run);
  enlarge(run, &t);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, 0);
  RtConfig d = run.config();
  if (run.knob("old")) spawn_old(run, t);
  run.spawn(d, [&] {
    put_config(t.config);
    Oracle o;
    if (run.knob("base")) {
      std::string s;
      JsonUtils::ToJson(base28(run, t), &s);
      disk_put("/sim/base.json", s.data(), s.size());
    }
    return 0;
  });
  disk_sync_all();
  auto bytes = [&](const char* p) { SFile* f = disk_find(p); return f && f->used && !f->is_dir ? std::string(disk_data(f), f->size) : std::string("-"); };
  std::string m0 = bytes(kModel), i0 = bytes(kImp);
  Outcome o = run.spawn(run.config(), [&] { return cli(train_args(run, t)); }, kEnds);
  note("program_runs");
  if (!is_ok(o)) {
    note("divergence_reported");
    if (run.knob("tame")) run.fail("C28 a training that does not diverge fails", o.text);
    if (bytes(kModel) != m0 || bytes(kImp) != i0) run.fail("C28 outputs in spite of divergence", o.text);
    return;
  }
  run.spawn(d, [&] {
    Oracle o;
    gbdt::Forest f;
    Status st = JsonUtils::FromJson(bytes(kModel), &f);
    if (!st.ok()) violate("C28 success without a model", st.ToString());
    std::string e = no_number(f, t.t);
    if (!e.empty()) violate("C28 success with a forest that does not predict numbers", e + " " + t.config.ShortDebugString());
    note("forests_checked");
    return 0;
  });
}
Register r28c({"C28", "diverging-program", gen28, exec28c});

}  // namespace
