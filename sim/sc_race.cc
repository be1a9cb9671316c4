// C04: freedom from data races in loading, training and prediction.
#include "work.h"
#include <algorithm>
#include <list>
#include <thread>
#include <gflags/gflags.h>
#include "src/data_store/flatfiles_data_store.h"
#include "src/gbdt_algo/evaluation.h"
DECLARE_int32(num_threads);
using namespace sim;

namespace {

void gen(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, (r.chance(0.6) ? GT_PAIRWISE : 0) | (r.chance(0.5) ? GT_SMALL : 0));
  if (k.get("source") == 0 && r.chance(0.7)) k.set("source", r.range(1, 2));
  if (r.chance(0.5)) k.set("nthreads", r.range(2, 8));
  k.set("race", 1); k.set("min.race", 1);
  k.set("mode", (i64)r.below(4)); k.set("min.mode", k.get("mode"));
  k.set("style", (i64)r.below(8));
  k.set("users", r.range(2, 5)); k.set("min.users", 1);
  k.set("badfile", r.chance(0.3));
  k.set("rows_extra", r.chance(0.1) ? (i64)r.below(3) : 0);
}

void lazy(const Train& t) {
  // Several user threads share a flat-file store: GetColumn is documented as thread safe.
  gbdt::FlatfilesDataStore ds(std::string("/sim/flat"));
  int users = (int)R->knob("users");
  Rng r(R->seed_of("users"));
  std::vector<std::thread> th;
  std::vector<u64> seeds;
  for (int i = 0; i < users; ++i) seeds.push_back(r.next());
  for (int u = 0; u < users; ++u) {
    u64 s = seeds[u];
    th.emplace_back([&ds, &t, s] {
      Rng q(s);
      for (int i = 0; i < 6; ++i) {
        const Col& c = t.t.cols[q.below(t.t.cols.size())];
        std::string name = q.chance(0.1) ? std::string("nosuch") : c.name;
        const gbdt::Column* col = ds.GetColumn(name);
        if (!col) continue;
        volatile double sum = 0;
        if (c.type == CT_STRING) { auto* p = static_cast<const gbdt::StringColumn*>(col); for (unsigned j = 0; j < p->size(); ++j) sum += p->get_row_string(j).size(); }
        else if (c.type == CT_RAW) { auto* p = static_cast<const gbdt::RawFloatColumn*>(col); for (unsigned j = 0; j < p->size(); ++j) sum += (*p)[j]; }
        else { auto* p = static_cast<const gbdt::BucketizedFloatColumn*>(col); for (unsigned j = 0; j < p->size(); ++j) sum += p->get_row_max(j); }
      }
    });
  }
  for (auto& x : th) x.join();
  note("shared_store_reads", users * 6);
}

int body(const Train& t, const std::string& base_bytes) {
  int mode = (int)R->knob("mode");
  rt_faults_enable(1);
  if (mode == 3) { lazy(t); return 0; }
  FLAGS_num_threads = t.threads;
  std::string err;
  auto ds = make_store(t, &err);
  { Oracle o; note(ds ? "loads" : "load_errors"); }
  if (!ds) return 0;
  gbdt::Forest base, f;
  if (!base_bytes.empty()) base.ParseFromString(base_bytes);
  if (mode != 2) {
    err = train_forest(t, ds.get(), base_bytes.empty() ? nullptr : &base, &f);
    Oracle o;
    note(err.empty() ? "trainings" : "training_errors");
  } else {
    f = base;
  }
  if (f.tree_size() == 0) return 0;
  std::vector<double> scores;
  gbdt::EvaluateForest(ds.get(), f, &scores);
  std::list<int> tp;
  for (int i = 1; i <= f.tree_size(); ++i) tp.push_back(i);
  gbdt::EvaluateForest(ds.get(), f, tp, "/sim/out");
  { Oracle o; note("predictions", 2); }
  return 0;
}

void exec(Run& run) {
  Train t = make_train(run);
  Rng r(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), r, (int)run.knob("style"));
  if (run.knob("badfile")) disk_put("/sim/flat/nosuch", "# dtype=unknown\n1\n", 18);
  int nb = (int)run.knob("base");
  int mode = (int)run.knob("mode");
  RtConfig c = run.config();
  run.spawn(c, [&] {
    std::string bytes;
    { Oracle o;
      Rng fr(run.seed_of("base"));
      if (nb || mode == 2) bytes = random_forest(fr, t.t, mode == 2 ? 1 + nb * 2 : nb, 6).SerializeAsString(); }
    return body(t, bytes);
  });
}
Register reg({"C04", "race", gen, exec});

}  // namespace
