// C15, C17, C18, C23, C25, C27: the Python module (src/python, compiled into the simulator) and the Python package
// (gbdt/*.py, read from the working tree), run by a real interpreter inside the simulation.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "work.h"
#include <math.h>
#include <thread>
#include <gflags/gflags.h>
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"
#include "src/utils/json_utils.h"
#include "src/utils/utils.h"
#include <stdlib.h>
#include <string.h>

extern "C" PyObject* PyInit_libgbdt();
DECLARE_int32(num_threads);
extern int gbdt_main(int argc, char** argv);

namespace sim {
namespace {

// ---- module simrt: what the scripts see of the simulation ------------------------------------
PyObject* py_knob(PyObject*, PyObject* a) {
  const char* n;
  long long d = 0;
  if (!PyArg_ParseTuple(a, "s|L", &n, &d)) return 0;
  return PyLong_FromLongLong(R->knob(n, d));
}
PyObject* py_seed(PyObject*, PyObject* a) {
  const char* n;
  if (!PyArg_ParseTuple(a, "s", &n)) return 0;
  return PyLong_FromUnsignedLongLong(R->seed_of(n));
}
PyObject* py_note(PyObject*, PyObject* a) {
  const char* n;
  long long k = 1;
  if (!PyArg_ParseTuple(a, "s|L", &n, &k)) return 0;
  note(n, k);
  Py_RETURN_NONE;
}
PyObject* py_violate(PyObject*, PyObject* a) {
  const char *c, *d;
  if (!PyArg_ParseTuple(a, "ss", &c, &d)) return 0;
  violate(c, d);
}
PyObject* py_error(PyObject*, PyObject* a) {       // the harness itself failed
  const char* c;
  if (!PyArg_ParseTuple(a, "s", &c)) return 0;
  rt_finish(OUT_INTERNAL, 0, c);
}
PyObject* py_arm(PyObject*, PyObject* a) {
  int on;
  if (!PyArg_ParseTuple(a, "i", &on)) return 0;
  rt_faults_enable(on);
  Py_RETURN_NONE;
}
// Harmful faults so far.
PyObject* py_fired(PyObject*, PyObject*) {
  RtStats s;
  rt_stats(&s);
  return PyLong_FromUnsignedLongLong(s.io_open_fail + s.io_eio + s.io_enospc + s.io_close_fail + s.fired[F_META] +
                                     s.fired[F_THREAD] + s.fired[F_ALLOC]);
}
PyObject* py_begin(PyObject*, PyObject*) { rt_ignore_begin(); Py_RETURN_NONE; }
PyObject* py_end(PyObject*, PyObject*) { rt_ignore_end(); Py_RETURN_NONE; }
PyObject* py_put(PyObject*, PyObject* a) {
  const char *p, *d;
  Py_ssize_t n;
  if (!PyArg_ParseTuple(a, "sy#", &p, &d, &n)) return 0;
  disk_put(p, d, (u64)n);
  Py_RETURN_NONE;
}
PyObject* py_get(PyObject*, PyObject* a) {
  const char* p;
  if (!PyArg_ParseTuple(a, "s", &p)) return 0;
  SFile* f = disk_find(p);
  if (!f || f->is_dir) Py_RETURN_NONE;
  return PyBytes_FromStringAndSize(disk_data(f), (Py_ssize_t)f->size);
}
PyObject* py_mkdir(PyObject*, PyObject* a) {
  const char* p;
  if (!PyArg_ParseTuple(a, "s", &p)) return 0;
  disk_mkdir(p);
  Py_RETURN_NONE;
}
PyObject* py_remove(PyObject*, PyObject* a) {
  const char* p;
  if (!PyArg_ParseTuple(a, "s", &p)) return 0;
  disk_remove(p);
  Py_RETURN_NONE;
}
std::string g_case, g_result;
PyObject* py_case(PyObject*, PyObject*) { return PyUnicode_FromStringAndSize(g_case.data(), (Py_ssize_t)g_case.size()); }
PyObject* py_result(PyObject*, PyObject* a) {
  const char* p;
  Py_ssize_t n;
  if (!PyArg_ParseTuple(a, "s#", &p, &n)) return 0;
  g_result.assign(p, (size_t)n);
  Py_RETURN_NONE;
}
PyObject* py_hash(PyObject*, PyObject* a) {
  unsigned long long h;
  if (!PyArg_ParseTuple(a, "K", &h)) return 0;
  rt_hash(h);
  Py_RETURN_NONE;
}
PyObject* py_threads(PyObject*, PyObject*) { return PyLong_FromLong(rt_live_threads()); }
PyObject* py_files(PyObject*, PyObject*) { return PyLong_FromLong(rt_open_files()); }
PyObject* py_heap(PyObject*, PyObject*) {
  u64 b, n;
  rt_heap_live(&b, &n);
  return PyLong_FromUnsignedLongLong(b);
}
PyObject* py_ls(PyObject*, PyObject* a) {          // what exists below a directory
  const char* p;
  if (!PyArg_ParseTuple(a, "s", &p)) return 0;
  std::string s;
  for (u32 i = 0; i < shm0->disk.nfiles; ++i) {
    SFile& f = shm0->disk.f[i];
    if (f.used && !strncmp(f.path, p, strlen(p))) s += std::string(s.empty() ? "" : " ") + f.path;
  }
  return PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size());
}
PyMethodDef kMethods[] = {
  {"threads", py_threads, METH_NOARGS, ""}, {"files", py_files, METH_NOARGS, ""}, {"heap", py_heap, METH_NOARGS, ""}, {"ls", py_ls, METH_VARARGS, ""},
  {"knob", py_knob, METH_VARARGS, ""}, {"seed", py_seed, METH_VARARGS, ""}, {"note", py_note, METH_VARARGS, ""},
  {"violate", py_violate, METH_VARARGS, ""}, {"error", py_error, METH_VARARGS, ""}, {"arm", py_arm, METH_VARARGS, ""},
  {"fired", py_fired, METH_VARARGS, ""}, {"begin", py_begin, METH_VARARGS, ""}, {"end", py_end, METH_VARARGS, ""},
  {"put", py_put, METH_VARARGS, ""}, {"get", py_get, METH_VARARGS, ""}, {"mkdir", py_mkdir, METH_VARARGS, ""},
  {"remove", py_remove, METH_VARARGS, ""}, {"hash", py_hash, METH_VARARGS, ""},
  {"case", py_case, METH_VARARGS, ""}, {"result", py_result, METH_VARARGS, ""}, {0, 0, 0, 0}};
PyModuleDef kModule = {PyModuleDef_HEAD_INIT, "simrt", "", -1, kMethods};
PyObject* init_simrt() { return PyModule_Create(&kModule); }

const char kPrelude[] =
#include "py_common.inc.h"
;
const char kC15[] =
#include "py_c15.inc.h"
;
const char kC17[] =
#include "py_c17.inc.h"
;
const char kC18[] =
#include "py_c18.inc.h"
;
const char kC23[] =
#include "py_c23.inc.h"
;
const char kC25[] =
#include "py_c25.inc.h"
;
const char kC27[] =
#include "py_c27.inc.h"
;
const char kC29[] =
#include "py_c29.inc.h"
;
const char kC30[] =
#include "py_c30.inc.h"
;

void die(const char* what) {
  PyErr_Print();
  fprintf(stderr, "python: %s\n", what);
  _exit(3);
}

void py_init() {
  static bool done;
  if (done) return;
  done = true;
  PyImport_AppendInittab("libgbdt", PyInit_libgbdt);
  PyImport_AppendInittab("simrt", init_simrt);
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed = 1;
  c.hash_seed = 0;
  c.write_bytecode = 0;
  c.install_signal_handlers = 0;
  c.site_import = 0;
  c.buffered_stdio = 0;
  PyConfig_SetString(&c, &c.home, L"/usr");
  PyConfig_SetString(&c, &c.program_name, L"/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&c);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg ? st.err_msg : "?"); _exit(3); }
  const char* repo = getenv("GBDTSIM_REPO");
  std::string set = std::string("REPO = '") + (repo ? repo : "/repo") + "'\n";
  if (PyRun_SimpleString(set.c_str())) die("set");
  if (PyRun_SimpleString(kPrelude)) die("prelude");
  if (PyRun_SimpleString(kC15)) die("C15 script");
  if (PyRun_SimpleString(kC17)) die("C17 script");
  if (PyRun_SimpleString(kC18)) die("C18 script");
  if (PyRun_SimpleString(kC23)) die("C23 script");
  if (PyRun_SimpleString(kC25)) die("C25 script");
  if (PyRun_SimpleString(kC27)) die("C27 script");
  if (PyRun_SimpleString(kC29)) die("C29 script");
  if (PyRun_SimpleString(kC30)) die("C30 script");
  PyEval_SaveThread();
}

int call_script(const char* expr) {
  PyGILState_Ensure();
  if (PyRun_SimpleString(expr)) rt_finish(OUT_INTERNAL, 0, "script failed");
  return 0;
}

// ---- C15 ----------------------------------------------------------------------------------------
void gen15(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("steps", r.range(3, 25)); k.set("min.steps", 1);
  k.set("rows", r.chance(0.1) ? 0 : r.range(1, 25));
  k.set("nthreads", r.range(1, 6)); k.set("min.nthreads", 1);
  k.set("invalid", r.range(0, 80));            // percent of calls with bad arguments
  k.set("faulty", r.chance(0.6) ? r.range(10, 90) : 0);
  k.set("fclass", r.range(0, 5)); k.set("min.fclass", k.get("fclass"));
  k.set("fpermille", r.chance(0.5) ? 0 : r.range(20, 500));
  k.set("at", (i64)r.below(60));
  k.set("action", (i64)r.below(4));
  k.set("cap", (i64)r.below(400));
  k.set("tick_cap", 60000000);
}

void plan15(Run& run, RtConfig* cfg) {
  RtConfig& c = *cfg;
  static const u32 errs[] = {EMFILE, EIO, EACCES, ENOMEM};
  u32 e = errs[run.knob("action") % 4];
  auto plan = [&](int cls, u32 act) {
    FaultPlan& p = c.fp[cls];
    p.permille = (u32)run.knob("fpermille");
    p.rnd_action = act;
    if (!p.permille) for (p.n_at = 0; p.n_at < 6; ++p.n_at) { p.at[p.n_at] = (u64)(run.knob("at") + (1 + run.knob("at")) * 13 % 40 * p.n_at); p.action[p.n_at] = act; }
  };
  switch (run.knob("fclass")) {
    case 0: plan(F_OPEN, e); plan(F_META, e); break;
    case 1: plan(F_READ, IOA_EIO); plan(F_WRITE, IOA_EIO); break;
    case 2: plan(F_READ, IOA_SHORT | 77 << 8); plan(F_WRITE, IOA_ENOSPC); break;
    case 3: plan(F_CLOSE, 1); plan(F_READ, IOA_EINTR); break;
    case 4: plan(F_THREAD, 1); break;
    case 5: c.disk_cap = (u64)run.knob("cap"); break;
  }
}

void exec15(Run& run) {
  RtConfig c = run.config();
  plan15(run, &c);
  disk_mkdir("/sim/tmp");
  disk_mkdir("/sim/data");
  run.spawn(c, [] { return call_script("c15_main()"); });
}
Register r15({"C15", "python-calls", gen15, exec15, py_init});

// ---- C29 ----------------------------------------------------------------------------------------
void gen29(Rng& r, Knobs& k, int tier) {
  gen15(r, k, tier);
  k.set("steps", r.range(1, 12));
  k.set("rows", r.range(1, 15));
  k.set("faulty", r.chance(0.5));
  k.set("fclass", r.range(0, 4)); k.set("min.fclass", k.get("fclass"));
  k.set("reps", r.range(6, 7)); k.set("min.reps", 6);
}
void exec29(Run& run) {
  RtConfig c = run.config();
  if (run.knob("faulty")) plan15(run, &c);
  disk_mkdir("/sim/tmp");
  disk_mkdir("/sim/data");
  run.spawn(c, [] { return call_script("c29_main()"); });
}
Register r29({"C29", "python-repeated-calls", gen29, exec29, py_init});

// ---- C17 ----------------------------------------------------------------------------------------
void gen17(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("procs", r.chance(0.3) ? 1 : r.range(2, 5)); k.set("min.procs", 1);
  k.set("iters", r.range(1, 4)); k.set("min.iters", 1);
  k.set("quantum", r.chance(0.6) ? 1 : r.range(2, 30)); k.set("min.quantum", 1);
  k.set("abandon", r.chance(0.4) ? r.range(1, 40) : 0);
  k.set("nthreads", r.range(1, 3)); k.set("min.nthreads", 1);
  k.set("fault", r.chance(0.3) ? r.range(1, 6) : 0);
  k.set("crash", r.chance(0.3) ? r.range(1, 60) : 0);
  k.set("at", (i64)r.below(40));
  k.set("twins", r.chance(0.3));         // the processes get the same entropy and the same clock
  k.set("samepid", r.chance(0.4));       // containers with a shared directory: equal process ids
  if (k.get("twins")) { k.set("clockjump", 0); k.set("slow", 0); }
}

void exec17(Run& run) {
  int n = (int)run.knob("procs");
  disk_mkdir("/sim/tmp");
  std::vector<Run::Proc> ps;
  RtConfig base = run.config();
  for (int i = 0; i < n; ++i) {
    RtConfig c = base;
    if (!run.knob("twins")) c.seed = base.seed ^ (0x9e3779b97f4a7c15ull * (u64)(i + 1));
    c.pid = run.knob("samepid") ? 4711 : 4000 + (u32)i * 7;
    int after = -1;
    if (run.knob("crash") && i % 2 == 0) {
      FaultPlan& p = c.fp[F_WRITE];
      p.n_at = 1; p.at[0] = (u64)run.knob("crash") - 1; p.action[0] = IOA_CRASH | (u32)(run.knob("at") * 25) << 8;
      if (run.knob("crash") % 3 == 0) { c.fp[F_WRITE].n_at = 0; FaultPlan& q = c.fp[F_CRASH]; q.n_at = 1; q.at[0] = (u64)run.knob("crash") * 2000; q.action[0] = 1; }
    }
    if (run.knob("crash") && i % 2 == 1 && run.knob("crash") % 4 == 0) { after = i - 1; c.pid = ps[i - 1].cfg.pid; }
    u64 at = (u64)run.knob("at");
    switch (run.knob("fault")) {
      case 1: case 2: c.disk_cap = at * 8; break;
      case 3: case 4: c.fp[F_OPEN].n_at = 1; c.fp[F_OPEN].at[0] = at; c.fp[F_OPEN].action[0] = 24; break;
      case 5: c.fp[F_META].n_at = 1; c.fp[F_META].at[0] = at; c.fp[F_META].action[0] = 5; break;
      case 6: c.fp[F_READ].permille = 100; c.fp[F_READ].rnd_action = IOA_EIO; break;
    }
    ps.push_back({c, [i] { return call_script(sfmt("c17_main(%d)", i).c_str()); }, after});
  }
  auto out = run.spawn_many(ps, run.seed_of("turns"), (u32)run.knob("quantum"), ALLOW(OUT_CRASH));
  for (auto& o : out) if (o.kind == OUT_CRASH) note("crashes");
}
// ---- C18 ----------------------------------------------------------------------------------------
void gen18(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("steps", r.range(2, 25)); k.set("min.steps", 1);
  k.set("rows", r.range(1, 30)); k.set("min.rows", 1);
  k.set("nthreads", r.range(1, 5)); k.set("min.nthreads", 1);
  k.set("fault", r.chance(0.4) ? r.range(1, 4) : 0);
  k.set("tick_cap", 60000000);
}

void exec18(Run& run) {
  RtConfig c = run.config();
  switch (run.knob("fault")) {
    case 1: c.fp[F_READ].permille = 150; c.fp[F_READ].rnd_action = IOA_EIO; break;
    case 2: c.fp[F_OPEN].permille = 150; c.fp[F_OPEN].rnd_action = 24; break;
    case 3: c.fp[F_THREAD].permille = 150; c.fp[F_THREAD].rnd_action = 1; break;
    case 4: c.fp[F_READ].permille = 300; c.fp[F_READ].rnd_action = IOA_SHORT | 50 << 8; break;
  }
  disk_mkdir("/sim/tmp");
  disk_mkdir("/sim/data");
  run.spawn(c, [] { return call_script("c18_main()"); });
}
Register r18({"C18", "column-lifetimes", gen18, exec18, py_init});

// ---- C23 ----------------------------------------------------------------------------------------
void gen23p(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("iters", r.range(1, 4)); k.set("min.iters", 1);
  k.set("nthreads", r.range(1, 4)); k.set("min.nthreads", 1);
}
void exec23p(Run& run) {
  disk_mkdir("/sim/tmp");
  run.spawn(run.config(), [] { return call_script("c23_main()"); });
}
Register r23p({"C23", "python-importance", gen23p, exec23p, py_init});

// ---- C25 ----------------------------------------------------------------------------------------
void gen25(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SAFE);
  k.set("feat_rate", 100);
  k.set("weights", r.chance(0.25) ? 0 : 1); k.set("min.weights", k.get("weights"));
  k.set("style", (i64)r.below(8));
  k.set("ways", r.range(1, 3)); k.set("min.ways", 1);
  k.set("style2", (i64)r.below(8));
  k.set("reuse", r.chance(0.25));
  gen_history(r, k);
}

std::string jstr(const std::string& s) {
  std::string t = "\"";
  for (unsigned char c : s) {
    if (c < 32 || c == '"' || c == '\\') t += sfmt("\\u%04x", c);
    else t += (char)c;
  }
  return t + "\"";
}
std::string jnum(double d) { return d != d ? "NaN" : std::isinf(d) ? (d > 0 ? "Infinity" : "-Infinity") : sfmt("%.17g", d); }
template <class T, class F> std::string jlist(const T& v, F f) {
  std::string s = "[";
  for (auto& x : v) s += (s.size() > 1 ? "," : "") + f(x);
  return s + "]";
}
std::string case_of(const Train& t, const gbdt::Forest* base, int way) {
  std::string cols;
  for (auto& c : t.t.cols) {
    cols += (cols.empty() ? "" : ",") + jstr(c.name) + sfmt(":[%d,", c.type);
    cols += (c.type == CT_STRING ? jlist(c.s, jstr) : jlist(c.f, [](float f) { return jnum(f); })) + "]";
  }
  const gbdt::Config& g = t.config;
  std::string conf = sfmt("{\"num_trees\":%d,\"num_leaves\":%d,\"loss_func\":\"%s\"", g.num_trees(), g.num_leaves(), t.loss.c_str());
  auto num = [&](const char* n, double v) { conf += sfmt(",\"%s\":%.17g", n, v); };
  num("shrinkage", g.shrinkage()); num("min_gain", g.min_gain()); num("l2_lambda", g.l2_lambda()); num("min_hessian", g.min_hessian());
  if (g.example_sampling_rate() != 1) num("example_sampling_rate", g.example_sampling_rate());
  num("pair_sampling_rate", g.pair_sampling_rate());
  conf += sfmt(",\"pair_weight_by_delta_target\":%s,\"equal_group_weight\":%s", g.pair_weight_by_delta_target() ? "true" : "false", g.equal_group_weight() ? "true" : "false");
  if (g.binarize_target()) conf += ",\"binarize_target\":true";
  if (g.group_column().size()) conf += ",\"group_column\":" + jstr(g.group_column());
  conf += "}";
  std::string b = "null", text;
  if (base) { JsonUtils::ToJson(*base, &text); b = text; }
  return sfmt("{\"way\":%d,\"seed\":%d,\"threads\":%d,\"columns\":{", way, t.seed, t.threads) + cols + "},\"config\":" + conf +
         ",\"features\":" + jlist(t.features, jstr) + ",\"tsvs\":" + jlist(t.tsvs, jstr) + ",\"base\":" + b + "}";
}

void exec25(Run& run) {
  Train t = make_train(run);
  Rng fr(run.seed_of("base"));
  int nb = (int)run.knob("base");
  t.source = 0;
  auto with_base = [&](const std::function<int(const gbdt::Forest*)>& f) {
    gbdt::Forest b;
    { Oracle o; Rng q = fr; if (nb) b = random_forest(q, t.t, nb, 4); }
    return f(nb ? &b : nullptr);
  };
  RtConfig c = run.config();
  canonical(run, &c);
  run.spawn(c, [&] { return with_base([&](const gbdt::Forest* b) { return train_raw_body(t, b); }); });
  std::string want = blob_get();
  disk_mkdir("/sim/tmp");
  Rng r(run.seed_of("ways"));
  for (int v = 0; v < run.knob("ways"); ++v) {
    Rng q(r.next());
    int way = (int)q.below(7);          // 0, 1: library with files; otherwise Python (6: from a data frame)
    Train u = t;
    put_files(u, 1 + (int)q.below(4), q, (int)run.knob(v % 2 ? "style2" : "style"));
    RtConfig d = run.config();
    d.seed += (u64)v * 1000003;
    u.source = way < 2 ? 1 + way : 0;
    std::string how = way == 0 ? "TSV files" : way == 1 ? "flat files" : sfmt("Python, way %d", way);
    run.spawn(d, [&] {
      return with_base([&](const gbdt::Forest* b) {
        rt_faults_enable(1);
        history(run);
        if (way < 2) return train_raw_body(u, b);
        { Oracle o; g_case = case_of(u, b, way); }
        call_script("c25_main()");
        Oracle o;
        if (g_result.compare(0, 3, "ok ") == 0) {
          gbdt::Forest f;
          auto st = JsonUtils::FromJson(g_result.substr(3), &f);
          if (!st.ok()) violate("C25 the forest from Python does not load", st.ToString());
          g_result = "ok " + forest_bytes(f);
          note("python_trainings");
        }
        blob_put(g_result);
        return 0;
      });
    });
    std::string got = blob_get();
    if (got.compare(0, 5, "skip ") == 0) { note("stub_too_small"); continue; }
    std::string what = sfmt("loss %s, %d threads, %d rows, %s: ", t.loss.c_str(), t.threads, t.t.rows, how.c_str());
    if (want.compare(0, 3, got, 0, 3)) run.fail("C25 the outcome depends on how the data is supplied", what + "library: " + want.substr(0, 150) + "; otherwise: " + got.substr(0, 150));
    if (want.compare(0, 3, "ok ")) return;
    note("ways_compared");
    if (got == want) { note("equal_bit_for_bit"); continue; }
    std::string diff = compare_in_child(run, want, got, 1e-6, 2e-4, run.knob("min_gain") / 1000.0);
    if (diff.empty()) continue;
    auto again = [&](const Train& x) { return with_base([&](const gbdt::Forest* b) { return train_raw_body(x, b); }); };
    if (ill_conditioned(run, t, want, 1e-6, 2e-4, again)) continue;
    run.fail("C25 the forest depends on how the data is supplied", what + diff);
  }
}
Register r25({"C25", "ways-to-train", gen25, exec25, py_init});

// ---- C27 ----------------------------------------------------------------------------------------
void gen27(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("iters", r.range(1, 5)); k.set("min.iters", 1);
  k.set("rows", r.range(1, 30)); k.set("min.rows", 1);
  k.set("nthreads", r.range(1, 6)); k.set("min.nthreads", 1);
  k.set("fault", r.chance(0.3));
  k.set("fpermille", r.range(20, 300));
  k.set("tick_cap", 60000000);
}
void exec27(Run& run) {
  disk_mkdir("/sim/tmp");
  RtConfig c = run.config();
  if (run.knob("fault") == 1) { c.fp[F_THREAD].permille = (u32)run.knob("fpermille"); c.fp[F_THREAD].rnd_action = 1; }
  run.spawn(c, [] { return call_script("c27_main()"); });
}
Register r27({"C27", "plots", gen27, exec27, py_init});

// ---- C30 ----------------------------------------------------------------------------------------
void gen30(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  gen_train(r, k, GT_SMALL);
  k.set("rows", r.range(1, r.chance(0.2) ? 120 : 25)); k.set("min.rows", 1);
  k.set("trained", r.chance(0.5));
  k.set("trees", r.range(1, r.chance(0.1) ? 12 : 5)); k.set("leaves", r.range(2, 8));
  k.set("ftrees", r.range(1, 8)); k.set("min.ftrees", 1);
  k.set("odd", r.range(0, 4));
  k.set("ways", r.range(2, 5)); k.set("min.ways", 1);
  k.set("others", r.range(0, 4));
  k.set("interval", r.chance(0.5) ? 0 : r.range(1, 3));
  k.set("rwfault", r.range(0, 2));
  gen_history(r, k);
}

// Values and names that are hard on a text format; the meaning of the forest on the table stays defined.
void spice(Rng& r, gbdt::TreeNode* n) {
  static const float scores[] = {0.1f, 1.0f / 3, 16777216.0f, 1e-45f, -1e-38f, 3.4028234e38f, 2e-45f, 1e-7f, 123456.789f, 0.30000001f};
  static const char* cats[] = {"", " ", "a\"b", "back\\slash", "tab\there", "line\nbreak", "\x01", "<&>'", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "/", "\\u0041", "null", "\x7f"};
  if (!n->has_left_child()) {
    if (r.chance(0.5)) n->set_score(r.chance(0.5) ? scores[r.below(10)] : (float)((r.unit() - 0.5) * pow(10, (double)r.range(-20, 20))));
    return;
  }
  auto* sp = n->mutable_split();
  if (r.chance(0.3)) sp->set_gain(r.unit() * pow(10, (double)r.range(-300, 300)));
  if (sp->has_cat_split()) {
    while (r.chance(0.5)) sp->mutable_cat_split()->add_category(cats[r.below(sizeof cats / sizeof *cats)]);
  } else if (r.chance(0.5)) {
    float th = sp->float_split().threshold();
    int k = (int)r.below(6);
    sp->mutable_float_split()->set_threshold(k == 0 ? nextafterf(th, 1e38f) : k == 1 ? nextafterf(th, -1e38f) : k == 2 ? 0 : k == 3 ? 1e-45f : k == 4 ? th / 3 : 3.4028234e38f);
  }
  spice(r, n->mutable_left_child());
  spice(r, n->mutable_right_child());
}

// Rounding, whatever the order of summation.
double forest_slack(const gbdt::Forest& f) {
  std::function<double(const gbdt::TreeNode&)> top = [&](const gbdt::TreeNode& n) {
    return n.has_left_child() ? std::max(top(n.left_child()), top(n.right_child())) : fabs((double)n.score());
  };
  double s = 0;
  for (auto& t : f.tree()) s += top(t);
  return 1e-12 * s;
}

std::string compare_scores(const std::vector<double>& got, const std::vector<double>& want, double tol) {
  if (got.size() != want.size()) return sfmt("%zu scores for %zu rows", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    if (!(fabs(got[i] - want[i]) <= tol)) return sfmt("row %zu of %zu: %.17g instead of %.17g", i, got.size(), got[i], want[i]);
  return "";
}

std::string raw(const std::vector<double>& v) { return std::string((const char*)v.data(), v.size() * sizeof(double)); }

void exec30(Run& run) {
  Train t = make_train(run);
  t.config.set_eval_interval((int)run.knob("interval"));
  Rng fr(run.seed_of("files"));
  put_files(t, (int)run.knob("blocks"), fr, 0);
  disk_mkdir("/sim/tmp");
  auto load = [&](const Train& u) {
    FLAGS_num_threads = u.threads;
    std::string err;
    auto ds = make_store(u, &err);
    if (!ds) { Oracle o; violate("C30 the data does not load", err); }
    return ds;
  };
  // The model in memory: what it holds, how it scores and its file.
  run.spawn(run.config(), [&] {
    gbdt::Forest f, base;
    auto ds = load(t);
    bool usable = true;
    { Oracle o;
      Rng q(run.seed_of("forest"));
      if (run.knob("trained")) {
        base = random_forest(q, t.t, (int)run.knob("base"), 4);
      } else {
        f = random_forest(q, t.t, (int)run.knob("ftrees"), 6);
        if (run.knob("odd")) for (auto& x : *f.mutable_tree()) spice(q, &x);
      }
      std::string s;
      JsonUtils::ToJson(t.config, &s);
      disk_put("/sim/config.json", s.data(), s.size()); }
    if (run.knob("trained")) usable = train_forest(t, ds.get(), run.knob("base") ? &base : nullptr, &f).empty();
    { Oracle o;                            // a lazy store that holds nothing has no rows
      bool split = false;
      for (auto& x : f.tree()) split = split || x.has_left_child();
      if (!usable) note("training_errors");
      usable = usable && split; }
    if (!usable) { Oracle o; blob_put(""); return 0; }
    std::vector<double> s;
    Status st = gbdt::EvaluateForest(ds.get(), f, &s);
    if (!st.ok()) { Oracle o; violate("C30 a valid forest is not scored", st.ToString()); }
    std::string text, m;
    st = JsonUtils::ToJson(f, &text);
    if (!st.ok()) { Oracle o; violate("C30 a valid forest is not turned into text", st.ToString()); }
    WriteStringToFile(text, "/sim/model.json");
    Oracle o;
    std::vector<double> w;
    for (int i = 0; i < t.t.rows; ++i) w.push_back(walk(f, t.t, i));
    m = compare_scores(s, w, forest_slack(f) * 1000 + 1e-300);
    if (!m.empty()) violate("C30 wrong scores", m);
    note(run.knob("trained") ? "trained_models" : "random_models");
    m = forest_bytes(f);
    blob_put(sfmt("%16zu", m.size()) + m + raw(s));
    return 0;
  });
  std::string kept = blob_get();
  if (kept.empty()) return;
  disk_sync_all();
  size_t n = (size_t)atoll(kept.substr(0, 16).c_str());
  std::string fb = kept.substr(16, n);
  std::vector<double> want((kept.size() - 16 - n) / sizeof(double));
  memcpy(want.data(), kept.data() + 16 + n, want.size() * sizeof(double));
  Rng r(run.seed_of("ways"));
  for (int v = 0; v < run.knob("ways"); ++v) {
    int way = (int)r.below(3), threads = (int)r.range(1, 6), source = (int)r.below(3);
    RtConfig c = run.config();
    c.seed += (u64)v * 7919;
    if (run.knob("rwfault")) for (int k : {F_READ, F_WRITE}) { c.fp[k].permille = 200; c.fp[k].rnd_action = run.knob("rwfault") == 1 ? IOA_SHORT : IOA_EINTR; }
    Train u = t;
    u.threads = threads;
    u.source = way == 1 && source == 0 ? 1 : source;
    if (way == 0) {
      // Another process of the library; other models are converted by other threads meanwhile.
      run.spawn(c, [&] {
        rt_faults_enable(1);
        history(run);
        std::vector<gbdt::Forest> others((size_t)run.knob("others"));
        { Oracle o; Rng q(run.seed_of("others")); for (auto& x : others) { x = random_forest(q, t.t, 1 + (int)q.below(3), 4); for (auto& y : *x.mutable_tree()) spice(q, &y); } }
        std::vector<std::thread> th;
        std::vector<int> bad(others.size());
        std::vector<std::string> kept(others.size());
        for (size_t i = 0; i < others.size(); ++i)
          th.emplace_back([&, i] {          // no Oracle here: other threads run
            std::string s;
            gbdt::Forest g;
            if (!JsonUtils::ToJson(others[i], &s).ok() || !JsonUtils::FromJson(s, &g).ok()) bad[i] = 1;
            kept[i] = g.SerializeAsString();
          });
        gbdt::Forest f = gbdt::LoadForestOrDie("/sim/model.json");
        auto ds = load(u);
        std::vector<double> s;
        Status st = gbdt::EvaluateForest(ds.get(), f, &s);
        std::string text;
        Status st2 = JsonUtils::ToJson(f, &text);
        for (auto& x : th) x.join();
        Oracle o;
        for (size_t i = 0; i < others.size(); ++i) {
          gbdt::Forest g;
          if (!bad[i] && (!g.ParseFromString(kept[i]) || forest_bytes(g) != forest_bytes(others[i]))) bad[i] = 2;
        }
        for (int b : bad) if (b) violate("C30 a model is changed by being turned into text and back", b == 1 ? "conversion fails" : "another forest");
        if (forest_bytes(f) != fb) {
          gbdt::Forest g;
          g.ParseFromString(fb);
          violate("C30 the model file holds another forest", f.ShortDebugString().substr(0, 500) + " instead of " + g.ShortDebugString().substr(0, 500));
        }
        if (!st.ok() || !st2.ok()) violate("C30 a loaded forest cannot be used", st.ToString() + st2.ToString());
        std::string m = compare_scores(s, want, forest_slack(f));
        if (!m.empty()) violate("C30 the loaded model scores differently", m);
        gbdt::Forest g;
        if (!JsonUtils::FromJson(text, &g).ok() || forest_bytes(g) != fb) violate("C30 the model changes when it is saved again", text.substr(0, 500));
        note("library_loads");
        note("conversions_at_the_same_time", others.size());
        return 0;
      });
    } else if (way == 1) {
      std::vector<std::string> a = {"gbdt", "--config_file=/sim/config.json", "--mode=test", "--output_dir=/sim/out", "--testing_model_file=/sim/model.json", sfmt("--num_threads=%d", threads)};
      std::string list;
      for (auto& x : u.tsvs) list += (list.empty() ? "" : ",") + x;
      a.push_back(u.source == 1 ? "--tsvs=" + list : std::string("--flatfiles_dirs=/sim/flat"));
      Outcome o = run.spawn(c, [&] {
        std::vector<char*> argv;
        for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
        argv.push_back(nullptr);
        rt_faults_enable(1);
        return gbdt_main((int)a.size(), argv.data());
      }, ALLOW(OUT_EXIT) | ALLOW(OUT_ABORT));
      if (o.kind != OUT_EXIT || o.code) run.fail("C30 the program cannot use the model", o.text);
      run.spawn(run.config(), [&] {
        Oracle q;
        gbdt::Forest f;
        f.ParseFromString(fb);
        std::string m = check_scores(sfmt("/sim/out/forest.%d.score", f.tree_size()), want);
        if (!m.empty()) violate("C30 the program scores the model differently", m);
        note("program_scorings");
        return 0;
      });
    } else {
      run.spawn(c, [&] {
        { Oracle o; g_case = case_of(u, nullptr, 0); }
        rt_faults_enable(1);
        call_script("c30_main()");
        Oracle o;
        // [text, [scores]]
        PyObject* main = PyImport_AddModule("__main__");
        PyObject* d = PyModule_GetDict(main);
        PyObject* res = PyUnicode_FromStringAndSize(g_result.data(), (Py_ssize_t)g_result.size());
        PyDict_SetItemString(d, "_r", res);
        PyObject* x = PyRun_String("json.loads(_r)", Py_eval_input, d, d);
        if (!x) rt_finish(OUT_INTERNAL, 0, "result of the script");
        Py_ssize_t len;
        const char* text = PyUnicode_AsUTF8AndSize(PyList_GetItem(x, 0), &len);
        gbdt::Forest f, g;
        Status st = JsonUtils::FromJson(std::string(text, (size_t)len), &g);
        f.ParseFromString(fb);
        if (!st.ok() || forest_bytes(g) != fb) violate("C30 the model is another one in Python", st.ToString());
        std::vector<double> s;
        PyObject* l = PyList_GetItem(x, 1);
        for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) s.push_back(strtod(PyUnicode_AsUTF8(PyList_GetItem(l, i)), 0));
        std::string m = compare_scores(s, want, forest_slack(f) + 1e-300);
        if (!m.empty()) violate("C30 Python scores the model differently", m);
        note("python_scorings");
        return 0;
      });
    }
  }
}
Register r30({"C30", "kept-models", gen30, exec30, py_init});

Register r17({"C17", "checkpoint-iterators", gen17, exec17, py_init});

}  // namespace
}  // namespace sim
