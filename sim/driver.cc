// Driver: worker loop, minimisation, replay. Process tree: zygote (this program) -> one controller
// per run (always forked from the same zygote state) -> one process per incarnation.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>

#include <gflags/gflags.h>
#include <glog/logging.h>

DECLARE_int32(minloglevel);
DECLARE_bool(logtostderr);


namespace sim {

static std::vector<Scenario>& reg() { static std::vector<Scenario> v; return v; }
const std::vector<Scenario>& scenarios() { return reg(); }
Register::Register(const Scenario& s) { reg().push_back(s); }

Run* R;

i64 Knobs::get(const char* n, i64 def) const {
  for (auto& p : v) if (p.first == n) return p.second;
  return def;
}
bool Knobs::has(const char* n) const {
  for (auto& p : v) if (p.first == n) return true;
  return false;
}
void Knobs::set(const char* n, i64 x) {
  for (auto& p : v) if (p.first == n) { p.second = x; return; }
  v.emplace_back(n, x);
}

std::string sfmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (n < 0) n = 0;
  return std::string(buf, std::min<size_t>(n, sizeof buf - 1));
}
std::string double_bits(double d) {
  u64 x;
  memcpy(&x, &d, 8);
  return sfmt("%016llx", (unsigned long long)x);
}

// ---- result of a run, in shared memory ---------------------------------------------------------
struct Counter { char key[40]; i64 n; };
struct Res {
  int status;              // 0 ok, 1 violation, 2 simulator error
  int inc;                 // incarnation of the violation, -1 none
  int kind;
  char cls[120];
  char text[4000];
  u64 hash, ihash;
  int n_inc;
  RtStats st;              // summed
  int kinds[16];           // how incarnations ended
  u32 ncnt;
  Counter cnt[64];
  u32 inc_ndec[64];
  u32 dec_overflow;
};
static Res* res() { return (Res*)shm0->res; }
static_assert(sizeof(Res) < (1u << 16), "Res too big");

void note(const char* key, i64 add) {
  Res* r = res();
  for (u32 i = 0; i < r->ncnt; ++i)
    if (!strcmp(r->cnt[i].key, key)) { r->cnt[i].n += add; return; }
  if (r->ncnt < 64) {
    Counter& c = r->cnt[r->ncnt++];
    strncpy(c.key, key, sizeof c.key - 1);
    c.n = add;
  }
}

void violate(const std::string& cls, const std::string& detail) {
  rt_ignore_begin();
  std::string t = cls + "|" + detail;
  rt_violation(t.c_str());
}

void blob_put(const std::string& s) {
  if (s.size() > BLOB_MAX) rt_finish(OUT_INTERNAL, 0, "blob too large");
  memcpy(shm->blob, s.data(), s.size());
  shm->out.blob_len = s.size();
}
std::string blob_get() { return std::string(shm->blob, shm->out.blob_len); }

static u64 hmix(u64 a, u64 b) { Rng r(a * 0x9e3779b97f4a7c15ull ^ b); return r.next(); }

u64 Run::seed_of(const char* purpose) const {
  u64 h = (u64)k.get("seed", 1);
  for (const char* p = purpose; *p; ++p) h = hmix(h, (u64)(unsigned char)*p);
  return h;
}

RtConfig Run::config() {
  RtConfig c;
  memset(&c, 0, sizeof c);
  c.seed = hmix((u64)k.get("seed", 1) ^ 0x51ced, (u64)n_inc);
  c.strategy = (u32)k.get("strategy", S_SYNC);
  c.sync_permille = (u32)k.get("sync_permille", 200);
  c.gap = (u64)k.get("gap", 2000);
  c.pct_depth = (u32)k.get("pct_depth", 3);
  c.pct_len = (u64)k.get("pct_len", 100000);
  c.stall_permyriad = (u32)k.get("stall", 0);
  c.tick_cap = (u64)k.get("tick_cap", 40000000);
  c.mem_cap = (u64)k.get("mem_cap", 400 << 20);
  c.heap_policy = (u32)k.get("heap", 0);
  c.heap_offset = (u32)k.get("heap_off", 0);
  c.fill = (u32)k.get("fill", 256);
  c.race = (u32)k.get("race", 0);
  c.mem_check = 1;
  c.clock_base = 1500000000ull * 1000000000ull + (u64)k.get("clock", 0) * 1000000000ull;
  c.clock_step = (u64)k.get("clock_step", 10);
  c.disk_cap = ~0ull;
  c.fp[F_SPURIOUS].permille = (u32)k.get("spurious", 0);
  c.fp[F_SLOW].permille = (u32)k.get("slow", 0);
  c.fp[F_CLOCK].permille = (u32)k.get("clockjump", 0);
  return c;
}

static const char* kind_name(int k) {
  static const char* n[] = {"none", "exit", "abort", "signal", "deadlock", "hang", "memlimit",
                            "memory-error", "data-race", "violation", "crash", "internal", "timeout"};
  return k >= 0 && k <= OUT_TIMEOUT ? n[k] : "?";
}

static void finish_run(int status) {
  res()->status = status;
  _exit(0);
}

void Run::fail(const std::string& cls, const std::string& detail) {
  Res* r = res();
  r->inc = n_inc - 1;
  r->kind = OUT_VIOL;
  snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
  snprintf(r->text, sizeof r->text, "%s", detail.c_str());
  r->hash = hmix(r->hash, 0xfa11);
  finish_run(1);
  for (;;) {}
}

static const std::function<int()>* cur_fn;
static int call_fn(void*) { return (*cur_fn)(); }

// Waits for a child with a wall clock limit. Returns false on timeout.
static bool wait_child(pid_t pid, int* st, int secs) {
  sigset_t s;
  sigemptyset(&s);
  sigaddset(&s, SIGCHLD);
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;;) {
    pid_t r = waitpid(pid, st, WNOHANG);
    if (r == pid) return true;
    if (r < 0 && errno != EINTR) return false;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > secs) {
      kill(pid, SIGKILL);
      waitpid(pid, st, 0);
      return false;
    }
    struct timespec w = {1, 0};
    sigtimedwait(&s, 0, &w);
  }
}

static void load_replay_list(Shm* m, Run& run, int inc) {
  m->nrep = 0;
  if (run.replay && inc < (int)run.rep->size()) {
    m->nrep = (u32)(*run.rep)[inc].size();
    if (m->nrep) memcpy(m->rep, (*run.rep)[inc].data(), m->nrep * sizeof(Dec));
  }
  memset(&m->out, 0, sizeof m->out);
  m->ndec = 0;
}

// Books the end of one process; does not return when it is a violation.
static Outcome account(Shm* m, int inc, int n_inc, bool replay, bool ok, int st, u32 allowed) {
  Res* r = res();
  Outcome& o = m->out;
  if (!ok) { o.kind = OUT_TIMEOUT; strcpy(o.text, "wall clock limit"); }
  else if (o.kind == OUT_NONE) {
    o.kind = OUT_INTERNAL;
    snprintf(o.text, sizeof o.text, "process ended without a result, status %x", st);
  }
  // Statistics.
  const u64* a = (const u64*)&o.st;
  u64* b = (u64*)&r->st;
  for (size_t i = 0; i < sizeof(RtStats) / 8; ++i) b[i] += a[i];
  r->hash = hmix(r->hash ^ o.hash, (u64)o.kind << 32 ^ (u32)o.code);
  r->ihash = hmix(r->ihash, o.ihash);
  r->kinds[o.kind < 16 ? o.kind : 15]++;
  r->n_inc = n_inc;
  if (inc < 64) r->inc_ndec[inc] = m->ndec;
  r->dec_overflow |= m->dec_overflow;
  u32 room = 4 * MAX_DEC - shm0->nall, n = std::min(room, m->ndec);
  memcpy(shm0->all + shm0->nall, m->dec, n * sizeof(Dec));
  shm0->nall += n;
  Outcome out = o;
  if (getenv("GBDTSIM_TRACE")) fprintf(stderr, "incarnation %d replay %d kind %d hash %016llx ticks %llu sync %llu threads %llu allocs %llu ndec %u alloc ops %llu fired %llu\n", inc, (int)replay, out.kind,
      (unsigned long long)out.hash, (unsigned long long)out.st.ticks, (unsigned long long)out.st.sync_ops, (unsigned long long)out.st.threads, (unsigned long long)out.st.allocs, m->ndec, (unsigned long long)out.st.ops[F_ALLOC], (unsigned long long)out.st.fired[F_ALLOC]);
  if (out.kind == OUT_INTERNAL || out.kind == OUT_TIMEOUT) {
    r->inc = inc;
    r->kind = out.kind;
    snprintf(r->text, sizeof r->text, "%s", out.text);
    finish_run(2);
  }
  bool good = out.kind == OUT_EXIT && out.code == 0;
  if (!good && !(allowed & ALLOW(out.kind))) {
    r->inc = inc;
    r->kind = out.kind;
    std::string t = out.text, cls;
    if (out.kind == OUT_VIOL) {
      size_t p = t.find('|');
      cls = t.substr(0, p);
      t = p == std::string::npos ? "" : t.substr(p + 1);
    } else if (out.kind == OUT_MEMERR || out.kind == OUT_RACE) {
      cls = std::string(kind_name(out.kind)) + ": " + t.substr(0, t.find(" by thread"));
      if (out.kind == OUT_RACE) cls = "data-race";
    } else if (out.kind == OUT_EXIT) {
      cls = sfmt("exit code %d", out.code);
    } else if (out.kind == OUT_SIGNAL) {
      cls = sfmt("signal %d", out.code);
    } else {
      cls = kind_name(out.kind);
    }
    snprintf(r->cls, sizeof r->cls, "%s", cls.c_str());
    snprintf(r->text, sizeof r->text, "%s", t.c_str());
    finish_run(1);
  }
  return out;
}

Outcome Run::spawn(const RtConfig& cfg, const std::function<int()>& fn, u32 allowed) {
  int inc = n_inc++;
  shm->cfg = cfg;
  shm->cfg.replay = replay;
  load_replay_list(shm, *this, inc);
  cur_fn = &fn;
  pid_t pid = fork();
  if (pid < 0) { snprintf(res()->text, sizeof res()->text, "fork: %d", errno); finish_run(2); }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rt_run(call_fn, 0);
  }
  int st = 0;
  bool ok = wait_child(pid, &st, 90);
  return account(shm, inc, n_inc, replay, ok, st, allowed);
}

static long futex(int* p, int op, int v, const struct timespec* t) { return syscall(SYS_futex, p, op, v, t, 0, 0); }

std::vector<Outcome> Run::spawn_many(const std::vector<Proc>& procs, u64 seed, u32 quantum, u32 allowed) {
  int n = std::min<int>((int)procs.size(), MP_MAX), inc0 = n_inc;
  Rng r(seed);
  std::vector<pid_t> pid(n, 0);
  std::vector<char> done(n, 0), okv(n, 1);
  std::vector<int> st(n, 0);
  n_inc += n;
  Mp& mp = shm0->mp;
  mp.turn = -1;
  for (int i = 0; i < n; ++i) {
    Shm* m = shm_of(i + 1);
    m->cfg = procs[i].cfg;
    m->cfg.replay = replay;
    load_replay_list(m, *this, inc0 + i);
    pid[i] = fork();
    if (pid[i] < 0) { snprintf(res()->text, sizeof res()->text, "fork: %d", errno); finish_run(2); }
    if (pid[i] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      shm = m;
      mp_enter(i);
      cur_fn = &procs[i].fn;
      rt_run(call_fn, 0);
    }
  }
  for (;;) {
    std::vector<int> ready;
    for (int i = 0; i < n; ++i) if (!done[i] && (procs[i].after < 0 || done[procs[i].after])) ready.push_back(i);
    if (ready.empty()) break;
    int i = ready[r.below(ready.size())];
    mp.quantum = quantum <= 1 ? 1 : 1 + (u32)r.below(2 * quantum - 1);
    res()->hash = hmix(res()->hash, (u64)i);
    res()->ihash = hmix(res()->ihash, (u64)i);
    __atomic_store_n(&mp.turn, i, __ATOMIC_SEQ_CST);
    futex(&mp.turn, 1, 1 << 30, 0);
    double t0 = 0;
    for (int waits = 0; __atomic_load_n(&mp.turn, __ATOMIC_SEQ_CST) == i; ++waits) {
      struct timespec w = {1, 0};
      futex(&mp.turn, 0, i, &w);
      if (waits > 0 && waitpid(pid[i], &st[i], WNOHANG) == pid[i]) { done[i] = 1; mp.turn = -1; break; }
      if (waits > 90) { okv[i] = 0; kill(pid[i], SIGKILL); waitpid(pid[i], &st[i], 0); done[i] = 1; mp.turn = -1; break; }
    }
    (void)t0;
    if (!done[i] && shm_of(i + 1)->out.kind != OUT_NONE) {
      if (!wait_child(pid[i], &st[i], 60)) okv[i] = 0;
      done[i] = 1;
    }
  }
  std::vector<Outcome> out;
  for (int i = 0; i < n; ++i) out.push_back(account(shm_of(i + 1), inc0 + i, n_inc, replay, okv[i], st[i], allowed));
  return out;
}

// ---- one run ------------------------------------------------------------------------------------
struct RunOut {
  Res r;
  std::vector<std::vector<Dec>> dec;
};

static bool g_verbose;

static const Scenario* find_scenario(const std::string& prop, const std::string& what) {
  for (auto& s : reg()) if (prop == s.prop && what == s.what) return &s;
  return 0;
}

static RunOut execute(const Scenario* sc, const Knobs& k, const std::vector<std::vector<Dec>>* rep,
                      bool want_dec) {
  memset(shm0->res, 0, sizeof(Res));
  res()->inc = -1;
  shm->nall = 0;
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!g_verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
    static Run run;
    run.k = k;
    run.replay = rep != 0;
    if (rep) run.rep = rep;
    run.verbose = g_verbose;
    R = &run;
    disk_reset();
    res()->status = 3;
    sc->exec(run);
    finish_run(0);
  }
  int st;
  RunOut o;
  bool ok = pid > 0 && wait_child(pid, &st, 400);
  o.r = *res();
  if (!ok || o.r.status == 3) {
    o.r.status = 2;
    snprintf(o.r.text, sizeof o.r.text, "controller died");
  }
  if (want_dec) {
    u32 pos = 0;
    for (int i = 0; i < o.r.n_inc && i < 64; ++i) {
      o.dec.emplace_back(shm->all + pos, shm->all + pos + o.r.inc_ndec[i]);
      pos += o.r.inc_ndec[i];
    }
  }
  return o;
}

static bool same_failure(const Res& a, const Res& b) {
  return b.status == 1 && a.kind == b.kind && !strcmp(a.cls, b.cls);
}

// ---- replay files -----------------------------------------------------------------------------
static std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') o += "\\n";
    else if (c == '\\') o += "\\\\";
    else o += c;
  }
  return o;
}
static void save_replay(const char* path, const Scenario* sc, const Knobs& k, const RunOut& o,
                        const std::vector<std::vector<Dec>>& dec, const char* how) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(2); }
  fprintf(f, "gbdtsim-replay 1\nproperty %s\nscenario %s\nhow %s\n", sc->prop, sc->what, how);
  fprintf(f, "kind %s\nclass %s\ntext %s\nhash %016llx\n", kind_name(o.r.kind), esc(o.r.cls).c_str(),
          esc(o.r.text).c_str(), (unsigned long long)o.r.hash);
  for (auto& p : k.v) fprintf(f, "knob %s %lld\n", p.first.c_str(), (long long)p.second);
  for (size_t i = 0; i < dec.size(); ++i) {
    fprintf(f, "incarnation %zu\n", i);
    for (auto& d : dec[i]) {
      static const char* fn[] = {"alloc", "thread", "open", "read", "write", "close", "meta", "spurious", "clock", "crash", "stall", "seek", "slow"};
      if (d.kind >= DEC_FAULT) fprintf(f, "fault %s %llu %u\n", fn[d.kind - DEC_FAULT], (unsigned long long)d.pos, d.val);
      else fprintf(f, "sched %llu %u\n", (unsigned long long)d.pos, d.val);
    }
  }
  fprintf(f, "end\n");
  fclose(f);
}
struct Replay { std::string prop, what, cls, kind; u64 hash = 0; Knobs k; std::vector<std::vector<Dec>> dec; };
static bool load_replay(const char* path, Replay* r) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char* line = 0;
  size_t cap = 0;
  bool end = false;
  while (getline(&line, &cap, f) > 0) {
    char a[200];
    unsigned long long u;
    long long v;
    unsigned w;
    line[strcspn(line, "\n")] = 0;
    if (sscanf(line, "property %199s", a) == 1) r->prop = a;
    else if (!strncmp(line, "scenario ", 9)) r->what = line + 9;
    else if (!strncmp(line, "class ", 6)) r->cls = line + 6;
    else if (!strncmp(line, "kind ", 5)) r->kind = line + 5;
    else if (sscanf(line, "hash %llx", &u) == 1) r->hash = u;
    else if (sscanf(line, "knob %199s %lld", a, &v) == 2) r->k.v.emplace_back(a, v);
    else if (!strncmp(line, "incarnation ", 12)) r->dec.emplace_back();
    else if (sscanf(line, "sched %llu %u", &u, &w) == 2) { Dec d = {u, DEC_SCHED, w}; r->dec.back().push_back(d); }
    else if (sscanf(line, "fault %199s %llu %u", a, &u, &w) == 3) {
      static const char* fn[] = {"alloc", "thread", "open", "read", "write", "close", "meta", "spurious", "clock", "crash", "stall", "seek", "slow"};
      for (u32 i = 0; i < F_N; ++i) if (!strcmp(a, fn[i])) { Dec d = {u, DEC_FAULT + i, w}; r->dec.back().push_back(d); }
    } else if (!strcmp(line, "end")) end = true;
  }
  free(line);
  fclose(f);
  return end;
}

// ---- minimisation -------------------------------------------------------------------------------
static double now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static void minimise(const Scenario* sc, Knobs* k, RunOut* o, double budget) {
  double end = now_s() + budget;
  Res target = o->r;
  // Knobs first, with the generated schedule of the same seed: towards zero or the lower bound.
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    for (size_t i = 0; i < k->v.size() && now_s() < end; ++i) {
      const std::string& n = k->v[i].first;
      if (n == "seed" || n == "tick_cap" || n == "mem_cap") continue;
      i64 lo = 0;
      std::string ln = "min." + n;
      if (n.compare(0, 4, "min.") == 0) continue;
      if (k->has(ln.c_str())) lo = k->get(ln.c_str());
      i64 cur = k->v[i].second;
      for (int step = 0; step < 6 && cur != lo && now_s() < end; ++step) {
        i64 cand = step == 0 ? lo : step == 1 ? lo + (cur - lo) / 2 : step == 2 ? lo + (cur - lo) * 3 / 4 : step == 3 ? cur - 1 : step == 4 ? lo + 1 : lo + 2;
        if (cand == cur || cand < lo) continue;
        Knobs k2 = *k;
        k2.v[i].second = cand;
        RunOut t = execute(sc, k2, 0, true);
        if (same_failure(target, t.r)) { *k = k2; *o = t; progress = true; break; }
      }
    }
  }
  // Then the decisions. Not for hangs: a shortened schedule may hang for lack of fairness.
  if (target.kind == OUT_TICKCAP) return;
  std::vector<std::vector<Dec>> best = o->dec;
  {
    RunOut t = execute(sc, *k, &best, true);
    if (!same_failure(target, t.r)) return;
  }
  for (size_t inc = 0; inc < best.size() && now_s() < end; ++inc) {
    size_t chunk = best[inc].size();
    while (chunk >= 1 && now_s() < end) {
      bool any = false;
      for (size_t at = 0; at < best[inc].size() && now_s() < end;) {
        auto cand = best;
        size_t e = std::min(at + chunk, cand[inc].size());
        cand[inc].erase(cand[inc].begin() + at, cand[inc].begin() + e);
        RunOut t = execute(sc, *k, &cand, true);
        if (same_failure(target, t.r)) {
          best = cand;
          any = true;
        } else {
          at += chunk;
        }
      }
      if (chunk == 1 && !any) break;
      chunk = chunk > 1 ? chunk / 2 : (any ? 1 : 0);
    }
  }
  RunOut t = execute(sc, *k, &best, true);
  if (same_failure(target, t.r)) {
    *o = t;
    o->dec = best;
  }
}

// ---- JSON output ------------------------------------------------------------------------------
static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) o += sfmt("\\u%04x", c);
    else o += (char)c;
  }
  return o + "\"";
}

static std::string run_json(const Scenario* sc, u64 seed, const Knobs& k, const RunOut& o, double secs) {
  std::string s = sfmt("{\"prop\":\"%s\",\"scenario\":%s,\"seed\":%llu,\"status\":%d,\"kind\":\"%s\",\"inc\":%d,\"n_inc\":%d,"
                      "\"hash\":\"%016llx\",\"ihash\":\"%016llx\",\"secs\":%.4f,",
                      sc->prop, js(sc->what).c_str(), (unsigned long long)seed, o.r.status, kind_name(o.r.kind), o.r.inc,
                      o.r.n_inc, (unsigned long long)o.r.hash, (unsigned long long)o.r.ihash, secs);
  s += "\"class\":" + js(o.r.cls) + ",\"text\":" + js(o.r.text);
  const RtStats& t = o.r.st;
  s += sfmt(",\"ticks\":%llu,\"switches\":%llu,\"preempts\":%llu,\"sync_ops\":%llu,\"threads\":%llu,\"spurious\":%llu,"
           "\"stalls\":%llu,\"clock_reads\":%llu,\"sim_ns\":%llu,\"allocs\":%llu,\"races_checked\":%llu",
           (unsigned long long)t.ticks, (unsigned long long)t.switches, (unsigned long long)t.preempts,
           (unsigned long long)t.sync_ops, (unsigned long long)t.threads, (unsigned long long)t.spurious,
           (unsigned long long)t.stalls, (unsigned long long)t.clock_reads, (unsigned long long)t.sim_ns,
           (unsigned long long)t.allocs, (unsigned long long)t.races_checked);
  static const char* fn[] = {"alloc_fail", "thread_fail", "open", "read", "write", "close", "meta", "spurious_wakeup", "clock_jump", "crash", "stall", "seek", "slow_disk"};
  s += ",\"faults\":{";
  bool first = true;
  auto add = [&](const char* n, u64 c) { if (c) { s += sfmt("%s\"%s\":%llu", first ? "" : ",", n, (unsigned long long)c); first = false; } };
  for (int i = 0; i < F_N; ++i)
    if (i != F_OPEN && i != F_READ && i != F_WRITE && i != F_CLOSE) add(fn[i], t.fired[i]);
  add("open_fail", t.io_open_fail); add("io_short", t.io_short); add("io_eintr", t.io_eintr); add("io_eio", t.io_eio);
  add("io_enospc", t.io_enospc); add("close_fail", t.io_close_fail); add("thread_stall", t.stalls);
  s += "},\"kinds\":{";
  first = true;
  for (int i = 0; i < 13; ++i) add(kind_name(i), (u64)o.r.kinds[i]);
  s += "},\"counters\":{";
  first = true;
  for (u32 i = 0; i < o.r.ncnt; ++i) { s += sfmt("%s\"%s\":%lld", first ? "" : ",", o.r.cnt[i].key, (long long)o.r.cnt[i].n); first = false; }
  s += "},\"knobs\":{";
  first = true;
  for (auto& p : k.v) { s += sfmt("%s%s:%lld", first ? "" : ",", js(p.first).c_str(), (long long)p.second); first = false; }
  return s + "}}";
}

void gen_sched(Rng& r, Knobs& k) {
  static const u32 st[] = {S_SYNC, S_SYNC, S_ACCESS, S_ACCESS, S_ACCESS, S_PCT, S_PCT, S_LIFO, S_RR, S_STARVE, S_SEQ};
  u32 s = st[r.below(11)];
  k.set("strategy", s);
  static const int sp[] = {20, 100, 300, 600, 1000};
  k.set("sync_permille", sp[r.below(5)]);
  static const int gaps[] = {5, 30, 200, 1000, 5000, 30000};
  k.set("gap", gaps[r.below(6)]);
  k.set("min.gap", 1);
  k.set("pct_depth", (i64)r.below(6));
  static const int lens[] = {1000, 10000, 100000, 1000000};
  k.set("pct_len", lens[r.below(4)]);
  k.set("min.pct_len", 1);
  k.set("stall", r.chance(0.3) ? (i64)r.below(200) : 0);
  k.set("spurious", r.chance(0.5) ? (i64)r.below(300) : 0);
  k.set("slow", r.chance(0.3) ? r.range(1, 400) : 0);
  k.set("clockjump", r.chance(0.3) ? (i64)r.below(500) : 0);
  k.set("clock", (i64)r.below(400000000));
  static const int steps[] = {0, 1, 10, 1000, 1000000};
  k.set("clock_step", steps[r.below(5)]);
  k.set("heap", (i64)r.below(3));
  k.set("heap_off", (i64)r.below(64));
  static const int fills[] = {0, 0xff, 256, 256, 0x7f};
  k.set("fill", fills[r.below(5)]);
}
void gen_sched_seq(Rng& r, Knobs& k) {
  k.set("strategy", S_SEQ);
}

}  // namespace sim

using namespace sim;

static const char* arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
static bool flag(int argc, char** argv, const char* name) {
  for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], name)) return true;
  return false;
}

static void gen_knobs(const Scenario* sc, u64 seed, int tier, Knobs* k) {
  u64 h = seed * 0x9e3779b97f4a7c15ull;
  for (const char* p = sc->what; *p; ++p) h = h * 131 + (unsigned char)*p;
  Rng r(h);
  r.next();
  k->v.clear();
  k->set("seed", (i64)(r.next() >> 2));
  sc->gen(r, *k, tier);
}

int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: gbdtsim list|run|minimise|replay|one ...\n"); return 2; }
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("GBDTSIM_NOASLR")) {
    setenv("GBDTSIM_NOASLR", "1", 1);
    setenv("LD_BIND_NOW", "1", 1);
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    personality(pers | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  std::string cmd = argv[1];
  std::string prop = arg(argc, argv, "--prop", "");
  if (cmd == "list") {
    for (auto& s : scenarios()) printf("%s %s\n", s.prop, s.what);
    return 0;
  }
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, 0);
  g_verbose = flag(argc, argv, "--verbose");
  const char* cpu = arg(argc, argv, "--cpu", 0);
  if (cpu) {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(atoi(cpu), &set);
    sched_setaffinity(0, sizeof set, &set);
  }
  rt_global_init();
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = g_verbose ? 0 : 2;
  std::vector<const Scenario*> scs;
  std::string only = arg(argc, argv, "--scenario", "");
  for (auto& s : scenarios())
    if (prop == s.prop && (only.empty() || only == s.what)) scs.push_back(&s);
  int tier = atoi(arg(argc, argv, "--tier", "0"));
  Replay rep_in;
  bool from_file = cmd == "minimise" || cmd == "replay";
  if (from_file) {
    if (argc < 3 || !load_replay(argv[2], &rep_in)) { fprintf(stderr, "cannot load replay\n"); return 2; }
    const Scenario* sc = find_scenario(rep_in.prop, rep_in.what);
    if (!sc) { fprintf(stderr, "unknown scenario %s %s\n", rep_in.prop.c_str(), rep_in.what.c_str()); return 2; }
    scs.assign(1, sc);
  }
  for (auto* sc : scs) if (sc->init) sc->init();

  if (cmd == "run") {
    // Seeds base + worker, base + worker + stride, ... until the time or the number is used up.
    u64 base = strtoull(arg(argc, argv, "--base", "1"), 0, 10);
    u64 worker = strtoull(arg(argc, argv, "--worker", "0"), 0, 10);
    u64 stride = strtoull(arg(argc, argv, "--stride", "1"), 0, 10);
    double secs = atof(arg(argc, argv, "--secs", "10"));
    u64 count = strtoull(arg(argc, argv, "--count", "1000000000"), 0, 10);
    const char* vdir = arg(argc, argv, "--vdir", "/tmp");
    int keep_going = flag(argc, argv, "--keep-going");
    if (scs.empty()) return 2;
    double t0 = now_s();
    // Scenarios of one property take turns by index.
    for (u64 i = worker; i < count && now_s() - t0 < secs; i += stride) {
      u64 seed = base + i;
      size_t turn = i % scs.size();
      if (scs[turn]->every > 1 && (seed * 0x9E3779B97F4A7C15ull >> 33) % scs[turn]->every) turn = (turn + 1) % scs.size();
      const Scenario* sc = scs[turn];
      Knobs k;
      gen_knobs(sc, seed, tier, &k);
      double a = now_s();
      RunOut o = execute(sc, k, 0, true);
      double took = now_s() - a;
      if (i / stride % 32 == 7) {       // determinism: the same seed again, and the recorded decisions
        RunOut b = execute(sc, k, 0, true);
        RunOut c = execute(sc, k, &o.dec, true);
        printf("{\"repeat\":%llu,\"same\":%s,\"replay_same\":%s}\n", (unsigned long long)seed,
               b.r.hash == o.r.hash && b.r.status == o.r.status ? "true" : "false",
               o.r.dec_overflow || (c.r.hash == o.r.hash && c.r.status == o.r.status) ? "true" : "false");
      }
      printf("%s\n", run_json(sc, seed, k, o, took).c_str());
      fflush(stdout);
      if (o.r.status == 1) {
        std::string path = sfmt("%s/%s-%llu.replay", vdir, sc->prop, (unsigned long long)seed);
        save_replay(path.c_str(), sc, k, o, o.dec, "recorded");
        printf("{\"replay\":%s}\n", js(path).c_str());
        fflush(stdout);
        if (!keep_going) break;
      }
    }
    return 0;
  }
  if (cmd == "one") {      // one seed, full output
    u64 seed = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
    for (auto* sc : scs) {
      Knobs k;
      gen_knobs(sc, seed, tier, &k);
      for (int i = 2; i + 2 < argc; ++i) if (!strcmp(argv[i], "--knob")) k.set(argv[i + 1], atoll(argv[i + 2]));
      int n = atoi(arg(argc, argv, "--times", "1"));
      for (int i = 0; i < n; ++i) {
        double a = now_s();
        RunOut o = execute(sc, k, 0, true);
        printf("%s\n", run_json(sc, seed, k, o, now_s() - a).c_str());
        const char* out = arg(argc, argv, "--save", 0);
        if (out) save_replay(out, sc, k, o, o.dec, "recorded");
      }
      if (flag(argc, argv, "--check-replay")) {
        RunOut o = execute(sc, k, 0, true);
        RunOut p = execute(sc, k, &o.dec, true);
        printf("replay %s\n", o.r.hash == p.r.hash && o.r.status == p.r.status ? "same" : "DIFFERENT");
        if (o.r.hash != p.r.hash) printf("%s\n%s\n", run_json(sc, seed, k, o, 0).c_str(), run_json(sc, seed, k, p, 0).c_str());
      }
    }
    return 0;
  }
  if (cmd == "selftest") {   // determinism: same seed twice, and replay of the decisions
    u64 base = strtoull(arg(argc, argv, "--base", "1"), 0, 10);
    u64 count = strtoull(arg(argc, argv, "--count", "20"), 0, 10);
    u64 worker = strtoull(arg(argc, argv, "--worker", "0"), 0, 10);
    u64 stride = strtoull(arg(argc, argv, "--stride", "1"), 0, 10);
    int bad = 0;
    u64 n = 0;
    for (auto* sc : scs)
      for (u64 i = worker; i < count; i += stride) {
        Knobs k;
        gen_knobs(sc, base + i, tier, &k);
        RunOut a = execute(sc, k, 0, true), b = execute(sc, k, 0, true);
        RunOut c = execute(sc, k, &a.dec, true);
        ++n;
        if (a.r.hash != b.r.hash || a.r.status != b.r.status) { ++bad; printf("seed %llu %s: not repeatable\n", (unsigned long long)(base + i), sc->what); }
        else if (a.r.hash != c.r.hash || a.r.status != c.r.status) { ++bad; printf("seed %llu %s: replay differs\n", (unsigned long long)(base + i), sc->what); }
        else if (a.r.status == 2) { ++bad; printf("seed %llu %s: error %s\n", (unsigned long long)(base + i), sc->what, a.r.text); }
      }
    printf("selftest runs %llu bad %d\n", (unsigned long long)n, bad);
    return bad ? 1 : 0;
  }
  if (from_file) {
    Replay& r = rep_in;
    const Scenario* sc = scs[0];
    if (cmd == "replay") {
      double a = now_s();
      RunOut o = execute(sc, r.k, &r.dec, true);
      printf("%s\n", run_json(sc, 0, r.k, o, now_s() - a).c_str());
      bool same = o.r.status == 1 && r.cls == esc(o.r.cls) && r.kind == kind_name(o.r.kind);
      printf("{\"reproduced\":%s,\"exact\":%s}\n", same ? "true" : "false", same && o.r.hash == r.hash ? "true" : "false");
      return same ? 1 : 0;
    }
    const char* out = arg(argc, argv, "--out", "/tmp/min.replay");
    double budget = atof(arg(argc, argv, "--secs", "30"));
    RunOut o = execute(sc, r.k, 0, true);       // same seed again, generated
    if (o.r.status != 1 || o.r.hash != r.hash) {
      printf("{\"error\":\"not repeatable\",\"status\":%d,\"hash\":\"%016llx\",\"want\":\"%016llx\"}\n", o.r.status,
             (unsigned long long)o.r.hash, (unsigned long long)r.hash);
      return 2;
    }
    Knobs k = r.k;
    minimise(sc, &k, &o, budget);
    // The file is replayed decision by decision, so its hash is the one of the replay.
    RunOut fin = execute(sc, k, &o.dec, true);
    if (fin.r.status != 1 || strcmp(fin.r.cls, o.r.cls)) {
      printf("{\"error\":\"replay of the decisions does not fail\",\"status\":%d}\n", fin.r.status);
      return 2;
    }
    save_replay(out, sc, k, fin, o.dec, "minimised");
    size_t nd = 0;
    for (auto& d : o.dec) nd += d.size();
    printf("{\"minimised\":%s,\"decisions\":%zu,\"class\":%s,\"text\":%s}\n", js(out).c_str(), nd, js(fin.r.cls).c_str(), js(fin.r.text).c_str());
    return 1;
  }
  fprintf(stderr, "unknown command\n");
  return 2;
}
