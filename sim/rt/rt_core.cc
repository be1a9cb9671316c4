// Scheduler, synchronisation, clocks, race detection.
#include "rt_int.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <limits.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

Shm* shm;
Shm* shm0;
int g_on, g_sim, g_race;
u64 g_tick, g_next = ~0ull;
Thr* cur;
RtStats S;
u64 g_hash, g_ihash;

static RtConfig C;
u64 now_mono();
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static u64 srng, frng;               // schedule and fault randomness
static Thr* live[512];
static int nlive;
static int next_id;
static pthread_key_t exit_key;
static pthread_t reap[512];
static int reap_stack[512];
static int nreap;
static int stack_free[STACK_MAX], nstack_free, nstack;
static VC* stack_vc[STACK_MAX];
// A stack may be used again once its thread is gone and joined (or detached): until then the handle, which
// glibc derives from the stack, must not be handed out again.
static unsigned char stack_held[STACK_MAX];
static void stack_release(int st) {
  if (--stack_held[st] == 0) stack_free[nstack_free++] = st;
}
static int slot_used[NSLOT];
static VC slot_vc_last[NSLOT];
static u64 preempt_at = ~0ull;       // next planned preemption (generated schedules)
static u64 pct_pts[64];
static u32 n_pct;
static u64 run_start;                // tick at which the current thread was switched to
static u64 clk_real_off, clk_mono_off;
static int faults_on;
static u32 rep_pos;                  // replay position for scheduling decisions
struct RepFault { u64 idx; u32 act; };
static RepFault* rep_fault[F_N];     // faults to be replayed, per class, in the order of their positions
static u32 n_rep_fault[F_N], cur_rep_fault[F_N];
static int starve_id = -1;
static u64 starve_until;
static inline bool held_back(const Thr* t) {
  return t->stall_until > g_tick || (t->id == starve_id && g_tick < starve_until);
}
static int main_os_fut;
static int finishing;

static inline u64 rnd(u64* s) {
  u64 z = (*s += 0x9e3779b97f4a7c15ull);
  return mix(z);
}
static inline u64 srnd(u64 n) { return rnd(&srng) % n; }
u64 rng_fault() { return rnd(&frng); }

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

int sim_fmt(char* out, size_t n, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vsnprintf(out, n, fmt, ap);
  va_end(ap);
  return r;
}

static u64 rtm_pos = RTMEM_BASE;
void* rt_mem(u64 n) {
  u64 p = rtm_pos;
  rtm_pos += (n + 15) & ~15ull;
  if (rtm_pos > RTMEM_BASE + RTMEM_SIZE) raw_syscall(SYS_exit_group, 97);
  return (void*)p;
}

// ---------------------------------------------------------------------------------------------
// Ending a simulated process.

// Turns between simulated processes. Their decisions are the controller's.
static int mp_id = -1;
static u32 mp_left;
static void mp_wait() {
  for (;;) {
    int t = __atomic_load_n(&shm0->mp.turn, __ATOMIC_SEQ_CST);
    if (t == mp_id) break;
    raw_syscall(SYS_futex, (long)&shm0->mp.turn, 0 /*FUTEX_WAIT*/, t, 0);
  }
  mp_left = shm0->mp.quantum;
}
static void mp_leave() {
  if (mp_id < 0) return;
  __atomic_store_n(&shm0->mp.turn, -1, __ATOMIC_SEQ_CST);
  raw_syscall(SYS_futex, (long)&shm0->mp.turn, 1 /*FUTEX_WAKE*/, 1 << 30);
}
extern "C" void mp_enter(int k) { mp_id = k; mp_wait(); }
extern "C" void mp_point() {
  if (mp_id < 0 || !g_on) return;
  if (mp_left > 1) { --mp_left; return; }
  mp_leave();
  mp_wait();
}
extern "C" Shm* shm_of(int k) { return (Shm*)(SHM_BASE + (u64)k * 0x40000000ull); }

extern "C" void rt_finish(int kind, int code, const char* text) {
  if (finishing) for (;;) raw_syscall(SYS_exit_group, 96);
  finishing = 1;
  g_on = 0;
  Outcome& o = shm->out;
  o.in_oracle = cur ? cur->ignore : 0;
  o.kind = kind;
  o.code = code;
  if (text) {
    size_t n = strlen(text);
    if (n >= sizeof o.text) n = sizeof o.text - 1;
    memcpy(o.text, text, n);
    o.text[n] = 0;
  }
  S.ticks = g_tick;
  S.sim_ns = now_mono() - C.clock_base / 2;
  o.st = S;
  hash_ev(((u64)kind << 32) ^ (u64)code);
  o.hash = g_hash;
  o.ihash = g_ihash;
  mp_leave();
  for (;;) raw_syscall(SYS_exit_group, 0);
}
extern "C" void rt_violation(const char* text) { rt_finish(OUT_VIOL, 0, text); }

void rt_die(int kind, int code, const char* fmt, ...) {
  char buf[1900];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  rt_finish(kind, code, buf);
}

// A backtrace by frame pointers, as text "pc pc pc" for later symbolisation.
static void backtrace_text(char* out, size_t n, const void* pc) {
  int k = sim_fmt(out, n, "@%p", pc);
  u64* fp = (u64*)__builtin_frame_address(0);
  u64 lo = (u64)fp;
  for (int i = 0; i < 24 && (size_t)k < n - 24; ++i) {
    u64 f = (u64)fp;
    if (f < lo || f > lo + (16u << 20) || (f & 7)) break;
    u64 ret = fp[1];
    u64* nf = (u64*)fp[0];
    if (ret < 0x400000 || ret > 0x10000000) { if ((u64)nf <= f) break; fp = nf; continue; }
    k += sim_fmt(out + k, n - k, " @%p", (void*)ret);
    if ((u64)nf <= f) break;
    fp = nf;
  }
}

void rt_die_memerr(const char* what, const void* addr, const void* pc) {
  char bt[700];
  backtrace_text(bt, sizeof bt, pc);
  rt_die(OUT_MEMERR, 0, "%s by thread %d [%s]", what, cur ? cur->id : -1, bt);
}

extern "C" void rt_hash(u64 v) { hash_ev(v); }
extern "C" int rt_in_sim() { return g_sim; }
extern "C" u64 rt_ticks() { return g_tick; }
extern "C" int rt_tid() { return cur ? cur->id : -1; }
extern "C" int rt_live_threads() { return nlive; }
extern "C" void rt_stats(RtStats* s) { *s = S; s->ticks = g_tick; }
extern "C" void rt_ignore_begin() { if (cur) ++cur->ignore; g_on = 0; }
extern "C" void rt_ignore_end() {
  if (cur && --cur->ignore == 0) g_on = g_sim;
}
extern "C" void rt_race_enable(int on) { g_race = on && C.race; }
extern "C" void rt_faults_enable(int on) {
  faults_on = on;      // operations are counted through all the phases in which faults are on
}
int faults_armed() { return faults_on; }

// ---------------------------------------------------------------------------------------------
// Decisions and faults.

static void record(u32 kind, u64 pos, u32 val) {
  if (shm->ndec < MAX_DEC) {
    Dec& d = shm->dec[shm->ndec++];
    d.pos = pos; d.kind = kind; d.val = val;
  } else {
    shm->dec_overflow = 1;
  }
}

static u32 rnd_action(int cls) {
  u64 r = rng_fault();
  switch (cls) {
    case F_OPEN: { const u32 e[] = {EMFILE, EACCES, ENOENT, EIO}; return e[r % 4]; }
    case F_READ: {
      if (r % 4 == 0) return IOA_EIO;
      if (r % 4 == 1) return IOA_EINTR;
      return IOA_SHORT | (u32)((r >> 8) % 4096) << 8;
    }
    case F_WRITE: {
      if (r % 8 == 0) return IOA_EIO;
      if (r % 8 == 1) return IOA_ENOSPC;
      if (r % 8 < 4) return IOA_EINTR;
      return IOA_SHORT | (u32)((r >> 8) % 4096) << 8;
    }
    case F_META: { const u32 e[] = {EACCES, ENOSPC, EIO}; return e[r % 3]; }
    case F_CLOCK: return 1 + (u32)(r % 1000000);
    case F_SLOW: return 1 + (u32)(r % 23);
    default: return 1;
  }
}

u32 fault(int cls) {
  if (!faults_on) return 0;
  u64 idx = S.ops[cls]++;
  u32 act = 0;
  if (C.replay) {
    u32& i = cur_rep_fault[cls];
    while (i < n_rep_fault[cls] && rep_fault[cls][i].idx < idx) ++i;
    if (i < n_rep_fault[cls] && rep_fault[cls][i].idx == idx) act = rep_fault[cls][i].act;
  } else {
    const FaultPlan& p = C.fp[cls];
    for (u32 i = 0; i < p.n_at; ++i)
      if (p.at[i] == idx) { act = p.action[i] ? p.action[i] : rnd_action(cls); break; }
    if (!act && p.permille && idx >= p.from && rng_fault() % 1000 < p.permille)
      act = p.rnd_action ? p.rnd_action : rnd_action(cls);
  }
  if (act) {
    record(DEC_FAULT + cls, idx, act);
    S.fired[cls]++;
    hash_ev(((u64)cls << 56) ^ (idx << 24) ^ act);
  }
  return act;
}

// ---------------------------------------------------------------------------------------------
// Scheduling.

// An operation on the disk that takes long: 2^a * 4 microseconds of simulated time, up to half a minute.
void slow_io() {
  u32 a = fault(F_SLOW);
  if (a) block_on(&S, W_SLEEP, now_mono() + (4000ull << a));
}

static void fut_wait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fut_post(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void reap_all() {
  while (nreap > 0) {
    --nreap;
    pthread_t t = reap[nreap];
    int st = reap_stack[nreap];
    real_pthread_join(t, 0);
    stack_release(st);
  }
}

static void resumed() {       // runs in the thread that has just got the baton
  run_start = g_tick;
  int save = g_on;
  g_on = 0;
  if (nreap) reap_all();
  g_on = save;
  g_on = g_sim && !cur->ignore;
}

static inline bool can_run(const Thr* t) { return t->state == T_RUN; }

static void plan_preempt() {
  if (C.replay) {
    while (rep_pos < shm->nrep && shm->rep[rep_pos].pos < g_tick) ++rep_pos;
    preempt_at = rep_pos < shm->nrep ? shm->rep[rep_pos].pos : ~0ull;
  } else if (C.strategy == S_ACCESS) {
    // Geometric-like gap.
    double u = ((rnd(&srng) >> 11) + 1) * (1.0 / 9007199254740993.0);
    double x = 0;                      // -ln(u) without libm
    { int e = 0; while (u < 0.5) { u *= 2; ++e; }
      double y = (u - 1) / (u + 1), y2 = y * y;
      x = e * 0.6931471805599453 - 2 * (y + y * y2 / 3 + y * y2 * y2 / 5 + y * y2 * y2 * y2 / 7); }
    u64 g = (u64)(x * (double)C.gap) + 1;
    preempt_at = g_tick + g;
  } else if (C.strategy == S_RR) {
    preempt_at = g_tick + C.gap;
  } else if (C.strategy == S_PCT) {
    preempt_at = ~0ull;
    for (u32 i = 0; i < n_pct; ++i)
      if (pct_pts[i] > g_tick && pct_pts[i] < preempt_at) preempt_at = pct_pts[i];
  } else {
    preempt_at = ~0ull;
  }
  // Fairness: nobody runs for ever while others could.
  u64 fair = g_tick + 400000;
  if (!C.replay && preempt_at > fair) preempt_at = fair;
}

static void set_next() {
  u64 n = preempt_at;
  if (C.tick_cap < n) n = C.tick_cap;
  if (!C.replay) {
    if (faults_on && C.fp[F_CRASH].n_at && C.fp[F_CRASH].at[0] > g_tick && C.fp[F_CRASH].at[0] < n)
      n = C.fp[F_CRASH].at[0];
  } else {
    for (u32 i = 0; i < n_rep_fault[F_CRASH]; ++i)
      if (rep_fault[F_CRASH][i].idx > g_tick && rep_fault[F_CRASH][i].idx < n) n = rep_fault[F_CRASH][i].idx;
  }
  g_next = n;
}

static void die_deadlock() {
  char buf[1500];
  int k = sim_fmt(buf, sizeof buf, "deadlock: no thread can run;");
  static const char* names[] = {"?", "mutex", "condition", "join", "futex", "once", "static-init",
                                "sleep", "rwlock", "semaphore", "condition-free"};
  for (int i = 0; i < nlive && k < 1400; ++i)
    if (live[i]->state == T_BLOCK)
      k += sim_fmt(buf + k, sizeof buf - k, " t%d waits for %s;", live[i]->id, names[live[i]->wkind]);
  rt_finish(OUT_DEADLOCK, 0, buf);
}

// Candidates other than (or including) the current thread.
static int candidates(Thr** out, bool include_cur) {
  int n = 0, m = 0;
  for (int i = 0; i < nlive; ++i) {
    Thr* t = live[i];
    if (!can_run(t) || (t == cur && !include_cur)) continue;
    out[n++] = t;
    if (!held_back(t)) ++m;
  }
  if (m && m < n) {
    int k = 0;
    for (int i = 0; i < n; ++i)
      if (!held_back(out[i])) out[k++] = out[i];
    n = k;
  }
  return n;
}

static Thr* lowest(Thr** c, int n) {
  Thr* b = c[0];
  for (int i = 1; i < n; ++i) if (c[i]->id < b->id) b = c[i];
  return b;
}

static Thr* find_live(u32 id) {
  for (int i = 0; i < nlive; ++i) if ((u32)live[i]->id == id) return live[i];
  return 0;
}

enum { WHY_BLOCK, WHY_SYNC, WHY_PREEMPT, WHY_YIELD };

static Thr* strategy_pick(Thr** c, int n, int why) {
  switch (C.strategy) {
    case S_SEQ:
      if (why == WHY_YIELD || why == WHY_PREEMPT) {        // next higher id, cyclic
        Thr* best = 0;
        for (int i = 0; i < n; ++i) if (c[i]->id > cur->id && (!best || c[i]->id < best->id)) best = c[i];
        return best ? best : lowest(c, n);
      }
      return lowest(c, n);
    case S_LIFO: {
      if (why == WHY_PREEMPT) return c[srnd(n)];
      Thr* b = c[0];
      for (int i = 1; i < n; ++i) if (c[i]->id > b->id) b = c[i];
      return b;
    }
    case S_PCT: {
      Thr* b = c[0];
      for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i];
      return b;
    }
    default:
      return c[srnd(n)];
  }
}

// Who runs after a yield if nothing else is said: round robin.
static Thr* yield_default() {
  Thr* best = 0;
  Thr* low = 0;
  for (int i = 0; i < nlive; ++i) {
    Thr* t = live[i];
    if (!can_run(t) || t == cur) continue;
    if (t->id > cur->id && (!best || t->id < best->id)) best = t;
    if (!low || t->id < low->id) low = t;
  }
  return best ? best : low ? low : cur;
}

static void switch_to(Thr* t) {
  if (t == cur) return;
  Thr* me = cur;
  ++S.switches;
  hash_ev((g_tick << 12) ^ (u64)t->id);
  g_ihash = mix(g_ihash ^ ((u64)t->id << 8 | 0x77)) + g_tick * 0;
  cur = t;
  fut_post(&t->fut);
  fut_wait(&me->fut);
  resumed();
}

// A decision who runs next; the current thread may go on.
static void decide(int why) {
  Thr* c[512];
  Thr* next = cur;
  if (C.replay) {
    bool hit = false;
    while (rep_pos < shm->nrep && shm->rep[rep_pos].pos <= g_tick) {
      if (shm->rep[rep_pos].pos == g_tick) {
        Thr* t = find_live(shm->rep[rep_pos].val);
        if (t && can_run(t)) { next = t; hit = true; }
      }
      ++rep_pos;
    }
    if (!hit && why == WHY_YIELD) next = yield_default();
  } else {
    bool sw = true;
    if (why == WHY_SYNC) {
      sw = (C.strategy == S_SYNC || C.strategy == S_ACCESS || C.strategy == S_STARVE)
               ? srnd(1000) < C.sync_permille
               : C.strategy == S_PCT;
      if (C.stall_permyriad && srnd(10000) < C.stall_permyriad) {
        cur->stall_until = g_tick + 50 + srnd(40000);
        ++S.stalls;
        sw = true;
      }
    }
    if (sw) {
      bool incl = why == WHY_SYNC && cur->stall_until <= g_tick;
      if (why == WHY_PREEMPT && C.strategy == S_PCT) { cur->prio = 1 + srnd(1000); incl = true; }
      if (why == WHY_YIELD && C.strategy == S_PCT) cur->prio = 1 + srnd(1000);
      int n = candidates(c, incl);
      if (n) next = strategy_pick(c, n, why);
    }
  }
  Thr* def = why == WHY_YIELD ? yield_default() : cur;
  if (next != def) record(DEC_SCHED, g_tick, (u32)next->id);
  if (next != cur && why == WHY_PREEMPT) ++S.preempts;
  if (why == WHY_PREEMPT) { plan_preempt(); set_next(); }
  else if (C.replay) { plan_preempt(); set_next(); }
  if (next != cur) switch_to(next);
}

static int n_runnable_others() {
  int n = 0;
  for (int i = 0; i < nlive; ++i) n += live[i] != cur && can_run(live[i]);
  return n;
}

static void check_limits() {
  if (g_tick >= C.tick_cap)
    rt_die(OUT_TICKCAP, 0, "no end after %llu steps (%d threads alive)", (unsigned long long)g_tick, nlive);
  if (faults_on) {
    if (!C.replay) {
      if (C.fp[F_CRASH].n_at && C.fp[F_CRASH].at[0] == g_tick) {
        record(DEC_FAULT + F_CRASH, g_tick, 1);
        S.fired[F_CRASH]++;
        rt_finish(OUT_CRASH, 0, "killed");
      }
    } else {
      for (u32 i = 0; i < n_rep_fault[F_CRASH]; ++i)
        if (rep_fault[F_CRASH][i].idx == g_tick) {
          record(DEC_FAULT + F_CRASH, g_tick, 1);
          S.fired[F_CRASH]++;
          rt_finish(OUT_CRASH, 0, "killed");
        }
    }
  }
}

// Slow path of an instrumented access: a planned event is due.
static void __attribute__((noinline)) slow_access() {
  check_limits();
  if (g_tick >= preempt_at) {
    if (nlive > 1 && n_runnable_others()) decide(WHY_PREEMPT);
    else { plan_preempt(); set_next(); }
  } else {
    set_next();
  }
}

// Timers that are due. Only looked at where a recorded and a replayed run both come by.
static int n_timed;      // blocked threads with a deadline
static void expire() {
  if (!n_timed) return;
  u64 now = now_mono();
  for (int i = 0; i < nlive; ++i)
    if (live[i]->state == T_BLOCK && live[i]->deadline <= now) { live[i]->timedout = 1; live[i]->state = T_RUN; }
}

void sync_point(int kind) {
  if (!g_on) return;
  ++g_tick;
  ++S.sync_ops;
  hash_ev((u64)kind << 32 ^ g_tick << 8 ^ (u64)cur->id);
  g_ihash = mix(g_ihash ^ ((u64)kind << 32) ^ (u64)cur->id);
  if (g_tick >= g_next) { check_limits(); if (g_tick >= preempt_at) { plan_preempt(); } set_next(); }
  expire();
  if (nlive > 1 && n_runnable_others()) decide(WHY_SYNC);
}
extern "C" void rt_point() { sync_point(99); }

static void yield_point() {
  if (!g_on) return;
  ++g_tick;
  if (g_tick >= g_next) { check_limits(); if (g_tick >= preempt_at) plan_preempt(); set_next(); }
  hash_ev(g_tick ^ 0x1234);
  expire();
  if (nlive > 1 && n_runnable_others()) decide(WHY_YIELD);
}

u64 now_mono() { return C.clock_base / 2 + g_tick * C.clock_step + clk_mono_off; }
u64 now_real() { return C.clock_base + g_tick * C.clock_step + clk_real_off; }
extern "C" u64 rt_now_ns() { return now_mono(); }

// The current thread cannot go on (blocked or finished): run somebody else. Returns when the
// current thread is scheduled again; does not wait if 'leave' is set.
static void run_others(bool leave) {
  ++g_tick;
  if (g_tick >= g_next) { check_limits(); if (g_tick >= preempt_at) plan_preempt(); set_next(); }
  Thr* c[512];
  int n = 0;
  expire();
  for (;;) {
    n = candidates(c, true);
    if (n) break;
    // Jump to the next timer.
    Thr* first = 0;
    for (int i = 0; i < nlive; ++i)
      if (live[i]->state == T_BLOCK && live[i]->deadline != ~0ull &&
          (!first || live[i]->deadline < first->deadline)) first = live[i];
    if (!first) die_deadlock();
    u64 now = now_mono();
    if (first->deadline > now) { clk_mono_off += first->deadline - now; clk_real_off += first->deadline - now; }
    first->timedout = 1;
    first->state = T_RUN;
  }
  // The default does not depend on the strategy, so that the record means the same when replayed.
  Thr* def = 0;
  for (int i = 0; i < nlive; ++i)
    if (can_run(live[i]) && (!def || live[i]->id < def->id)) def = live[i];
  Thr* next = def;
  if (C.replay) {
    while (rep_pos < shm->nrep && shm->rep[rep_pos].pos <= g_tick) {
      if (shm->rep[rep_pos].pos == g_tick) {
        Thr* t = find_live(shm->rep[rep_pos].val);
        if (t && can_run(t)) next = t;
      }
      ++rep_pos;
    }
    plan_preempt();
    set_next();
  } else {
    next = strategy_pick(c, n, WHY_BLOCK);
  }
  // In the record a forced choice is always explicit unless it is the default.
  if (next != def) record(DEC_SCHED, g_tick, (u32)next->id);
  if (next == cur && !leave) { g_on = g_sim && !cur->ignore; return; }
  Thr* me = cur;
  ++S.switches;
  hash_ev((g_tick << 12) ^ (u64)next->id);
  g_ihash = mix(g_ihash ^ ((u64)next->id << 8 | 0x99));
  cur = next;
  fut_post(&next->fut);
  if (leave) return;
  fut_wait(&me->fut);
  resumed();
}

void block_on(const void* obj, int kind, u64 deadline) {
  Thr* t = cur;
  t->wobj = obj;
  t->wkind = kind;
  t->deadline = deadline;
  t->timedout = 0;
  t->state = T_BLOCK;
  if (finishing) for (;;) raw_syscall(SYS_exit_group, 96);
  if (deadline != ~0ull) ++n_timed;
  run_others(false);
  if (deadline != ~0ull) --n_timed;
  t->wobj = 0;
  t->wkind = W_NONE;
  t->deadline = ~0ull;
}

void wake_all(const void* obj, int kind) {
  for (int i = 0; i < nlive; ++i)
    if (live[i]->state == T_BLOCK && live[i]->wobj == obj && live[i]->wkind == kind)
      live[i]->state = T_RUN;
}

// ---------------------------------------------------------------------------------------------
// Happens-before.

static struct HB { u64 key; VC* vc; } *hbt;
static const u32 HBN = 1 << 16;
static u32 hb_n;

static VC* hb_get(const void* o) {
  u64 k = (u64)o;
  u32 i = (u32)(mix(k) & (HBN - 1));
  while (hbt[i].key && hbt[i].key != k) i = (i + 1) & (HBN - 1);
  if (!hbt[i].key) {
    if (++hb_n > HBN * 3 / 4) { g_race = 0; C.race = 0; }   // table full: stop race detection
    hbt[i].key = k;
    hbt[i].vc = (VC*)rt_mem(sizeof(VC));
  }
  return hbt[i].vc;
}
static inline void vc_join(VC* a, const VC* b) {
  for (int i = 0; i < NSLOT; ++i) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}
void hb_acquire(const void* o) {
  if (!C.race || !g_sim) return;
  vc_join(&cur->vc, hb_get(o));
}
void hb_release(const void* o) {
  if (!C.race || !g_sim) return;
  vc_join(hb_get(o), &cur->vc);
  ++cur->vc.c[cur->slot];
}

// ---------------------------------------------------------------------------------------------
// Race shadow: 4 cells per 8 bytes.

struct Cell { u32 clk; u32 pc; unsigned char slot, mask, flags, tid; };   // 12 bytes
struct Gran { Cell c[4]; };
static const u64 SH_HEAP = SHADOW_BASE;                                // heap
static const u64 SH_EXE = SHADOW_BASE + HEAP_SIZE / 8 * sizeof(Gran);   // executable image
static const u64 SH_STACK = SH_EXE + (64ull << 20) / 8 * sizeof(Gran);   // stacks
static const u64 SH_END = SH_STACK + (u64)STACK_MAX * STACK_SIZE / 8 * sizeof(Gran);
extern "C" char __executable_start, _end;
static u64 exe_lo;
static u32 evict;

static inline Gran* gran(u64 a) {
  if (a - HEAP_BASE < HEAP_SIZE) return (Gran*)SH_HEAP + (a - HEAP_BASE) / 8;
  if (a - exe_lo < (64ull << 20)) return (Gran*)SH_EXE + (a - exe_lo) / 8;
  if (a - STACK_BASE < STACK_MAX * STACK_SIZE) return (Gran*)SH_STACK + (a - STACK_BASE) / 8;
  return 0;
}

void race_alloc(u64 a, u64 n) {
  Gran* g = gran(a);
  if (g) memset(g, 0, (n + 7) / 8 * sizeof(Gran));
}

static void report_race(u64 a, const Cell& old, bool w, bool atomic, const void* pc) {
  char bt[600];
  backtrace_text(bt, sizeof bt, pc);
  const char* where = a - HEAP_BASE < HEAP_SIZE ? "heap" : a - exe_lo < (64ull << 20) ? "static" : "stack";
  rt_die(OUT_RACE, 0, "data race on %s memory: %s%s by thread %d [%s] and earlier %s%s by another thread [@%p]",
         where, atomic ? "atomic " : "", w ? "write" : "read", cur->id, bt, old.flags & 2 ? "atomic " : "",
         old.flags & 1 ? "write" : "read", (void*)(u64)old.pc);
}

static void race_gran(u64 a, u32 mask, bool w, bool atomic, const void* pc) {
  Gran* g = gran(a & ~7ull);
  if (!g) return;
  const VC& vc = cur->vc;
  u32 clk = vc.c[cur->slot];
  int place = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& c = g->c[i];
    if (!c.mask) { if (place < 0) place = i; continue; }
    if (c.slot == cur->slot) {
      if (c.mask == mask && ((c.flags & 1) <= (w ? 1 : 0)) && ((c.flags & 2) >= (atomic ? 2 : 0) || !atomic)) place = i;
      continue;
    }
    bool ordered = c.clk <= vc.c[c.slot];
    if ((c.mask & mask) && (w || (c.flags & 1)) && !(atomic && (c.flags & 2)) && !ordered)
      report_race(a, c, w, atomic, pc);
    if (ordered && (c.mask & ~mask) == 0 && place < 0) place = i;
  }
  if (place < 0) place = (int)(evict++ & 3);
  Cell& c = g->c[place];
  c.clk = clk;
  c.slot = (unsigned char)cur->slot;
  c.mask = (unsigned char)mask;
  c.flags = (w ? 1 : 0) | (atomic ? 2 : 0);
  c.pc = (u32)(u64)pc;
}

static void race_access(u64 a, u64 n, bool w, bool atomic, const void* pc) {
  ++S.races_checked;
  u64 e = a + n;
  while (a < e) {
    u64 b = a & ~7ull;
    u64 hi = e < b + 8 ? e : b + 8;
    u32 mask = ((1u << (hi - a)) - 1) << (a - b);
    race_gran(a, mask & 0xff, w, atomic, pc);
    a = b + 8;
  }
}

// ---------------------------------------------------------------------------------------------
// Instrumentation entry points (what gcc -fsanitize=thread calls).

static void __attribute__((noinline)) mem_bad(u64 a, u64 n, bool w, const void* pc) {
  // Find the first bad byte.
  u64 e = a + n;
  unsigned char st = 0;
  for (u64 x = a; x < e; ++x) {
    unsigned char s = g_hstate[(x - HEAP_BASE) / 8];
    if (s == 0 || (s <= 8 && (x & 7) < s)) continue;
    st = s;
    break;
  }
  if (!st) return;
  rt_die_memerr(st == 0xfd ? (w ? "use after free (write)" : "use after free (read)")
                           : (w ? "heap out of bounds write" : "heap out of bounds read"), (void*)a, pc);
}

static inline void heap_check(u64 a, u64 n, bool w, const void* pc) {
  if (a - HEAP_BASE >= HEAP_SIZE) return;
  if (n == 0) return;
  if (n <= 8) {
    unsigned char s = g_hstate[(a - HEAP_BASE) / 8];
    if (__builtin_expect((a & 7) + n <= 8 && s == 8, 1)) return;
    mem_bad(a, n, w, pc);
  } else if (n <= 16) {
    mem_bad(a, n, w, pc);
  } else {
    // Only ends and a walk over the granules.
    u64 b = (a - HEAP_BASE) / 8, e = (a + n - 1 - HEAP_BASE) / 8;
    for (u64 i = b; i < e; ++i) if (g_hstate[i] != 8) { mem_bad(a, n, w, pc); return; }
    mem_bad(a + n - 1, 1, w, pc);
  }
}

static inline __attribute__((always_inline)) void acc(const void* p, u64 n, bool w, const void* pc) {
  if (!g_on) return;
  heap_check((u64)p, n, w, pc);
  if (__builtin_expect(++g_tick >= g_next, 0)) slow_access();
  if (g_race) race_access((u64)p, n, w, false, pc);
}

#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* p) { acc(p, n, false, RA); } \
  void __tsan_write##n(void* p) { acc(p, n, true, RA); } \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false, RA); } \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, true, RA); } \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false, RA); } \
  void __tsan_volatile_write##n(void* p) { acc(p, n, true, RA); } \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false, RA); } \
  void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true, RA); } \
  void __tsan_read_write##n(void* p) { acc(p, n, true, RA); } \
  void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { acc(p, n, false, RA); }
void __tsan_write_range(void* p, unsigned long n) { acc(p, n, true, RA); }
void __tsan_vptr_update(void** p, void* v) { if (g_on && *p != v) acc(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { acc(p, 8, false, RA); }

// Library calls of the instrumented code (renamed by objcopy).
void* simrt_memcpy(void* d, const void* s, size_t n) {
  if (g_on && n) { acc(s, n, false, RA); acc(d, n, true, RA); }
  return memmove(d, s, n);
}
void* simrt_memmove(void* d, const void* s, size_t n) {
  if (g_on && n) { acc(s, n, false, RA); acc(d, n, true, RA); }
  return memmove(d, s, n);
}
void* simrt_memset(void* d, int c, size_t n) {
  if (g_on && n) acc(d, n, true, RA);
  return memset(d, c, n);
}
int simrt_memcmp(const void* a, const void* b, size_t n) {
  if (g_on && n) { acc(a, n, false, RA); acc(b, n, false, RA); }
  return memcmp(a, b, n);
}
size_t simrt_strlen(const char* s) {
  size_t n = strlen(s);
  if (g_on) acc(s, n + 1, false, RA);
  return n;
}
}

// Atomics. Order numbers: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst.
static inline bool is_acq(int mo) { mo &= 0xff; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { mo &= 0xff; return mo == 3 || mo == 4 || mo == 5; }
static inline void at_pre(const volatile void* p, u64 n, bool w, const void* pc) {
  if (!g_on) return;
  heap_check((u64)p, n, w, pc);
  sync_point(20);
  if (g_race) race_access((u64)p, n, w, true, pc);
}
static inline void at_post(const volatile void* p, bool acq, bool rel) {
  if (!C.race || !g_sim || !cur) return;
  if (acq) hb_acquire((const void*)p);
  if (rel) hb_release((const void*)p);
}
#define ATOMIC(bits, T) \
  extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo) { \
    at_pre(p, sizeof(T), false, RA); T v = __atomic_load_n(p, 5); at_post(p, is_acq(mo), false); return v; } \
  extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, false, is_rel(mo)); __atomic_store_n(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_exchange_n(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_add(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_sub(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_and(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_or(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_xor(p, v, 5); } \
  extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { \
    at_pre(p, sizeof(T), true, RA); at_post(p, is_acq(mo), is_rel(mo)); return __atomic_fetch_nand(p, v, 5); } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
    at_pre(p, sizeof(T), true, RA); \
    int ok = __atomic_compare_exchange_n(p, e, v, false, 5, 5); \
    at_post(p, is_acq(ok ? mo : fmo), ok && is_rel(mo)); return ok; } \
  extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
  extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int mo) {
  static int fence_obj;
  sync_point(21);
  if (g_sim && cur && C.race) { hb_acquire(&fence_obj); hb_release(&fence_obj); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------------
// Threads.

static Thr* new_thr() {
  static Thr* freelist[4096];
  (void)freelist;
  Thr* t = 0;
  static Thr* pool[1024];
  static int npool;
  for (int i = 0; i < npool; ++i)
    if (pool[i]->state == T_FREE) { t = pool[i]; break; }
  if (!t) {
    if (npool == 1024) rt_die(OUT_INTERNAL, 0, "too many threads");
    t = pool[npool++] = (Thr*)rt_mem(sizeof(Thr));
  }
  memset(t, 0, sizeof *t);
  t->id = next_id++;
  t->state = T_RUN;
  t->deadline = ~0ull;
  t->prio = 1000 + srnd(1000000000ull);
  if (nlive >= 500) rt_die(OUT_INTERNAL, 0, "too many live threads");
  live[nlive++] = t;
  if ((u64)nlive > S.max_threads) S.max_threads = nlive;
  int s = -1;
  for (int i = 0; i < NSLOT; ++i) if (!slot_used[i]) { s = i; break; }
  if (s < 0) { s = NSLOT - 1; g_race = 0; C.race = 0; }
  slot_used[s] = 1;
  t->slot = s;
  t->vc = slot_vc_last[s];
  if (cur) vc_join(&t->vc, &cur->vc);
  ++t->vc.c[s];
  ++S.threads;
  return t;
}

static void unlist(Thr* t) {
  for (int i = 0; i < nlive; ++i)
    if (live[i] == t) { for (int j = i; j + 1 < nlive; ++j) live[j] = live[j + 1]; --nlive; return; }
}

// Last round of the key destructors: the thread is finished for the simulation.
static void thread_exit_key(void* v) {
  u64 round = (u64)v;
  if (round < PTHREAD_DESTRUCTOR_ITERATIONS) {
    pthread_setspecific(exit_key, (void*)(round + 1));
    return;
  }
  Thr* t = cur;
  g_on = 0;
  hash_ev(0xdead ^ (u64)t->id);
  t->state = T_DONE;
  slot_vc_last[t->slot] = t->vc;
  memset(&slot_vc_last[t->slot], 0, sizeof(VC));
  slot_vc_last[t->slot].c[t->slot] = t->vc.c[t->slot] + 1;
  slot_used[t->slot] = 0;
  if (stack_vc[t->stack]) *stack_vc[t->stack] = t->vc;
  wake_all(t, W_JOIN);
  unlist(t);
  reap[nreap] = t->real;
  reap_stack[nreap++] = t->stack;
  if (t->detached) { t->state = T_FREE; stack_release(t->stack); }
  run_others(true);
}

static void* thread_main(void* p) {
  Thr* t = (Thr*)p;
  fut_wait(&t->fut);
  pthread_setspecific(exit_key, (void*)1);
  g_on = 0;
  resumed();
  if (stack_vc[t->stack]) vc_join(&t->vc, stack_vc[t->stack]);
  t->started = 1;
  t->ret = t->fn(t->arg);
  return t->ret;
}

static int spawn(Thr** out, void* (*fn)(void*), void* arg, bool detached) {
  Thr* t = new_thr();
  t->fn = fn;
  t->arg = arg;
  t->detached = detached;
  if (nstack_free) t->stack = stack_free[--nstack_free];
  else {
    if (nstack >= STACK_MAX) rt_die(OUT_INTERNAL, 0, "out of stacks");
    t->stack = nstack++;
    stack_vc[t->stack] = (VC*)rt_mem(sizeof(VC));
  }
  stack_held[t->stack] = 2;
  pthread_attr_t a;
  pthread_attr_init(&a);
  char* base = (char*)STACK_BASE + (u64)t->stack * STACK_SIZE;
  pthread_attr_setstack(&a, base + 4096, STACK_SIZE - 4096);
  int save = g_on;
  g_on = 0;
  int r = real_pthread_create(&t->real, &a, thread_main, t);
  g_on = save;
  pthread_attr_destroy(&a);
  if (r) rt_die(OUT_INTERNAL, r, "real pthread_create failed");
  *out = t;
  return 0;
}

static Thr* done_list[2048];
static int ndone;

extern "C" int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!g_sim) {
    if (!real_pthread_create)
      real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
    return real_pthread_create(th, attr, fn, arg);
  }
  if (g_on && fault(F_THREAD)) return EAGAIN;
  if (!nstack_free && nstack >= STACK_MAX) return EAGAIN;
  int det = 0;
  if (attr) { pthread_attr_getdetachstate(attr, &det); det = det == PTHREAD_CREATE_DETACHED; }
  Thr* t;
  spawn(&t, fn, arg, det);
  if (C.race) ++cur->vc.c[cur->slot];
  *th = t->real;
  hash_ev(0xc0de ^ (u64)t->id);
  if (!det) {
    if (ndone >= 2048) rt_die(OUT_INTERNAL, 0, "too many unjoined threads");
    done_list[ndone++] = t;
  }
  sync_point(1);
  return 0;
}

static Thr* by_handle(pthread_t th, bool remove) {
  for (int i = 0; i < ndone; ++i)
    if (done_list[i]->real == th) {
      Thr* t = done_list[i];
      if (remove) done_list[i] = done_list[--ndone];
      return t;
    }
  return 0;
}

extern "C" int pthread_join(pthread_t th, void** ret) {
  if (!g_sim) {
    if (!real_pthread_join) real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    return real_pthread_join(th, ret);
  }
  sync_point(2);
  Thr* t = by_handle(th, false);
  if (!t) return ESRCH;
  if (t == cur) return EDEADLK;
  while (t->state != T_DONE) block_on(t, W_JOIN, ~0ull);
  if (C.race) vc_join(&cur->vc, &t->vc);
  if (ret) *ret = t->ret;
  by_handle(th, true);
  t->state = T_FREE;
  stack_release(t->stack);
  return 0;
}
extern "C" int pthread_detach(pthread_t th) {
  if (!g_sim) return 0;
  Thr* t = by_handle(th, true);
  if (!t) return ESRCH;
  t->detached = 1;
  if (t->state == T_DONE) { t->state = T_FREE; stack_release(t->stack); }
  return 0;
}

// ---------------------------------------------------------------------------------------------
// Mutexes. State lives in the object: __lock holder id + 1, __count recursion.

#define ML(m) ((m)->__data.__lock)
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  return 0;
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) { return 0; }
static inline bool in_sim_thread() { return g_sim && cur && !finishing; }

static int mutex_lock(pthread_mutex_t* m, u64 deadline) {
  int me = cur->id + 1;
  if (ML(m) == me) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return 0; }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (ML(m) != 0) {
    block_on(m, W_MUTEX, deadline);
    if (cur->timedout && ML(m) != 0) return ETIMEDOUT;
  }
  ML(m) = me;
  hb_acquire(m);
  return 0;
}
static int mutex_unlock(pthread_mutex_t* m) {
  if (m->__data.__count) { --m->__data.__count; return 0; }
  hb_release(m);
  ML(m) = 0;
  wake_all(m, W_MUTEX);
  return 0;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_sim_thread()) return 0;
  if (g_on) { heap_check((u64)m, 4, true, RA); }
  sync_point(3);
  return mutex_lock(m, ~0ull);
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_sim_thread()) return 0;
  sync_point(4);
  int me = cur->id + 1;
  if (ML(m) == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; return 0; }
  if (ML(m)) return EBUSY;
  ML(m) = me;
  hb_acquire(m);
  return 0;
}
static u64 ts_ns(const struct timespec* t) { return (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; }
static u64 deadline_from(clockid_t c, const struct timespec* t) {
  u64 abs = ts_ns(t);
  u64 now = c == CLOCK_MONOTONIC ? now_mono() : now_real();
  return abs <= now ? now_mono() : now_mono() + (abs - now);
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!in_sim_thread()) return 0;
  sync_point(3);
  return mutex_lock(m, deadline_from(CLOCK_REALTIME, t));
}
extern "C" int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) {
  if (!in_sim_thread()) return 0;
  sync_point(3);
  return mutex_lock(m, deadline_from(c, t));
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_sim_thread()) return 0;
  if (g_on) { heap_check((u64)m, 4, true, RA); }
  mutex_unlock(m);
  sync_point(5);
  return 0;
}

// ---------------------------------------------------------------------------------------------
// Condition variables: waiters are found through the thread list.

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
  sync_point(6);
  u32 sp = g_on ? fault(F_SPURIOUS) : 0;
  cur->incond = c;
  mutex_unlock(m);
  cur->signaled = 0;
  int r = 0;
  if (sp) {
    ++S.spurious;
    sync_point(7);
  } else {
    block_on(c, W_COND, deadline);
    if (cur->timedout && !cur->signaled) r = ETIMEDOUT;
  }
  cur->incond = 0;
  wake_all(c, W_COND_FREE);
  mutex_lock(m, ~0ull);
  return r;
}
extern "C" int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
// As in glibc: destruction waits until every thread has left, for ever when nobody wakes them.
extern "C" int pthread_cond_destroy(pthread_cond_t* c) {
  if (!in_sim_thread()) return 0;
  for (int i = 0; i < nlive; ++i)
    if (live[i] != cur && live[i]->incond == c) { block_on(c, W_COND_FREE, ~0ull); i = -1; }
  return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!in_sim_thread()) return 0;
  return cond_wait(c, m, ~0ull);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!in_sim_thread()) return ETIMEDOUT;
  return cond_wait(c, m, deadline_from(CLOCK_REALTIME, t));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!in_sim_thread()) return ETIMEDOUT;
  return cond_wait(c, m, deadline_from(k, t));
}
static void cond_wake(pthread_cond_t* c, bool all) {
  if (all) {
    for (int i = 0; i < nlive; ++i)
      if (live[i]->state == T_BLOCK && live[i]->wobj == c && live[i]->wkind == W_COND) live[i]->signaled = 1;
    wake_all(c, W_COND);
    return;
  }
  Thr* w[512];
  int n = 0;
  for (int i = 0; i < nlive; ++i)
    if (live[i]->state == T_BLOCK && live[i]->wobj == c && live[i]->wkind == W_COND) w[n++] = live[i];
  if (!n) return;
  Thr* def = lowest(w, n);
  Thr* t = def;
  if (n > 1) {
    ++g_tick;
    if (C.replay) {
      while (rep_pos < shm->nrep && shm->rep[rep_pos].pos < g_tick) ++rep_pos;
      if (rep_pos < shm->nrep && shm->rep[rep_pos].pos == g_tick) {
        for (int i = 0; i < n; ++i) if ((u32)w[i]->id == shm->rep[rep_pos].val) t = w[i];
        ++rep_pos;
      }
      plan_preempt();
      set_next();
    } else if (C.strategy == S_LIFO) {
      for (int i = 0; i < n; ++i) if (w[i]->id > t->id) t = w[i];
    } else if (C.strategy != S_SEQ) {
      t = w[srnd(n)];
    }
    if (t != def) record(DEC_SCHED, g_tick, (u32)t->id);
  }
  hash_ev(0x51 ^ ((u64)t->id << 8));
  t->signaled = 1;
  t->state = T_RUN;
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
  if (!in_sim_thread()) return 0;
  sync_point(8);
  cond_wake(c, false);
  sync_point(18);
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!in_sim_thread()) return 0;
  sync_point(9);
  cond_wake(c, true);
  sync_point(18);
  return 0;
}

// ---------------------------------------------------------------------------------------------
// Read-write locks: own state inside the object (first int: writer id+1, second: readers).

struct RW { int writer, readers; };
extern "C" int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
extern "C" int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool write, bool tryit, u64 deadline) {
  RW* r = (RW*)l;
  while (r->writer || (write && r->readers)) {
    if (tryit) return EBUSY;
    block_on(l, W_RW, deadline);
    if (cur->timedout && (r->writer || (write && r->readers))) return ETIMEDOUT;
  }
  if (write) r->writer = cur->id + 1; else ++r->readers;
  hb_acquire(l);
  return 0;
}
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, false, false, ~0ull); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, true, false, ~0ull); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, false, true, ~0ull); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, true, true, ~0ull); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, false, false, deadline_from(CLOCK_REALTIME, t)); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, true, false, deadline_from(CLOCK_REALTIME, t)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, false, false, deadline_from(c, t)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!in_sim_thread()) return 0; sync_point(10); return rw_lock(l, true, false, deadline_from(c, t)); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!in_sim_thread()) return 0;
  RW* r = (RW*)l;
  hb_release(l);
  if (r->writer) r->writer = 0; else if (r->readers) --r->readers;
  wake_all(l, W_RW);
  sync_point(11);
  return 0;
}
// Spin locks.
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
  if (!in_sim_thread()) return 0;
  sync_point(3);
  while (*l) block_on((const void*)l, W_MUTEX, ~0ull);
  *l = 1;
  hb_acquire((const void*)l);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  if (!in_sim_thread()) return 0;
  sync_point(3);
  if (*l) return EBUSY;
  *l = 1;
  hb_acquire((const void*)l);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!in_sim_thread()) return 0;
  hb_release((const void*)l);
  *l = 0;
  wake_all((const void*)l, W_MUTEX);
  sync_point(5);
  return 0;
}
// Semaphores.
int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
  if (in_sim_thread()) { sync_point(12); hb_release(s); }
  ++*(int*)s;
  if (in_sim_thread()) wake_all(s, W_SEM);
  return 0;
}
int sem_wait(sem_t* s) {
  if (in_sim_thread()) { sync_point(13); while (*(int*)s <= 0) block_on(s, W_SEM, ~0ull); hb_acquire(s); }
  --*(int*)s;
  return 0;
}
int sem_trywait(sem_t* s) {
  if (in_sim_thread()) sync_point(13);
  if (*(int*)s <= 0) { errno = EAGAIN; return -1; }
  if (in_sim_thread()) hb_acquire(s);
  --*(int*)s;
  return 0;
}
int sem_getvalue(sem_t* s, int* v) { *v = *(int*)s; return 0; }
// Barriers.
struct Bar { int need, have, gen; };
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) {
  Bar* x = (Bar*)b; x->need = (int)n; x->have = 0; x->gen = 0; return 0;
}
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* b) {
  if (!in_sim_thread()) return PTHREAD_BARRIER_SERIAL_THREAD;
  Bar* x = (Bar*)b;
  sync_point(14);
  hb_release(b);
  int g = x->gen;
  if (++x->have == x->need) {
    x->have = 0;
    ++x->gen;
    wake_all(b, W_SEM);
    hb_acquire(b);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  while (x->gen == g) block_on(b, W_SEM, ~0ull);
  hb_acquire(b);
  return 0;
}

// One-time initialisation: 0 new, 1 running, 2 done.
int pthread_once(pthread_once_t* o, void (*fn)()) {
  int* st = (int*)o;
  if (!in_sim_thread()) {
    if (*st != 2) { *st = 1; fn(); *st = 2; }
    return 0;
  }
  sync_point(15);
  for (;;) {
    if (*st == 2) { hb_acquire(o); return 0; }
    if (*st == 0) break;
    block_on(o, W_ONCE, ~0ull);
  }
  *st = 1;
  struct Undo { int* st; bool ok; ~Undo() { *st = ok ? 2 : 0; wake_all(st, W_ONCE); } } u = {st, false};
  fn();
  hb_release(o);
  u.ok = true;
  return 0;
}
// Function-local statics. Guard byte 0: initialised; byte 1: in progress.
int __cxa_guard_acquire(u64* g) {
  unsigned char* b = (unsigned char*)g;
  if (!in_sim_thread()) { if (b[0]) return 0; b[1] = 1; return 1; }
  sync_point(16);
  for (;;) {
    if (b[0]) { hb_acquire(g); return 0; }
    if (!b[1]) break;
    block_on(g, W_GUARD, ~0ull);
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* g) {
  unsigned char* b = (unsigned char*)g;
  if (in_sim_thread()) hb_release(g);
  b[1] = 0;
  b[0] = 1;
  if (in_sim_thread()) { wake_all(g, W_GUARD); sync_point(17); }
}
void __cxa_guard_abort(u64* g) {
  unsigned char* b = (unsigned char*)g;
  b[1] = 0;
  if (in_sim_thread()) wake_all(g, W_GUARD);
}

// ---------------------------------------------------------------------------------------------
// Clocks, sleeping, identity, randomness.

static u64 clock_read(int mono) {
  if (g_on) {
    sync_point(30);
    ++S.clock_reads;
    u32 a = fault(F_CLOCK);
    if (a) {
      // Jumps of the wall clock go both ways; the monotonic clock only ever goes forward.
      u64 j = (u64)a * 3600000000ull;      // up to ~1000 h
      if (a & 1) clk_real_off += j; else clk_real_off -= j < C.clock_base / 2 ? j : C.clock_base / 2;
      if (a % 5 == 0) clk_mono_off += j;
    }
  }
  return mono ? now_mono() : now_real();
}
int clock_gettime(clockid_t c, struct timespec* t) {
  if (!in_sim_thread()) {
    long r = raw_syscall(SYS_clock_gettime, c, (long)t);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  u64 n = clock_read(c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE);
  t->tv_sec = (time_t)(n / 1000000000ull);
  t->tv_nsec = (long)(n % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval* t, void*) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (p) *p = s.tv_sec;
  return s.tv_sec;
}
clock_t clock() {
  if (!in_sim_thread()) return 0;
  return (clock_t)(now_mono() / 1000);
}
int sched_yield() { if (in_sim_thread()) yield_point(); return 0; }
static void sim_sleep(u64 ns) {
  sync_point(31);
  block_on(&ns, W_SLEEP, now_mono() + ns);
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!in_sim_thread()) {
    long r = raw_syscall(SYS_nanosleep, (long)t, (long)rem);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
  }
  sim_sleep(ts_ns(t));
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (!in_sim_thread()) return (int)-raw_syscall(SYS_clock_nanosleep, c, flags, (long)t, (long)rem);
  if (flags & TIMER_ABSTIME) { sync_point(31); block_on(t, W_SLEEP, deadline_from(c, t)); }
  else sim_sleep(ts_ns(t));
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, 0);
}
unsigned sleep(unsigned s) {
  struct timespec t = {(time_t)s, 0};
  nanosleep(&t, 0);
  return 0;
}
pid_t getpid() {
  if (!in_sim_thread()) return (pid_t)raw_syscall(SYS_getpid);
  return C.pid ? (pid_t)C.pid : (pid_t)(1000 + mix(C.seed ^ 77) % 30000);
}
pid_t gettid() {
  if (!in_sim_thread()) return (pid_t)raw_syscall(SYS_gettid);
  return (pid_t)(40000 + cur->id);
}
static u64 env_rng;
int getentropy(void* p, size_t n) {
  if (!in_sim_thread()) return raw_syscall(SYS_getrandom, (long)p, (long)n, 0) == (long)n ? 0 : -1;
  for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)rnd(&env_rng);
  return 0;
}
ssize_t getrandom(void* p, size_t n, unsigned) { return getentropy(p, n) ? -1 : (ssize_t)n; }
unsigned arc4random() { unsigned v; getentropy(&v, 4); return v; }

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (in_sim_thread()) {
    if (n == SYS_futex) {
      int op = (int)b & 0x7f & ~FUTEX_CLOCK_REALTIME;
      bool rt = (b & FUTEX_CLOCK_REALTIME) != 0;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        sync_point(32);
        if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
        u64 dl = ~0ull;
        const struct timespec* ts = (const struct timespec*)d;
        if (ts) dl = op == FUTEX_WAIT ? now_mono() + ts_ns(ts) : deadline_from(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        cur->signaled = 0;
        block_on((void*)a, W_FUTEX, dl);
        if (cur->timedout && !cur->signaled) { errno = ETIMEDOUT; return -1; }
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        sync_point(33);
        long k = 0;
        for (int i = 0; i < nlive && k < (int)c; ++i)
          if (live[i]->state == T_BLOCK && live[i]->wobj == (void*)a && live[i]->wkind == W_FUTEX) {
            live[i]->state = T_RUN;
            live[i]->signaled = 1;
            ++k;
          }
        sync_point(34);
        return k;
      }
    }
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getrandom) return getrandom((void*)a, (size_t)b, 0);
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// Ends of the process.
void abort() {
  if (g_sim && cur) rt_finish(OUT_ABORT, 0, "abort");
  raw_syscall(SYS_kill, raw_syscall(SYS_getpid), SIGABRT);
  for (;;) raw_syscall(SYS_exit_group, 134);
}
static void (*real_exit)(int);
void exit(int c) {
  if (g_sim && cur) rt_finish(OUT_EXIT, c, "exit");
  if (!real_exit) real_exit = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real_exit(c);
  for (;;) {}
}
void quick_exit(int c) { if (g_sim && cur) rt_finish(OUT_EXIT, c, "quick_exit"); raw_syscall(SYS_exit_group, c); for (;;) {} }
void _exit(int c) { if (g_sim && cur) rt_finish(OUT_EXIT, c, "_exit"); for (;;) raw_syscall(SYS_exit_group, c); }
int raise(int s) { if (g_sim && cur) rt_finish(s == SIGABRT ? OUT_ABORT : OUT_SIGNAL, s, "raise"); raw_syscall(SYS_kill, raw_syscall(SYS_getpid), s); return 0; }
}  // extern "C"

// std::random_device
namespace std {
class random_device { public: unsigned _M_getval(); double _M_getentropy() const noexcept; };
unsigned random_device::_M_getval() { unsigned v; getentropy(&v, 4); return v; }
}  // namespace std

// ---------------------------------------------------------------------------------------------
// Start of a simulated process.

static void on_signal(int s, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc;
  u64 pc = (u64)u->uc_mcontext.gregs[REG_RIP];
  if (s == SIGXCPU || s == SIGALRM) rt_die(OUT_TICKCAP, 1, "no progress: CPU limit reached outside instrumented code");
  char bt[500];
  int k = sim_fmt(bt, sizeof bt, "@%p", (void*)pc);
  u64* fp = (u64*)u->uc_mcontext.gregs[REG_RBP];
  for (int i = 0; i < 12; ++i) {
    u64 f = (u64)fp;
    if (f < STACK_BASE || f >= STACK_BASE + STACK_MAX * STACK_SIZE - 16 || (f & 7)) break;
    u64 ret = fp[1];
    if (ret >= 0x400000 && ret < 0x10000000 && (size_t)k < sizeof bt - 24)
      k += sim_fmt(bt + k, sizeof bt - k, " @%p", (void*)ret);
    if (fp[0] <= f) break;
    fp = (u64*)fp[0];
  }
  rt_die(OUT_SIGNAL, s, "signal %d in thread %d [%s]", s, cur ? cur->id : -1, bt);
}

extern "C" void rt_global_init() {
  heap_init();
  exe_lo = (u64)&__executable_start & ~4095ull;
  mmap((void*)RTMEM_BASE, RTMEM_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  mmap((void*)STACK_BASE, (u64)STACK_MAX * STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  for (int i = 0; i < STACK_MAX; ++i) mprotect((char*)STACK_BASE + (u64)i * STACK_SIZE, 4096, PROT_NONE);
  void* p = mmap((void*)SHM_BASE, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  shm = shm0 = (Shm*)p;
  static_assert(sizeof(Shm) < 0x40000000ull, "Shm too big");
  for (int k = 1; k <= MP_MAX; ++k)
    mmap(shm_of(k), sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  hbt = (HB*)rt_mem(sizeof(HB) * HBN);
  real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
}

static int (*g_main)(void*);
static void* g_main_arg;
static void* sim_main(void*) {
  int r = g_main(g_main_arg);
  rt_finish(OUT_EXIT, r, "");
}

extern "C" void rt_set_strategy(u32 st, u32 sp, u64 gap, u32 depth, u64 len) {
  C.strategy = st;
  C.sync_permille = sp;
  C.gap = gap ? gap : 1;
  n_pct = 0;
  starve_id = -1;
  if (st == S_PCT) {
    n_pct = depth > 60 ? 60 : depth;
    for (u32 i = 0; i < n_pct; ++i) pct_pts[i] = g_tick + 1 + srnd(len ? len : 1);
  }
  if (st == S_STARVE) { starve_id = next_id + (int)srnd(6); starve_until = g_tick + 2000000; }
  plan_preempt();
  set_next();
}
extern "C" u64 rt_reset_ticks(u64 cap) { C.tick_cap = g_tick + cap; set_next(); return g_tick; }

extern "C" void rt_run(int (*fn)(void*), void* arg) {
  C = shm->cfg;
  memset(&shm->out, 0, sizeof shm->out);
  shm->ndec = 0;
  shm->dec_overflow = 0;
  if (C.race) mmap((void*)SHADOW_BASE, SH_END - SHADOW_BASE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  srng = mix(C.seed ^ 0x5ced) + 1;
  frng = mix(C.seed ^ 0xfa017) + 1;
  env_rng = mix(C.seed ^ 0xe417) + 1;
  if (!C.tick_cap) C.tick_cap = 50000000;
  if (C.replay) {
    // Split the replay list into scheduling decisions (kept in order) and faults (by class).
    u32 k = 0, total = 0;
    for (u32 i = 0; i < shm->nrep; ++i)
      if (shm->rep[i].kind >= DEC_FAULT && shm->rep[i].kind < DEC_FAULT + F_N) { ++n_rep_fault[shm->rep[i].kind - DEC_FAULT]; ++total; }
    RepFault* mem = (RepFault*)mmap(0, (total + 1) * sizeof(RepFault), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (u32 c = 0; c < F_N; ++c) { rep_fault[c] = mem; mem += n_rep_fault[c]; n_rep_fault[c] = 0; }
    for (u32 i = 0; i < shm->nrep; ++i) {
      if (shm->rep[i].kind >= DEC_FAULT && shm->rep[i].kind < DEC_FAULT + F_N) {
        u32 c = shm->rep[i].kind - DEC_FAULT;
        RepFault& f = rep_fault[c][n_rep_fault[c]++];
        f.idx = shm->rep[i].pos; f.act = shm->rep[i].val;
      } else {
        shm->rep[k++] = shm->rep[i];
      }
    }
    shm->nrep = k;
  }
  heap_configure(&C);
  static char alt[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGXCPU, SIGTRAP};
  for (int s : sigs) sigaction(s, &sa, 0);
  struct rlimit rl = {25, 40};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  pthread_key_create(&exit_key, thread_exit_key);
  g_main = fn;
  g_main_arg = arg;
  g_race = C.race;
  g_sim = 1;
  faults_on = 0;
  Thr* t;
  spawn(&t, sim_main, 0, true);
  rt_set_strategy(C.strategy, C.sync_permille, C.gap, C.pct_depth, C.pct_len);
  cur = t;
  fut_post(&t->fut);
  for (;;) fut_wait(&main_os_fut);
}

// The simulated clocks as they are, without a read by the program.
extern "C" void rt_now(u64* mono, u64* real) { *mono = now_mono(); *real = now_real(); }
