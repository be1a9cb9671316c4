// Internal interface between the parts of the simulation runtime. No STL in here: the runtime is
// not instrumented and must not share template instantiations with the instrumented code.
#ifndef SIM_RT_INT_H_
#define SIM_RT_INT_H_
#include "rt.h"
#include <pthread.h>

#define HEAP_BASE 0x200000000000ull
#define HEAP_SIZE (2ull << 30)
#define HSTATE_BASE 0x204000000000ull   // 1 byte per 8 heap bytes
#define STACK_BASE 0x210000000000ull
#define STACK_SIZE (1ull << 20)
#define STACK_MAX 600
#define SHADOW_BASE 0x220000000000ull   // heap race shadow
#define SHM_BASE 0x230000000000ull
#define RTMEM_BASE 0x240000000000ull    // runtime internal memory
#define RTMEM_SIZE (512ull << 20)

#define NSLOT 80

struct VC { u32 c[NSLOT]; };

enum { T_FREE = 0, T_RUN, T_BLOCK, T_DONE };
enum { W_NONE = 0, W_MUTEX, W_COND, W_JOIN, W_FUTEX, W_ONCE, W_GUARD, W_SLEEP, W_RW, W_SEM, W_COND_FREE };

struct Thr {
  int id, slot, state, fut;
  pthread_t real;
  int stack;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  const void* wobj;
  int wkind;
  u64 deadline;      // ns, ~0: none
  int timedout, signaled;
  const void* incond;     // condition variable this thread waits on, or has not left yet
  int joined, detached, reaped;
  u64 prio;
  u64 stall_until;
  int ignore;
  int started;
  VC vc;
};

extern int g_on;             // current thread is simulated and not in an oracle section
extern int g_sim;            // this process is a running simulation
extern u64 g_tick, g_next;
extern Thr* cur;
extern RtStats S;
extern int g_race;

static inline u64 mix(u64 z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
extern u64 g_hash, g_ihash;
static inline void hash_ev(u64 v) { g_hash = mix(g_hash ^ v) + 0x9e3779b97f4a7c15ull; }

long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void* rt_mem(u64 n);         // runtime internal, zeroed, never freed
void sync_point(int kind);   // scheduling point (tick)
void slow_io();
u32 fault(int cls);          // 0: no fault, otherwise the action
int faults_armed();
u64 rng_fault();
void block_on(const void* obj, int kind, u64 deadline);
void wake_all(const void* obj, int kind);
void rt_die_memerr(const char* what, const void* addr, const void* pc) __attribute__((noreturn));
void rt_die(int kind, int code, const char* fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
u64 sim_clock(int cls);

// memory
void heap_init();
void heap_configure(const RtConfig* c);
void* heap_alloc(u64 n, u64 align);
void heap_free(void* p, const void* pc);
extern unsigned char* g_hstate;
// race detection
void race_alloc(u64 addr, u64 n);
void hb_acquire(const void* obj);
void hb_release(const void* obj);
int sim_fmt(char* out, size_t n, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#endif
