// Simulation runtime: public interface used by the scenarios and the driver.
// The runtime owns every source of nondeterminism of a simulated process: thread scheduling,
// synchronisation, clocks, randomness, memory placement, file I/O and faults.
#ifndef SIM_RT_H_
#define SIM_RT_H_

#include <stddef.h>
#include <stdint.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

// ---- outcome of one simulated process (incarnation) ------------------------------------------
enum OutKind {
  OUT_NONE = 0,
  OUT_EXIT,       // main returned or exit() was called; code in 'code'
  OUT_ABORT,      // abort(), failed CHECK, LOG(FATAL), uncaught exception
  OUT_SIGNAL,     // SIGSEGV, SIGFPE, ...; signal in 'code'
  OUT_DEADLOCK,   // no thread can run
  OUT_TICKCAP,    // too many steps: livelock or endless loop
  OUT_MEMLIMIT,   // runaway allocation
  OUT_MEMERR,     // use after free, out of bounds, invalid free
  OUT_RACE,       // data race
  OUT_VIOL,       // an oracle reported a violation
  OUT_CRASH,      // injected crash
  OUT_INTERNAL,   // error of the simulator itself
  OUT_TIMEOUT     // wall clock guard of the parent
};

// ---- faults -------------------------------------------------------------------------------------
enum FaultClass {
  F_ALLOC = 0,    // operator new number n throws bad_alloc
  F_THREAD,       // pthread_create number n fails with EAGAIN
  F_OPEN,         // open number n fails with errno = action
  F_READ,         // read number n: see IOA_*
  F_WRITE,        // write number n: see IOA_*
  F_CLOSE,        // close number n of a written file fails
  F_META,         // mkdir, rename, unlink, fsync number n fails with errno = action
  F_SPURIOUS,     // condition wait number n wakes up spuriously
  F_CLOCK,        // clock read number n: jump; action encodes the jump
  F_CRASH,        // the process is killed at tick n
  F_STALL,        // (counted only) a thread is stalled
  F_SEEK,
  F_SLOW,         // disk operation number n takes 2^action * 4 us of simulated time
  F_N
};
enum { IOA_EIO = 1, IOA_EINTR = 2, IOA_SHORT = 3, IOA_ENOSPC = 4, IOA_CRASH = 5 };  // low byte; rest: parameter

struct FaultPlan {          // how faults of one class are chosen (not used when replaying)
  u64 at[8];                // fire at these op numbers...
  u32 action[8];            // ...with this action
  u32 n_at;
  u32 permille;             // and/or with this probability per op
  u32 rnd_action;           // action for the random ones (0: class specific random choice)
  u64 from;                 // only from this op number on
};

enum Strategy { S_SEQ = 0, S_SYNC, S_ACCESS, S_PCT, S_LIFO, S_RR, S_STARVE, S_N };

struct RtConfig {
  u64 seed;                 // schedule and fault randomness
  u32 strategy;
  u32 sync_permille;        // S_SYNC, S_ACCESS: switch probability at a sync point
  u64 gap;                  // S_ACCESS, S_RR: mean gap / quantum in ticks
  u32 pct_depth;
  u64 pct_len;
  u32 stall_permyriad;      // stall probability per sync point, 1/10000
  u64 tick_cap;
  u64 mem_cap;              // bytes
  u32 heap_policy;          // 0 FIFO quarantine, 1 LIFO reuse, 2 no reuse (bounded)
  u32 heap_offset;          // placement shift in 16-byte units
  u32 fill;                 // fill byte for fresh memory (0..255), 256: per-block pseudo random
  u32 race;                 // detect data races
  u32 mem_check;
  u64 clock_base;           // ns
  u64 clock_step;           // ns per tick
  u32 replay;               // 1: take decisions from the replay list
  u64 disk_cap;             // bytes that can still be written; ~0 unlimited
  u32 pid;                  // 0: derived from the seed
  FaultPlan fp[F_N];
};

struct Dec { u64 pos; u32 kind; u32 val; };   // kind: 0 sched, 1 waiter choice, 16+F_x: fault
enum { DEC_SCHED = 0, DEC_WAITER = 1, DEC_FAULT = 16 };
#define MAX_DEC (1u << 20)

struct RtStats {
  u64 ticks, switches, preempts, sync_ops, threads, spurious, stalls, clock_reads, sim_ns;
  u64 ops[F_N];             // operations seen per fault class
  u64 fired[F_N];           // faults injected per class
  u64 io_short, io_eintr, io_eio, io_enospc, io_open_fail, io_close_fail;
  u64 allocs, races_checked;
  u64 max_threads;
};

struct Outcome {
  int kind, code;
  char text[2000];
  u64 hash;                 // event log hash
  u64 ihash;                // interleaving hash: sequence of (thread, sync op)
  RtStats st;
  u64 blob_len;
  int in_oracle;
};

#define BLOB_MAX (16u << 20)

// ---- simulated disk ---------------------------------------------------------------------------
#define MAXFILES 384
struct SFile {
  char path[232];
  u32 used;                 // exists now
  u32 is_dir;
  u64 off, size, cap;       // current content
  u32 dirty;                // current state is not durable
  u32 dur_used;
  u64 dur_off, dur_size;    // durable content
  u64 writes;
};
struct Disk {
  u32 nfiles;
  u64 data_used;
  SFile f[MAXFILES];
};
#define DISK_DATA (96u << 20)

// Several simulated processes of one machine take turns.
#define MP_MAX 6
struct Mp {
  int turn;                 // -1: the controller, otherwise the process that runs
  u32 quantum;              // file operations until it hands the turn back
};

struct Shm {
  RtConfig cfg;
  Outcome out;
  u32 ndec;  u32 dec_overflow; Dec dec[MAX_DEC];        // recorded
  u32 nrep;  Dec rep[MAX_DEC];        // to be replayed
  char blob[BLOB_MAX];
  char blob2[BLOB_MAX];
  u64 user[64];
  char res[1u << 16];                 // result of a run, see driver
  u32 nall; Dec all[4 * MAX_DEC];     // decisions of all incarnations of a run
  Mp mp;
  Disk disk;
  char data[DISK_DATA];
};
extern "C" {
extern Shm* shm;            // of this simulated process
extern Shm* shm0;           // of the machine: disk, result of the run
Shm* shm_of(int k);         // k = 0: shm0; 1..MP_MAX: of a process that runs next to others
void mp_enter(int k);       // in a forked process: wait for the first turn
void mp_point();

// Driver side (outside simulation).
void rt_global_init();
// Runs fn(arg) as the main function of a simulated process in the *current* (forked) process.
// Does not return.
void rt_run(int (*fn)(void*), void* arg) __attribute__((noreturn));

// Scenario side (inside simulation).
void rt_finish(int kind, int code, const char* text) __attribute__((noreturn));
void rt_violation(const char* text) __attribute__((noreturn));
void rt_ignore_begin();     // oracle section: no preemption, no ticks, no races, no faults
void rt_ignore_end();
int rt_in_sim();
void rt_set_strategy(u32 strategy, u32 sync_permille, u64 gap, u32 pct_depth, u64 pct_len);
void rt_reconfig_heap(u32 policy, u32 fill);
void rt_faults_enable(int on);          // faults armed or not (counters reset when armed)
void rt_race_enable(int on);
u64 rt_ticks();
u64 rt_now_ns();
void rt_hash(u64 v);
void rt_point();            // explicit scheduling point
int rt_tid();
int rt_live_threads();
void rt_heap_live(u64* blocks, u64* bytes);     // blocks of the code under simulation that it has not given back
void rt_now(u64* mono, u64* real);
int rt_open_files();                            // descriptors open on the simulated disk
u64 rt_reset_ticks(u64 cap);
void rt_stats(RtStats* s);

// Disk, callable from both sides.
void disk_reset();
void disk_put(const char* path, const char* data, u64 len);
void disk_mkdir(const char* path);
int disk_exists(const char* path);
SFile* disk_find(const char* path);
const char* disk_data(SFile* f);
void disk_remove(const char* path);
void disk_sync_all();
void disk_power_loss(SFile* f, int how, u64 arg);
}

// Deterministic generator.
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};

#endif
