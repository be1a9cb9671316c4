// Allocator of the simulated processes: malloc family and operator new/delete. Deterministic
// placement, red zones, quarantine, garbage fill, out-of-memory faults.
#include "rt_int.h"
#include <errno.h>
#include <new>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

unsigned char* g_hstate = (unsigned char*)HSTATE_BASE;

namespace {
// Block layout: [header 32 bytes][user n, padded to 16][red zone >= 16]
struct Hdr { u64 total, n; u32 magic, cls; u64 next; };
const u32 LIVE = 0x11fe11fe, DEAD = 0xdeaddead;
int inited;
u64 bump = HEAP_BASE + 4096;
u64 used;
u64 mem_cap = ~0ull;
u32 policy, fillb = 256;
int fill_on;
u64 sim_base;
const int NCLS = 200;
struct Fl { u64 head, tail, bytes; } fl[NCLS];
volatile int lk;

void lock() { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
void unlock() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); }

u64 class_size(int c) {     // total block sizes
  if (c < 64) return 64 + 16 * (u64)c;                       // 64..1072
  int k = (c - 64) / 4, r = (c - 64) % 4;                     // 1280 * 2^k * (1, 1.25, 1.5, 1.75)
  return ((1280ull << k) / 4 * (4 + r) + 15) & ~15ull;
}
int class_of(u64 total) {
  if (total <= 64) return 0;
  if (total <= 1072) return (int)((total - 64 + 15) / 16);
  for (int c = 64; c < NCLS; ++c) if (class_size(c) >= total) return c;
  return -1;
}
}  // namespace

void heap_init() {
  if (inited) return;
  inited = 1;
  mmap((void*)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  mmap((void*)HSTATE_BASE, HEAP_SIZE / 8, PROT_READ | PROT_WRITE,
       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  g_hstate = (unsigned char*)HSTATE_BASE;
}

void heap_configure(const RtConfig* c) {
  policy = c->heap_policy;
  fillb = c->fill;
  fill_on = 1;
  mem_cap = c->mem_cap ? c->mem_cap : ~0ull;
  used = 0;
  // A part of the heap of its own: what the parent did before must not show.
  memset(fl, 0, sizeof fl);
  sim_base = HEAP_BASE + HEAP_SIZE / 4;
  bump = sim_base + 16 * (u64)c->heap_offset;
}

extern "C" void rt_reconfig_heap(u32 p, u32 f) { policy = p; fillb = f; }

// State bytes: 0 untouched by the allocator (never checked blocks), 1..8 addressable bytes,
// 0xfa red zone, 0xfd freed.
static void set_state(u64 user, u64 n, u64 end) {
  unsigned char* s = g_hstate + (user - HEAP_BASE) / 8;
  u64 full = n / 8;
  memset(s, 8, full);
  u64 i = full;
  if (n % 8) s[i++] = (unsigned char)(n % 8);
  u64 tot = (end - user) / 8;
  if (i < tot) memset(s + i, 0xfa, tot - i);
}

void* heap_alloc(u64 n, u64 align) {
  if (!inited) heap_init();
  if (n > (1ull << 40)) return 0;
  u64 need = 32 + ((n + 15) & ~15ull) + 16 + (align > 16 ? align : 0);
  int c = class_of(need);
  if (c < 0) return 0;
  u64 total = class_size(c);
  lock();
  if (g_sim) {
    ++S.allocs;
    if (used + total > mem_cap) {
      unlock();
      rt_die(OUT_MEMLIMIT, 0, "runaway memory use: more than %llu bytes allocated",
             (unsigned long long)mem_cap);
    }
  }
  u64 b = 0;
  Fl& l = fl[c];
  if (l.head && align <= 16) {
    bool take = policy == 1 || !g_sim || l.bytes > (total < 65536 ? 1024 * 1024 : 32u << 20);
    if (policy == 2) take = l.bytes > (8u << 20);
    if (take) {
      b = l.head;
      l.head = ((Hdr*)b)->next;
      if (!l.head) l.tail = 0;
      l.bytes -= total;
    }
  }
  if (!b) {
    if (bump + total > HEAP_BASE + HEAP_SIZE) {
      unlock();
      if (g_sim) rt_die(OUT_MEMLIMIT, 0, "heap arena exhausted");
      return 0;
    }
    b = bump;
    bump += total;
    Hdr* h = (Hdr*)b;
    h->total = total;
  }
  used += total;
  unlock();
  Hdr* h = (Hdr*)b;
  h->n = n;
  h->cls = (u32)c;
  h->next = 0;
  u64 user = b + 32;
  if (align > 16) user = (user + align - 1) & ~(align - 1);
  // The word before the user pointer leads back to the header.
  Hdr* ph = (Hdr*)(user - 32);
  if ((u64)ph != b) { ph->total = b; ph->n = n; ph->cls = 0xffffffffu; ph->magic = LIVE; }
  h->magic = LIVE;
  memset(g_hstate + (b - HEAP_BASE) / 8, 0xfa, (user - b) / 8);
  set_state(user, n, b + total);
  if (g_sim) {
    if (fill_on) {
      unsigned char v = fillb < 256 ? (unsigned char)fillb : (unsigned char)(mix(user) | 1);
      memset((void*)user, v, n);
    }
    if (g_race) race_alloc(user, n);
  }
  return (void*)user;
}

static Hdr* base_of(void* p) {
  Hdr* h = (Hdr*)((u64)p - 32);
  if (h->cls == 0xffffffffu) return (Hdr*)h->total;
  return h;
}

// Blocks that simulated code (not the harness) got from operator new and has not given back.
static u64 app_blocks, app_bytes;
static const u64 APP = 0xa99a99a9;
extern "C" void rt_heap_live(u64* blocks, u64* bytes) { *blocks = app_blocks; *bytes = app_bytes; }

void heap_free(void* p, const void* pc) {
  if (!p) return;
  u64 a = (u64)p;
  if (a < HEAP_BASE || a >= HEAP_BASE + HEAP_SIZE) {
    if (g_sim) rt_die_memerr("free of a pointer that is not from the heap", p, pc);
    return;
  }
  Hdr* ph = (Hdr*)(a - 32);
  if (ph->magic != LIVE) {
    if (g_sim) rt_die_memerr(ph->magic == DEAD ? "double free" : "free of an invalid pointer", p, pc);
    return;
  }
  Hdr* h = base_of(p);
  u64 n = h->n;
  lock();
  if (h->next == APP) {
    --app_blocks;
    app_bytes -= n;
  }
  ph->magic = DEAD;
  h->magic = DEAD;
  memset(g_hstate + (a - HEAP_BASE) / 8, 0xfd, (n + 7) / 8);
  if (g_sim) memset(p, 0xdb, n < 65536 ? n : 65536);
  if (ph != h) { h->cls = class_of(h->total); }
  if ((u64)h < sim_base) { unlock(); return; }     // from before the simulation: never reused
  Fl& l = fl[h->cls];
  h->next = 0;
  used -= h->total < used ? h->total : used;
  if (policy == 1) {
    h->next = l.head;
    l.head = (u64)h;
    if (!l.tail) l.tail = (u64)h;
  } else {
    if (l.tail) ((Hdr*)l.tail)->next = (u64)h; else l.head = (u64)h;
    l.tail = (u64)h;
  }
  l.bytes += h->total;
  unlock();
}

extern "C" {
void* malloc(size_t n) {
  void* p = heap_alloc(n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { heap_free(p, __builtin_return_address(0)); }
void* calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return 0; }
  void* p = malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return 0; }
  u64 old = ((Hdr*)((u64)p - 32))->n;
  void* q = malloc(n);
  if (!q) return 0;
  memcpy(q, p, old < n ? old : n);
  heap_free(p, __builtin_return_address(0));
  return q;
}
void* memalign(size_t al, size_t n) { return heap_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = heap_alloc(n, al);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return heap_alloc(n, 4096); }
void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((u64)p - 32))->n : 0; }
void cfree(void* p) { free(p); }
}

static void* op_new(size_t n, size_t al, bool nothrow) {
  if (g_on && fault(F_ALLOC)) {
    if (nothrow) return 0;
    throw std::bad_alloc();
  }
  void* p = heap_alloc(n, al);
  if (p && g_on) {
    base_of(p)->next = APP;
    ++app_blocks;
    app_bytes += n;
  }
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return op_new(n, 16, false); }
void* operator new[](size_t n) { return op_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p, __builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p, __builtin_return_address(0)); }
