// C03: the worker pool.
#include "sim.h"
#include <errno.h>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <system_error>
#include <thread>
#include "src/utils/threadpool.h"

using namespace sim;

namespace {

// Pieces of one workload; every job has a slot that counts how often it ran.
struct World {
  std::vector<std::unique_ptr<std::atomic<int>>> ran;
  std::atomic<int> alive_closures{0};
  std::atomic<int> after_shutdown{0};
  std::atomic<bool> down{false};
  std::mutex m;
  std::condition_variable cv;
  int at_barrier = 0;
};

// Counts copies of the closure, to see that queued closures are destroyed.
struct Token {
  World* w;
  explicit Token(World* w) : w(w) { ++w->alive_closures; }
  Token(const Token& o) : w(o.w) { ++w->alive_closures; }
  ~Token() { --w->alive_closures; }
  Token& operator=(const Token&) = delete;
};

void spin(int n) { volatile int x = 0; for (int i = 0; i < n; ++i) x = x + 1; }

void gen(Rng& r, Knobs& k, int tier) {
  gen_sched(r, k);
  k.set("threads", r.chance(0.15) ? 1 : r.range(2, r.chance(0.2) ? 12 : 5)); k.set("min.threads", 1);
  k.set("jobs", r.chance(0.1) ? 0 : r.range(1, r.chance(0.2) ? 60 : 15));
  k.set("enqueuers", r.chance(0.5) ? 0 : r.range(1, 4));
  k.set("nested", r.chance(0.5) ? 0 : r.range(1, 12));
  k.set("depth", r.range(1, 3)); k.set("min.depth", 1);
  k.set("barrier", (i64)r.below(4));
  k.set("behind", r.chance(0.5) ? 0 : r.range(1, 30));
  k.set("pause", r.chance(0.4) ? (i64)r.below(4) : 0);
  k.set("late", (i64)r.below(2));
  k.set("pools", r.range(1, 2)); k.set("min.pools", 1);
  k.set("work", (i64)r.below(60));
  // One of the threads of the first pool cannot be started: 1 + which.
  k.set("nostart", r.chance(0.2) ? 1 + (i64)r.below(k.get("threads")) : 0);
  k.set("tick_cap", 4000000);
}

void run_pool(World& w, int base) {
  Run& R = *sim::R;
  const int n = (int)R.knob("threads"), jobs = (int)R.knob("jobs"), enq = (int)R.knob("enqueuers");
  const int nested = (int)R.knob("nested"), depth = (int)R.knob("depth"), barrier = (int)R.knob("barrier");
  const int work = (int)R.knob("work"), pause = (int)R.knob("pause");
  w.down = false;
  w.at_barrier = 0;
  std::function<void(int, int)> nest;
  {
    std::unique_ptr<ThreadPool> made;
    int before = rt_live_threads();
    while (!made) {
      try {
        made.reset(new ThreadPool(n));
      } catch (const std::system_error&) {
        Oracle o;
        if (rt_live_threads() != before) violate("C03 threads left", sfmt("%d worker threads of a pool that could not be started", rt_live_threads() - before));
        note("pools_not_started");
      }
    }
    ThreadPool& pool = *made;
    auto job = [&w, work, pause](int id) {
      if (w.down) ++w.after_shutdown;
      ++*w.ran[id];
      spin(work);
      if (pause && id % 3 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(pause));
    };
    int id = base;
    if (pause & 1) std::this_thread::sleep_for(std::chrono::milliseconds(5));
    auto add = [&](int i) { Token t(&w); pool.Enqueue([t, job, i] { job(i); }); };
    for (int i = 0; i < jobs; ++i) add(id++);
    // Jobs that wait for each other: up to n of them must make progress together.
    if (barrier && n >= 1) {
      int parties = barrier == 1 ? n : barrier == 2 ? (n + 1) / 2 : 1;
      for (int i = 0; i < parties; ++i) {
        int my = id++;
        pool.Enqueue([&w, my, job, parties] {
          job(my);
          std::unique_lock<std::mutex> l(w.m);
          if (++w.at_barrier == parties) w.cv.notify_all();
          else w.cv.wait(l, [&] { return w.at_barrier >= parties; });
        });
      }
      // Others that do not wait, in the queue behind them.
      for (int i = 0; i < R.knob("behind"); ++i) add(id++);
      // The bodies wait for each other, so do not go on before all are through: further jobs that wait
      // could legitimately fill the pool.
      std::unique_lock<std::mutex> l(w.m);
      w.cv.wait(l, [&] { return w.at_barrier >= parties; });
    }
    std::vector<std::thread> ths;
    for (int e = 0; e < enq; ++e) {
      int from = id;
      id += 5;
      ths.emplace_back([&, from] { for (int i = 0; i < 5; ++i) add(from + i); });
    }
    // Jobs that hand further jobs to the pool, possibly while it is being shut down. The enqueuing
    // job still runs, so its pool thread is still there to serve the queue.
    nest = [&](int i, int d) {
      pool.Enqueue([&, i, d] {
        job(i);
        if (d > 1) nest(i + 1, d - 1);
      });
    };
    for (int i = 0; i < nested; ++i) { nest(id, depth); id += depth; }
    for (auto& t : ths) t.join();
    if (R.knob("late")) add(id++);
  }
  w.down = true;
}

int body() {
  Run& R = *sim::R;
  World w;
  int total_slots = (int)(R.knob("jobs") + R.knob("threads") + R.knob("enqueuers") * 5 +
                          R.knob("nested") * R.knob("depth") + R.knob("behind") + 8);
  for (int i = 0; i < total_slots * 2; ++i) w.ran.emplace_back(new std::atomic<int>(0));
  int pools = (int)R.knob("pools");
  int threads_before = rt_live_threads();
  for (int p = 0; p < pools; ++p) {
    int base = p * total_slots;
    run_pool(w, base);
    Oracle o;
    int n = (int)R.knob("threads"), b = (int)R.knob("barrier");
    int expect = (int)(R.knob("jobs") + (b ? (b == 1 ? n : b == 2 ? (n + 1) / 2 : 1) + R.knob("behind") : 0) + R.knob("enqueuers") * 5 +
                       R.knob("nested") * R.knob("depth") + R.knob("late"));
    for (int i = 0; i < total_slots; ++i) {
      int r = w.ran[base + i]->load();
      int want = i < expect ? 1 : 0;
      if (r < want) violate("C03 lost job", sfmt("job %d of %d did not run before shutdown returned", i, expect));
      if (r > want) violate("C03 repeated job", sfmt("job %d of %d ran %d times", i, expect, r));
    }
    if (w.alive_closures.load() != 0) violate("C03 leaked job", sfmt("%d queued closures never destroyed", w.alive_closures.load()));
    if (rt_live_threads() != threads_before)
      violate("C03 threads left", sfmt("%d worker threads still running after shutdown", rt_live_threads() - threads_before));
  }
  // Nothing may happen afterwards.
  for (int i = 0; i < 20; ++i) std::this_thread::yield();
  Oracle o;
  if (w.after_shutdown.load()) violate("C03 job after shutdown", sfmt("%d jobs started after shutdown returned", w.after_shutdown.load()));
  return 0;
}

void exec(Run& run) {
  RtConfig c = run.config();
  if (i64 x = run.knob("nostart")) { c.fp[F_THREAD].n_at = 1; c.fp[F_THREAD].at[0] = (u64)std::min<i64>(x, run.knob("threads")) - 1; c.fp[F_THREAD].action[0] = EAGAIN; }
  run.spawn(c, [] { rt_faults_enable(1); return body(); });
}
Register reg1({"C03", "pool", gen, exec});

}  // namespace
