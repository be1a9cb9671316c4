// What scenarios see: knobs, runs, incarnations, oracles.
#ifndef SIM_H_
#define SIM_H_
#include "rt/rt.h"
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace sim {

struct Knobs {
  std::vector<std::pair<std::string, i64>> v;
  i64 get(const char* n, i64 def = 0) const;
  void set(const char* n, i64 x);
  bool has(const char* n) const;
};

// State of one simulated run, in the controlling process and (by fork) in its incarnations.
struct Run {
  Knobs k;
  bool replay = false;
  const std::vector<std::vector<Dec>>* rep = nullptr;   // per incarnation, when replaying
  int n_inc = 0;
  bool verbose = false;

  i64 knob(const char* n, i64 def = 0) const { return k.get(n, def); }
  // Configuration of the next incarnation, from the scheduling knobs.
  RtConfig config();
  // Runs fn as a simulated process. Anything but a clean end that is not in 'allowed' is a violation.
  Outcome spawn(const RtConfig& cfg, const std::function<int()>& fn, u32 allowed = 0);
  // Several processes of one machine, taking turns at their file operations. 'after': may only start
  // when that process has ended (-1: at any time).
  struct Proc { RtConfig cfg; std::function<int()> fn; int after; };
  std::vector<Outcome> spawn_many(const std::vector<Proc>& procs, u64 seed, u32 quantum, u32 allowed = 0);
  // Ends the run with a violation. cls is stable text, detail free text.
  void fail(const std::string& cls, const std::string& detail) __attribute__((noreturn));
  void skip_note(const std::string&) {}
  u64 seed_of(const char* purpose) const;   // derived from the workload seed
};

// Bits for 'allowed'.
#define ALLOW(k) (1u << (k))

extern Run* R;
void note(const char* key, i64 add = 1);    // counted in the evidence ("coverage counters"), controller or child

// In a simulated process: everything inside is invisible to the simulation.
struct Oracle {
  Oracle() { rt_ignore_begin(); }
  ~Oracle() { rt_ignore_end(); }
};
// In a simulated process: report a violation. cls is stable.
void violate(const std::string& cls, const std::string& detail) __attribute__((noreturn));

struct Scenario {
  const char* prop;
  const char* what;
  void (*gen)(Rng& r, Knobs& k, int tier);
  void (*exec)(Run& run);
  void (*init)() = 0;        // once, before the first run
  unsigned every = 1;        // costly scenarios: only every so many of its turns, the others go to the next one
};
const std::vector<Scenario>& scenarios();
struct Register { Register(const Scenario& s); };

// Knob generators shared by the scenarios.
void gen_sched(Rng& r, Knobs& k);        // schedule strategy, heap, clock
void gen_sched_seq(Rng& r, Knobs& k);    // canonical schedule

// Blobs: bytes handed from an incarnation to the controller or to a later incarnation.
void blob_put(const std::string& s);           // child: result of this incarnation
std::string blob_get();                        // controller, or later incarnation via blob2
std::string sfmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string double_bits(double d);

}  // namespace sim
#endif
