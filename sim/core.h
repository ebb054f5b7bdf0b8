// Core of the deterministic simulator: the choice stream, the run context, the
// event log, fault accounting, the run registry.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <stdarg.h>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Violation {
  std::string cls;
  std::string msg;
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
};

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(), s.size(), h);
}
// A printable digest of data for log lines.
std::string digest(const std::string& s);

// Marks code that belongs to the harness for allocation accounting.
struct InHarness {
  InHarness();
  ~InHarness();
};

class Ctx {
 public:
  Ctx();
  // --- choices -------------------------------------------------------------
  uint32_t choose(uint32_t n);                    // uniform in [0,n)
  bool chance(uint32_t num, uint32_t den);        // replays to false on 0
  // Integer in [lo,hi], small values favoured.
  uint32_t range(uint32_t lo, uint32_t hi);
  // Small-biased size up to max.
  uint32_t size_upto(uint32_t max);
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((uint32_t)v.size())]; }
  // Random byte string that costs only a few draws (expanded by a local PRNG).
  std::string blob(uint32_t n);
  uint64_t seed64();                              // two draws

  // --- log and accounting --------------------------------------------------
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // Detail for the reader of a replay: not part of the history's identity.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void fault(const char* kind);                   // an injected fault fired
  void injected(const char* kind, uint64_t n);   // counted as a fault, without making the run non-trivial
  void probe(const char* name);                   // a rare condition was hit
  void state(uint64_t h);                         // a distinct state was reached
  void step();                                    // simulated step; bounded
  void tick(uint64_t us) { now_us += us; }

  // --- verdicts ------------------------------------------------------------
  [[noreturn]] void fail(const char* cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  // Deferred failure for use inside callbacks through C frames.
  void fail_later(const char* cls, const char* fmt, ...)
      __attribute__((format(printf, 3, 4)));
  void check_deferred();

  // --- run state -----------------------------------------------------------
  bool replay = false;
  std::vector<uint32_t> in;                       // replay input
  size_t pos = 0;
  Rng rng{0};
  uint64_t nontrivial = 0;                        // set by properties
  uint64_t now_us = 0;
  uint64_t steps = 0;
  uint64_t max_steps = 2000000;
  uint64_t log_hash = 1469598103934665603ULL;
  bool keep_log = false;
  std::vector<std::string> lines;
  bool has_deferred = false;
  Violation deferred;
  bool thorough = false;
  std::vector<uint32_t>* tap = NULL;              // copies every draw here
};

extern Ctx* g_ctx;

// Shared-memory record of the draws of the current run (survives a crash).
struct Record {
  uint64_t run;
  uint32_t n;
  uint32_t cap;
  uint32_t draws[1];
};
extern Record* g_rec;

// Draws made within this scope repeat the given ones and leave no trace in the
// run's record, log or accounting.
struct Again {
  Again(Ctx& c, const std::vector<uint32_t>& draws);
  ~Again();
 private:
  Ctx& c_; bool replay_, keep_; std::vector<uint32_t> in_; size_t pos_; uint64_t hash_, steps_, now_, nontrivial_; Record* rec_; std::vector<uint32_t>* tap_;
};

struct Stats {
  uint64_t runs = 0, draws = 0, steps = 0, sim_us = 0, nontrivial = 0, doubled = 0;
  std::map<std::string, uint64_t> faults;
  std::map<std::string, uint64_t> probes;
  std::set<uint64_t> log_hashes;
  std::set<uint64_t> nontrivial_hashes;
  std::set<uint64_t> states;
};
extern Stats g_stats;

typedef void (*RunFn)(Ctx&);
struct Prop {
  const char* id;
  RunFn run;
  const char* sample_note;
};
void register_prop(const char* id, RunFn fn);
struct Registrar { Registrar(const char* id, RunFn fn) { register_prop(id, fn); } };
#define SIM_PROP(ID, FN) static ::sim::Registrar reg_##ID(#ID, FN)

// Reset every simulated component (called before each run).
void reset_world(Ctx& c);
void add_reset_hook(void (*fn)(Ctx&));
struct ResetHook { explicit ResetHook(void (*fn)(Ctx&)) { add_reset_hook(fn); } };

std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string& s, size_t max = 120);

}  // namespace sim
#endif
