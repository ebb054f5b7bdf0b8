// The thread simulator. Bodies run on real threads of which exactly one
// executes at any time; every load, store and branch of library code, every
// lock, guarded initialisation and file call is a point at which the seeded
// scheduler may hand over to another thread.
#ifndef SIM_SCHED_H
#define SIM_SCHED_H
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>
#include "core.h"

namespace sched {

struct Plan {
  // Upper bounds of the gaps, in events, between two pre-emptions.
  uint32_t gap_any = 20000;   // any instrumented access or branch
  uint32_t gap_hot = 40;      // accesses to process-wide data, locks, guards, file calls
  uint64_t max_events = 200000000;
};
Plan plan(sim::Ctx& c);

// Runs the bodies to completion under one seeded schedule. Reports a deadlock
// or lack of progress as a violation.
void run(sim::Ctx& c, const Plan& p, const std::vector<std::function<void()> >& bodies);
// A scheduling point (hot).
void point(const char* what);
// Hands over to another thread.
void yield();
// The index of the calling simulated thread, -1 outside.
int self();
uint64_t switches();

}  // namespace sched

namespace sim {
// Runs fn in a forked child whose process-wide state is that of this process.
// What the child records (choices, log, counters) is carried over when
// `account` is set; false with *how if the child crashed or hung.
bool in_child(Ctx& c, bool account, const std::function<std::string()>& fn, std::string* result, std::string* how);
}
#endif
