// Allocation failure inside the C engines (expat, zlib, minizip, the bundled
// unzip) and the library's own C allocations, wrapped at link time.
#ifndef SIM_SIMALLOC_H
#define SIM_SIMALLOC_H
#include <stddef.h>
#include <stdint.h>
#include "core.h"
namespace simalloc {
struct Plan {
  enum Mode { kNone, kAt, kFrom, kRate, kLarge, kBudget } mode = kNone;
  uint64_t k = 0;        // which call, one in how many, size, bytes
  uint64_t seed = 0;
};
Plan plan(sim::Ctx& c);
void start(const Plan& p);
void stop();
uint64_t failures();     // since start()
uint64_t calls();
bool supported();
}
#endif
