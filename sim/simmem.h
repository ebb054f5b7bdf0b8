// Allocation accounting of library code (the harness marks itself InHarness).
#ifndef SIM_SIMMEM_H
#define SIM_SIMMEM_H
#include <stddef.h>
#include <stdint.h>
namespace simmem {
struct Report { size_t largest, live, peak, count, outstanding; };
// Start accounting: every block allocated outside the harness from now on.
void start();
void stop();
Report report();
// Size of some outstanding block (for messages), 0 if none.
size_t an_outstanding_size();
bool supported();
}
#endif
