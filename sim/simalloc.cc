#include "simalloc.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
namespace sim { extern __thread int t_in_harness; }
namespace simalloc {
namespace {
Plan g_plan; bool g_on = false; uint64_t g_calls = 0, g_failures = 0; int64_t g_left = 0; sim::Rng g_rng(0);
// minizip's writer (a system library, not part of the tree) uses this block
// without looking: not a failure the library could report.
bool unchecked(const void* caller) {
  Dl_info i; memset(&i, 0, sizeof i);
  return dladdr((void*)caller, &i) && i.dli_sname && strncmp(i.dli_sname, "zipOpenNewFileInZip", 19) == 0;
}
bool deny(const char* kind, size_t n, const void* caller) {
  if (!g_on || sim::t_in_harness) return false;
  ++g_calls; bool d = false;
  switch (g_plan.mode) {
    case Plan::kNone: break;
    case Plan::kAt: d = g_calls == g_plan.k; break;
    case Plan::kFrom: d = g_calls >= g_plan.k; break;
    case Plan::kRate: d = g_rng.next() % g_plan.k == 0; break;
    case Plan::kLarge: d = n >= g_plan.k; break;
    case Plan::kBudget: d = (int64_t)n > g_left; if (!d) g_left -= n; break;
  }
  if (!d) return false;
  sim::InHarness ih;
  if (unchecked(caller)) return false;
  ++g_failures; sim::g_ctx->fault(kind); sim::g_ctx->log("%s of %zu bytes fails (call %llu)", kind, n, (unsigned long long)g_calls);
  return true;
}
void reset(sim::Ctx&) { g_on = false; }
sim::ResetHook hook(reset);
}  // namespace
Plan plan(sim::Ctx& c) {
  Plan p;
  switch (c.choose(5)) {
    case 0: p.mode = Plan::kAt; p.k = 1 + (c.choose(3) ? c.choose(25) : c.choose(200)); break;
    case 1: p.mode = Plan::kFrom; p.k = 1 + (c.choose(3) ? c.choose(25) : c.choose(200)); break;
    case 2: p.mode = Plan::kRate; p.k = 2 + c.choose(30); p.seed = c.seed64(); break;
    case 3: p.mode = Plan::kLarge; p.k = 16u << c.choose(15); break;
    default: p.mode = Plan::kBudget; p.k = 64u << c.choose(14); break;
  }
  return p;
}
void start(const Plan& p) { g_plan = p; g_calls = g_failures = 0; g_left = (int64_t)p.k; g_rng = sim::Rng(p.seed); g_on = true; }
void stop() { g_on = false; }
uint64_t failures() { return g_failures; }
uint64_t calls() { return g_calls; }
bool supported() {
#ifdef SIM_VARIANT_ALLOC
  return true;
#else
  return false;
#endif
}
}  // namespace simalloc
#ifdef SIM_VARIANT_ALLOC
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { return simalloc::deny("malloc", n, __builtin_return_address(0)) ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t n) { return simalloc::deny("calloc", a * n, __builtin_return_address(0)) ? NULL : __real_calloc(a, n); }
void* __wrap_realloc(void* p, size_t n) { return simalloc::deny("realloc", n, __builtin_return_address(0)) ? NULL : __real_realloc(p, n); }
void __wrap_free(void* p) { __real_free(p); }
}
#endif
