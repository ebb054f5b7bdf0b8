#include "simmem.h"
#include "core.h"
#include <string.h>
#include <unordered_map>
#if !defined(SIM_VARIANT_SCHED)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
namespace sim { extern __thread int t_in_harness; }
namespace simmem {
// Open-addressing table in static memory: must not allocate.
static const size_t kCap = 1u << 20;
struct Slot { const volatile void* p; size_t n; uint64_t epoch; };  // p==1: deleted; other epoch: empty
static uint64_t g_epoch = 0;
static Slot* g_tab = NULL;
static bool g_on = false, g_installed = false;
static Report R;
static size_t h(const volatile void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL) >> 44; }
static void on_malloc(const volatile void* p, size_t n) {
  if (!g_on || sim::t_in_harness || !p) return;
  if (n > R.largest) R.largest = n;
  R.live += n; if (R.live > R.peak) R.peak = R.live;
  R.count++; 
  size_t i = h(p);
  for (size_t k = 0; k < kCap; ++k, i = (i + 1) & (kCap - 1))
    if (g_tab[i].epoch != g_epoch || g_tab[i].p == (void*)1) { g_tab[i].p = p; g_tab[i].n = n; g_tab[i].epoch = g_epoch; R.outstanding++; return; }
}
static void on_free(const volatile void* p) {
  if (!g_on || !p) return;
  size_t i = h(p);
  for (size_t k = 0; k < kCap; ++k, i = (i + 1) & (kCap - 1)) {
    if (g_tab[i].epoch != g_epoch) return;
    if (g_tab[i].p == p) { R.live -= g_tab[i].n; R.outstanding--; g_tab[i].p = (void*)1; return; }
  }
}
bool supported() {
#if defined(SIM_VARIANT_SCHED)
  return false;
#else
  return true;
#endif
}
void start() {
#if !defined(SIM_VARIANT_SCHED)
  if (!g_installed) {
    static Slot tab[kCap]; g_tab = tab;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); g_installed = true;
  }
#endif
  ++g_epoch;
  memset(&R, 0, sizeof R);
  g_on = true;
}
void stop() { g_on = false; }
Report report() { return R; }
size_t an_outstanding_size() { for (size_t i = 0; g_tab && i < kCap; ++i) if (g_tab[i].epoch == g_epoch && g_tab[i].p != (void*)1) return g_tab[i].n; return 0; }
static void reset(sim::Ctx&) { g_on = false; }
static sim::ResetHook hook(reset);
}
