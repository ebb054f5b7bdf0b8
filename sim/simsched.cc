#include "simsched.h"
#ifdef SIM_VARIANT_SCHED
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include "simfs.h"

extern "C" char __data_start, _end;
namespace sim { extern __thread int t_in_harness; }

namespace sched {
using sim::Ctx;
namespace {
struct Thread {
  int index;
  sem_t sem;
  pthread_t id;
  std::function<void()> body;
  bool done = false;
  const void* blocked = NULL;   // address waited for
  bool failed = false; sim::Violation v;
};
__thread Thread* t_self = NULL;
std::vector<Thread*>* g_threads = NULL;
Ctx* g_c = NULL;
Plan g_plan;
sem_t g_main;
bool g_on = false;
uint32_t g_gap_any = 0, g_gap_hot = 0;
uint64_t g_events = 0, g_switches = 0;
const char *g_lo, *g_hi;

struct H { H() { ++sim::t_in_harness; } ~H() { --sim::t_in_harness; } };

void new_gaps() {
  // Long runs are pre-empted less often as they go on.
  uint32_t scale = 1 + (uint32_t)(g_switches / 1500);
  g_gap_any = 1 + g_c->size_upto(g_plan.gap_any) * scale;
  g_gap_hot = g_plan.gap_hot ? 1 + g_c->size_upto(g_plan.gap_hot) * scale : 0xffffffffu;
}
// Chooses the next thread to run; NULL if none can.
Thread* choose_next(Thread* me) {
  std::vector<Thread*> r;
  for (size_t i = 0; i < g_threads->size(); ++i) { Thread* t = (*g_threads)[i]; if (!t->done && !t->blocked && t != me) r.push_back(t); }
  if (me && !me->done && !me->blocked && r.empty()) return me;
  if (r.empty()) return NULL;
  return r[g_c->choose((uint32_t)r.size())];
}
[[noreturn]] void die(const char* cls, const char* msg) {
  // Threads cannot be unwound from here: report and end the process. The
  // parent reads the class from the shared record's tail.
  std::string s = std::string("SCHED ") + cls + " " + msg + "\n";
  syscall(SYS_write, 2, s.data(), s.size());
  syscall(SYS_exit_group, strcmp(cls, "deadlock") == 0 ? 95 : 94);
  for (;;) {}
}
void hand_over(Thread* me) {
  H h;
  Thread* n = choose_next(me);
  new_gaps();
  if (n == me) return;
  if (!n) {
    if (me && me->done) { bool all = true; for (size_t i = 0; i < g_threads->size(); ++i) if (!(*g_threads)[i]->done) all = false; if (all) { sem_post(&g_main); return; } }
    die("deadlock", "every thread waits");
  }
  ++g_switches;
  g_c->log("switch %d -> %d after %llu", me ? me->index : -1, n->index, (unsigned long long)g_events);
  bool leaving = me && me->done;
  sem_post(&n->sem);
  if (me && !leaving) while (sem_wait(&me->sem) != 0) {}
}
inline void event(const void* addr, bool hot) {
  Thread* t = t_self;
  if (!t || !g_on || sim::t_in_harness) return;
  ++g_events;
  if (g_events > g_plan.max_events) die("no-progress", "the threads made no progress");
  bool go = --g_gap_any == 0;
  if (hot || ((const char*)addr >= g_lo && (const char*)addr < g_hi)) { if (--g_gap_hot == 0) go = true; }
  if (go) hand_over(t);
}
void block(const void* on) { Thread* t = t_self; t->blocked = on; hand_over(t); }
void wake(const void* on) { H h; for (size_t i = 0; i < g_threads->size(); ++i) if ((*g_threads)[i]->blocked == on) (*g_threads)[i]->blocked = NULL; }

void* entry(void* p) {
  Thread* t = (Thread*)p;
  while (sem_wait(&t->sem) != 0) {}
  t_self = t;
  try { t->body(); }
  catch (sim::Violation& v) { t->failed = true; t->v = v; }
  t->done = true;
  t_self = NULL;
  hand_over(t);
  return NULL;
}
void on_fs_call(const char*, const std::string&) { point("fs"); }
}  // namespace

Plan plan(Ctx& c) {
  Plan p;
  static const uint32_t any[] = {50, 1000, 20000, 200000}, hot[] = {2, 8, 40, 300, 0};
  p.gap_any = any[c.choose(4)];
  p.gap_hot = hot[c.choose(5)];
  return p;
}
void yield() { if (t_self && g_on) hand_over(t_self); }
int self() { return t_self ? t_self->index : -1; }
uint64_t switches() { return g_switches; }
void point(const char*) { if (!t_self || !g_on) return; int k = sim::t_in_harness; sim::t_in_harness = 0; event(NULL, true); sim::t_in_harness = k; }

void run(Ctx& c, const Plan& p, const std::vector<std::function<void()> >& bodies) {
  H h;
  std::vector<Thread*> ts;
  g_threads = &ts; g_c = &c; g_plan = p; g_events = 0; g_switches = 0;
  g_lo = &__data_start; g_hi = &_end;
  cpu_set_t old, one; sched_getaffinity(0, sizeof old, &old);
  CPU_ZERO(&one); CPU_SET(sched_getcpu(), &one); sched_setaffinity(0, sizeof one, &one);
  sem_init(&g_main, 0, 0);
  for (size_t i = 0; i < bodies.size(); ++i) {
    Thread* t = new Thread; t->index = (int)i; sem_init(&t->sem, 0, 0); t->body = bodies[i]; ts.push_back(t);
  }
  void (*old_call)(const char*, const std::string&) = simfs::on_call;
  if (!old_call) simfs::on_call = on_fs_call;
  for (size_t i = 0; i < ts.size(); ++i) {
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    if (pthread_create(&ts[i]->id, &a, entry, ts[i]) != 0) { perror("pthread_create"); syscall(SYS_exit_group, 2); }
    pthread_attr_destroy(&a);
  }
  g_on = true;
  new_gaps();
  Thread* first = ts[c.choose((uint32_t)ts.size())];
  sem_post(&first->sem);
  while (sem_wait(&g_main) != 0) {}
  g_on = false;
  for (size_t i = 0; i < ts.size(); ++i) pthread_join(ts[i]->id, NULL);
  simfs::on_call = old_call;
  sched_setaffinity(0, sizeof old, &old);
  c.steps += g_switches;
  bool failed = false; sim::Violation v;
  for (size_t i = 0; i < ts.size(); ++i) { if (ts[i]->failed && !failed) { failed = true; v = ts[i]->v; } sem_destroy(&ts[i]->sem); delete ts[i]; }
  g_threads = NULL;
  if (failed) throw v;
}

}  // namespace sched

using namespace sched;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; ++p) *p = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t*) { event(NULL, false); }
#define ACC(n) void __sanitizer_cov_load##n(void* p) { event(p, false); } void __sanitizer_cov_store##n(void* p) { event(p, false); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)

// Guarded initialisation of function-local statics.
static std::map<const void*, int>* busy() { static std::map<const void*, int>* m = new std::map<const void*, int>; return m; }
int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!t_self || !g_on) { if (b[1]) { static const char m[] = "recursive static initialisation\n"; syscall(SYS_write, 2, m, sizeof m - 1); abort(); } b[1] = 1; return 1; }
  event(g, true);
  while (b[1]) { { sched::H h; block(g); } if (b[0]) return 0; }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if (t_self && g_on) { wake(g); event(g, true); } }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; if (t_self && g_on) wake(g); }

#define REAL(ret, name, ...) typedef ret (*name##_fnp)(__VA_ARGS__); static name##_fnp real_##name() { static name##_fnp f = NULL; if (!f) f = (name##_fnp)dlsym(RTLD_NEXT, #name); return f; }
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!t_self || !g_on || sim::t_in_harness) return real_pthread_mutex_lock()(m);
  event(m, true);
  for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; sched::H h; block(m); }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = real_pthread_mutex_unlock()(m);
  if (t_self && g_on && !sim::t_in_harness) { wake(m); event(m, true); }
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!t_self || !g_on || sim::t_in_harness) return real_pthread_rwlock_rdlock()(m);
  event(m, true);
  for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; sched::H h; block(m); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!t_self || !g_on || sim::t_in_harness) return real_pthread_rwlock_wrlock()(m);
  event(m, true);
  for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; sched::H h; block(m); }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  int r = real_pthread_rwlock_unlock()(m);
  if (t_self && g_on && !sim::t_in_harness) { wake(m); event(m, true); }
  return r;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!t_self || !g_on || sim::t_in_harness) return real_pthread_once()(o, fn);
  event(o, true);
  for (;;) {
    bool taken; { sched::H h; taken = busy()->count(o) > 0; if (!taken) (*busy())[o] = 1; }
    if (!taken) break;
    sched::H h; block(o);
  }
  int r;
  try { r = real_pthread_once()(o, fn); } catch (...) { sched::H h; busy()->erase(o); wake(o); throw; }
  { sched::H h; busy()->erase(o); }
  wake(o); event(o, true);
  return r;
}
}  // extern "C"

// ---------------------------------------------------------------------------
namespace sim {
static void put32(std::string* s, uint64_t v) { s->append((const char*)&v, 8); }
static void puts_(std::string* s, const std::string& v) { put32(s, v.size()); s->append(v); }
struct Cur { const std::string& s; size_t p; bool ok = true;
  uint64_t u() { uint64_t v = 0; if (p + 8 > s.size()) { ok = false; return 0; } memcpy(&v, s.data() + p, 8); p += 8; return v; }
  std::string str() { uint64_t n = u(); if (p + n > s.size()) { ok = false; return ""; } std::string r = s.substr(p, n); p += n; return r; } };
static void on_real(int) { static const char m[] = "SIM-STUCK\n"; syscall(SYS_write, 2, m, sizeof m - 1); syscall(SYS_exit_group, 97); }

bool in_child(Ctx& c, bool account, const std::function<std::string()>& fn, std::string* result, std::string* how) {
  InHarness ih;
  int fds[2]; if (pipe(fds) != 0) { perror("pipe"); exit(2); }
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    t_in_harness = 0;
    syscall(SYS_close, fds[0]);
    signal(SIGALRM, on_real);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, NULL);
    it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, NULL);
    if (!account) g_rec = NULL;
    Stats keep; std::swap(keep, g_stats);
    std::string out, res; bool bad = false; Violation v;
    try { res = fn(); }
    catch (Violation& x) { bad = true; v = x; }
    catch (...) { bad = true; v.cls = "uncaught-exception"; v.msg = "an exception escaped to the caller"; }
    InHarness ih2;
    put32(&out, bad); puts_(&out, v.cls); puts_(&out, v.msg); puts_(&out, res);
    put32(&out, c.log_hash); put32(&out, c.pos); put32(&out, c.steps); put32(&out, c.nontrivial); put32(&out, c.now_us); put32(&out, c.rng.s);
    put32(&out, c.lines.size()); for (size_t i = 0; i < c.lines.size(); ++i) puts_(&out, c.lines[i]);
    put32(&out, g_stats.faults.size()); for (auto& i : g_stats.faults) { puts_(&out, i.first); put32(&out, i.second); }
    put32(&out, g_stats.probes.size()); for (auto& i : g_stats.probes) { puts_(&out, i.first); put32(&out, i.second); }
    put32(&out, g_stats.states.size()); for (uint64_t i : g_stats.states) put32(&out, i);
    size_t off = 0;
    while (off < out.size()) { long w = syscall(SYS_write, fds[1], out.data() + off, out.size() - off); if (w < 0 && errno == EINTR) continue; if (w <= 0) break; off += w; }
    syscall(SYS_exit_group, 0);
  }
  syscall(SYS_close, fds[1]);
  std::string in; char buf[65536]; long n;
  while ((n = syscall(SYS_read, fds[0], buf, sizeof buf)) != 0) { if (n < 0) { if (errno == EINTR) continue; break; } in.append(buf, n); }
  syscall(SYS_close, fds[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (WIFEXITED(st)) switch (WEXITSTATUS(st)) {
      case 94: *how = "no-progress"; break; case 95: *how = "deadlock"; break; case 97: *how = "stuck"; break; case 98: *how = "hang"; break; case 99: *how = "memory-error"; break;
      default: *how = format("exit-%d", WEXITSTATUS(st));
    } else *how = format("signal-%d", WTERMSIG(st));
    return false;
  }
  Cur q = {in, 0};
  bool bad = q.u(); Violation v; v.cls = q.str(); v.msg = q.str(); *result = q.str();
  if (account) {
    c.log_hash = q.u(); c.pos = q.u(); c.steps = q.u(); c.nontrivial = q.u(); c.now_us = q.u(); c.rng.s = q.u();
    c.lines.clear(); for (uint64_t i = q.u(); i-- > 0 && q.ok;) c.lines.push_back(q.str());
    for (uint64_t i = q.u(); i-- > 0 && q.ok;) { std::string k = q.str(); g_stats.faults[k] += q.u(); }
    for (uint64_t i = q.u(); i-- > 0 && q.ok;) { std::string k = q.str(); g_stats.probes[k] += q.u(); }
    for (uint64_t i = q.u(); i-- > 0 && q.ok;) { uint64_t h = q.u(); if (g_stats.states.size() < 4000000) g_stats.states.insert(h); }
    if (!q.ok) { *how = "garbled"; return false; }
  }
  if (bad) throw v;
  return true;
}
}  // namespace sim
#endif
