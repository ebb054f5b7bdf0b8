#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <new>

namespace sim {

Ctx* g_ctx = NULL;
Record* g_rec = NULL;
Stats g_stats;
static std::map<std::string, RunFn>& props() { static std::map<std::string, RunFn>* m = new std::map<std::string, RunFn>; return *m; }
static std::vector<void (*)(Ctx&)>& hooks() { static std::vector<void (*)(Ctx&)>* v = new std::vector<void (*)(Ctx&)>; return *v; }
void register_prop(const char* id, RunFn fn) { props()[id] = fn; }
void add_reset_hook(void (*fn)(Ctx&)) { hooks().push_back(fn); }
void reset_world(Ctx& c) { for (size_t i = 0; i < hooks().size(); ++i) hooks()[i](c); }

__thread int t_in_harness = 0;
InHarness::InHarness() { ++t_in_harness; }
InHarness::~InHarness() { --t_in_harness; }

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
  return h;
}
std::string digest(const std::string& s) {
  return format("%zu:%08x", s.size(), (unsigned)(hash_str(s) >> 32));
}
std::string format(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char buf[4096];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}
std::string quote(const std::string& s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char ch = s[i];
    if (ch == '\n') o += "\\n"; else if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    else o += ch;
  }
  if (s.size() > max) o += "...";
  return o + "\"";
}

Ctx::Ctx() {}

uint32_t Ctx::choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay) {
    v = pos < in.size() ? in[pos] % n : 0;
  } else {
    v = (uint32_t)(rng.next() % n);
  }
  ++pos;
  if (tap) { InHarness ih; tap->push_back(v); }
  if (g_rec && g_rec->n < g_rec->cap) g_rec->draws[g_rec->n++] = v;
  return v;
}
Again::Again(Ctx& c, const std::vector<uint32_t>& draws) : c_(c), replay_(c.replay), keep_(c.keep_log), in_(c.in), pos_(c.pos), hash_(c.log_hash), steps_(c.steps), now_(c.now_us), nontrivial_(c.nontrivial), rec_(g_rec), tap_(c.tap) {
  InHarness ih;
  c.replay = true; c.keep_log = false; c.in = draws; c.pos = 0; g_rec = NULL; c.tap = NULL;
}
Again::~Again() {
  InHarness ih;
  c_.replay = replay_; c_.keep_log = keep_; c_.in.swap(in_); c_.pos = pos_; c_.log_hash = hash_; c_.steps = steps_; c_.now_us = now_; c_.nontrivial = nontrivial_; g_rec = rec_; c_.tap = tap_;
}
bool Ctx::chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }
uint32_t Ctx::range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t Ctx::size_upto(uint32_t max) {
  // Log-uniform-ish.
  uint32_t bits = 0; while ((1u << bits) <= max && bits < 31) ++bits;
  uint32_t b = choose(bits + 1);
  uint32_t hi = b == 0 ? 0 : (1u << b) - 1;
  if (hi > max) hi = max;
  return choose(hi + 1);
}
uint64_t Ctx::seed64() { uint64_t a = choose(0x7fffffff); return (a << 31) ^ choose(0x7fffffff); }
std::string Ctx::blob(uint32_t n) {
  Rng r(seed64());
  uint32_t kind = choose(3);
  std::string s(n, 'a');
  for (uint32_t i = 0; i < n; ++i) {
    uint64_t x = r.next();
    s[i] = kind == 0 ? (char)('a' + x % 26) : kind == 1 ? (char)(x & 0xff) : (char)("ab\n\r\0 <&"[x % 8]);
  }
  return s;
}
void Ctx::log(const char* fmt, ...) {
  InHarness ih;
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  size_t len = strlen(buf);
  log_hash = hash_bytes(buf, len + 1, log_hash);
  if (keep_log && lines.size() < 5000) lines.push_back(buf);
}
void Ctx::note(const char* fmt, ...) {
  if (!keep_log) return;
  InHarness ih;
  char buf[16384];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (lines.size() < 5000) lines.push_back(buf);
}
void Ctx::fault(const char* kind) { InHarness ih; g_stats.faults[kind]++; log("FAULT %s", kind); nontrivial++; }
void Ctx::injected(const char* kind, uint64_t n) { InHarness ih; if (n) g_stats.faults[kind] += n; }
void Ctx::probe(const char* name) { InHarness ih; g_stats.probes[name]++; }
void Ctx::state(uint64_t h) { InHarness ih; if (g_stats.states.size() < 4000000) g_stats.states.insert(h); }
void Ctx::step() {
  if (++steps > max_steps) fail("no-progress", "more than %llu simulated steps", (unsigned long long)max_steps);
}
void Ctx::fail(const char* cls, const char* fmt, ...) {
  InHarness ih;
  char buf[4096];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  log("VIOLATION %s %s", cls, buf);
  Violation v; v.cls = cls; v.msg = buf;
  throw v;
}
void Ctx::fail_later(const char* cls, const char* fmt, ...) {
  InHarness ih;
  if (has_deferred) return;
  char buf[4096];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  log("VIOLATION %s %s", cls, buf);
  deferred.cls = cls; deferred.msg = buf; has_deferred = true;
}
void Ctx::check_deferred() { if (has_deferred) throw deferred; }

// ---------------------------------------------------------------------------
struct Outcome {
  bool violated = false;
  std::string cls, msg;
  uint64_t log_hash = 0;
  std::vector<std::string> lines;
  std::vector<uint32_t> draws;
};

static uint64_t run_seed(uint64_t seed, const std::string& prop, uint64_t run) {
  Rng r(seed * 0x9e3779b97f4a7c15ULL ^ hash_str(prop));
  uint64_t a = r.next();
  Rng q(a + run * 0xd1342543de82ef95ULL);
  q.next();
  return q.next();
}

static bool g_thorough = false;

// Executes one run in this process.
static Outcome execute(const std::string& prop, bool replay, uint64_t seed, const std::vector<uint32_t>& in,
                       bool keep_log, bool account) {
  Outcome o;
  Ctx c;
  c.replay = replay;
  if (replay) c.in = in; else c.rng = Rng(seed);
  c.keep_log = keep_log;
  c.thorough = g_thorough;
  g_ctx = &c;
  if (g_rec) g_rec->n = 0;
  reset_world(c);
  try {
    props()[prop](c);
    c.check_deferred();
  } catch (Violation& v) {
    o.violated = true; o.cls = v.cls; o.msg = v.msg;
  } catch (std::bad_alloc&) {
    o.violated = true; o.cls = "uncaught-bad_alloc"; o.msg = "std::bad_alloc escaped to the caller";
  } catch (...) {
    o.violated = true; o.cls = "uncaught-exception"; o.msg = "an exception escaped to the caller";
  }
  reset_world(c);
  g_ctx = NULL;
  o.log_hash = c.log_hash;
  o.lines.swap(c.lines);
  if (g_rec) o.draws.assign(g_rec->draws, g_rec->draws + g_rec->n);
  if (account) {
    g_stats.runs++; g_stats.draws += c.pos; g_stats.steps += c.steps; g_stats.sim_us += c.now_us;
    if (c.nontrivial) { g_stats.nontrivial++; g_stats.nontrivial_hashes.insert(c.log_hash); }
    g_stats.log_hashes.insert(c.log_hash);
  }
  return o;
}

static void on_cpu(int) {
  static const char m[] = "SIM-HANG\n";
  syscall(SYS_write, 2, m, sizeof m - 1);
  syscall(SYS_exit_group, 98);
}
static unsigned g_cpu_budget_s = 20;
static void arm() {
  struct itimerval it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = g_cpu_budget_s;
  setitimer(ITIMER_PROF, &it, NULL);
}

static Record* make_record(size_t cap) {
  size_t sz = sizeof(Record) + cap * sizeof(uint32_t);
  void* p = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  Record* r = (Record*)p; r->n = 0; r->cap = (uint32_t)cap; r->run = 0;
  return r;
}

// Executes one run in a forked child; classifies crashes.
static Outcome execute_forked(const std::string& prop, bool replay, uint64_t seed, const std::vector<uint32_t>& in,
                              bool keep_log, const std::vector<uint64_t>* before = NULL) {
  Outcome o;
  int fds[2];
  if (pipe(fds) != 0) { perror("pipe"); exit(2); }
  g_rec->n = 0;
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    syscall(SYS_close, fds[0]);
    int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
    if (!getenv("SIM_VERBOSE")) syscall(SYS_dup2, nul, 2);
    std::vector<uint32_t> none;
    if (before) for (size_t i = 0; i < before->size(); ++i) { arm(); execute(prop, false, (*before)[i], none, false, false); }
    arm();
    Outcome r = execute(prop, replay, seed, in, keep_log, false);
    std::string buf;
    char h[64]; snprintf(h, sizeof h, "%d %016llx\n", r.violated ? 1 : 0, (unsigned long long)r.log_hash);
    buf += h;
    buf += r.cls + "\n";
    std::string m = r.msg; std::replace(m.begin(), m.end(), '\n', ' ');
    buf += m + "\n";
    for (size_t i = 0; i < r.lines.size(); ++i) { std::string l = r.lines[i]; std::replace(l.begin(), l.end(), '\n', ' '); buf += l + "\n"; }
    size_t off = 0;
    while (off < buf.size()) { long w = syscall(SYS_write, fds[1], buf.data() + off, buf.size() - off); if (w <= 0) break; off += w; }
    syscall(SYS_exit_group, 0);
  }
  close(fds[1]);
  std::string buf; char tmp[65536]; ssize_t n;
  while ((n = read(fds[0], tmp, sizeof tmp)) > 0) buf.append(tmp, n);
  close(fds[0]);
  int st = 0; waitpid(pid, &st, 0);
  o.draws.assign(g_rec->draws, g_rec->draws + g_rec->n);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !buf.empty()) {
    size_t p = buf.find('\n'); std::string l0 = buf.substr(0, p);
    int v; unsigned long long h; sscanf(l0.c_str(), "%d %llx", &v, &h);
    o.violated = v; o.log_hash = h;
    size_t q = buf.find('\n', p + 1); o.cls = buf.substr(p + 1, q - p - 1);
    size_t r = buf.find('\n', q + 1); o.msg = buf.substr(q + 1, r - q - 1);
    size_t s = r + 1;
    while (s < buf.size()) { size_t e = buf.find('\n', s); if (e == std::string::npos) break; o.lines.push_back(buf.substr(s, e - s)); s = e + 1; }
  } else {
    o.violated = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { o.cls = "hang"; o.msg = "the code under test exceeded its CPU budget for one run"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { o.cls = "memory-error"; o.msg = "AddressSanitizer reported a memory error (bad access, double free, or unhandled signal)"; }
    else if (WIFSIGNALED(st)) { o.cls = "crash"; o.msg = format("the process died with signal %d", WTERMSIG(st)); }
    else { o.cls = "crash"; o.msg = format("the process ended with status %d", WEXITSTATUS(st)); }
  }
  return o;
}

// Executes several runs one after the other in one fresh child process and
// returns the outcome of the last (or of the first that violates).
static Outcome execute_sequence(const std::string& prop, uint64_t seed, const std::vector<uint64_t>& runs, bool keep_log);

static std::string jesc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

static double wall() { struct timeval tv; gettimeofday(&tv, NULL); return tv.tv_sec + tv.tv_usec / 1e6; }

static std::vector<uint32_t> shrink(const std::string& prop, std::vector<uint32_t> cur, const std::string& cls, double budget_s,
                                    int* attempts) {
  double t0 = wall();
  *attempts = 0;
  // Try a candidate; on success replace cur by the draws actually consumed.
  struct Try {
    const std::string& prop; const std::string& cls; int* attempts;
    bool operator()(std::vector<uint32_t>& cur, const std::vector<uint32_t>& cand) {
      ++*attempts;
      Outcome o = execute_forked(prop, true, 0, cand, false);
      if (o.violated && o.cls == cls) {
        std::vector<uint32_t> n = cand;
        if (o.draws.size() < n.size()) n.resize(o.draws.size());
        while (!n.empty() && n.back() == 0) n.pop_back();
        cur = n;
        return true;
      }
      return false;
    }
  } attempt = {prop, cls, attempts};
  bool progress = true;
  while (progress && wall() - t0 < budget_s) {
    progress = false;
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && wall() - t0 < budget_s; len /= 2) {
      for (size_t i = 0; i + len <= cur.size() && wall() - t0 < budget_s;) {
        std::vector<uint32_t> cand(cur);
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (cand != cur && attempt(cur, cand)) { progress = true; continue; }
        bool zero = true; for (size_t k = i; k < i + len; ++k) if (cur[k]) zero = false;
        if (!zero) {
          cand = cur; std::fill(cand.begin() + i, cand.begin() + i + len, 0u);
          if (attempt(cur, cand)) { progress = true; }
        }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < cur.size() && wall() - t0 < budget_s; ++i) {
      while (i < cur.size() && cur[i] > 0) {
        std::vector<uint32_t> cand(cur); cand[i] = cur[i] / 2;
        if (attempt(cur, cand)) { progress = true; if (wall() - t0 > budget_s) break; continue; }
        if (i < cur.size() && cur[i] > 1) { cand = cur; cand[i] = cur[i] - 1; if (attempt(cur, cand)) { progress = true; if (wall() - t0 > budget_s) break; continue; } }
        break;
      }
    }
  }
  return cur;
}

static void write_replay(const std::string& path, const std::string& prop, uint64_t seed, uint64_t run, const Outcome& o,
                         const std::vector<uint32_t>& draws, size_t orig, int attempts, const std::vector<uint64_t>* seq = NULL) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(2); }
  fprintf(f, "{\n \"property\": \"%s\",\n \"class\": \"%s\",\n \"message\": \"%s\",\n \"verif_seed\": %llu,\n \"run\": %llu,\n"
             " \"original_draws\": %zu,\n \"minimiser_attempts\": %d,\n \"thorough\": %d,\n \"log_hash\": \"%016llx\",\n \"choices\": [",
          prop.c_str(), jesc(o.cls).c_str(), jesc(o.msg).c_str(), (unsigned long long)seed, (unsigned long long)run, orig, attempts,
          g_thorough ? 1 : 0, (unsigned long long)o.log_hash);
  for (size_t i = 0; i < draws.size(); ++i) fprintf(f, "%s%u", i ? "," : "", draws[i]);
  if (seq) { fprintf(f, "],\n \"sequence\": ["); for (size_t i = 0; i < seq->size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)(*seq)[i]); }
  fprintf(f, "],\n \"log\": [\n");
  for (size_t i = 0; i < o.lines.size(); ++i) fprintf(f, "  \"%s\"%s\n", jesc(o.lines[i]).c_str(), i + 1 < o.lines.size() ? "," : "");
  fprintf(f, " ]\n}\n");
  fclose(f);
}

static std::vector<uint64_t> parse_list(const std::string& s);
// Minimal reader for our own replay files.
static bool read_replay(const std::string& path, std::string* prop, std::string* cls, std::vector<uint32_t>* ch, std::string* hash, bool* thorough, uint64_t* seed, std::vector<uint64_t>* seq) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) return false;
  std::string s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  struct G { static std::string str(const std::string& s, const char* k) {
    std::string key = std::string("\"") + k + "\": \""; size_t p = s.find(key); if (p == std::string::npos) return "";
    p += key.size(); size_t e = s.find('"', p); return s.substr(p, e - p); } };
  *prop = G::str(s, "property"); *cls = G::str(s, "class"); *hash = G::str(s, "log_hash");
  *thorough = s.find("\"thorough\": 1") != std::string::npos;
  size_t vs = s.find("\"verif_seed\": "); *seed = vs == std::string::npos ? 0 : strtoull(s.c_str() + vs + 14, NULL, 10);
  size_t sq = s.find("\"sequence\": ["); if (sq != std::string::npos) *seq = parse_list(s.substr(sq + 13));
  size_t p = s.find("\"choices\": ["); if (p == std::string::npos) return false;
  p += 12;
  while (p < s.size() && s[p] != ']') { char* e; unsigned long v = strtoul(s.c_str() + p, &e, 10); ch->push_back((uint32_t)v); p = e - s.c_str(); if (s[p] == ',') ++p; }
  return true;
}

static Outcome execute_sequence(const std::string& prop, uint64_t seed, const std::vector<uint64_t>& runs, bool keep_log) {
  std::vector<uint64_t> before; std::vector<uint32_t> none;
  for (size_t i = 0; i + 1 < runs.size(); ++i) before.push_back(run_seed(seed, prop, runs[i]));
  return execute_forked(prop, false, run_seed(seed, prop, runs.back()), none, keep_log, &before);
}
static std::vector<uint64_t> parse_list(const std::string& s) {
  std::vector<uint64_t> v; size_t p = 0;
  while (p < s.size()) { char* e; v.push_back(strtoull(s.c_str() + p, &e, 10)); p = e - s.c_str(); if (p < s.size() && s[p] == ',') ++p; else break; }
  return v;
}

static int main_impl(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k.size() > 2 && k.substr(0, 2) == "--") {
      if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) { a[k.substr(2)] = argv[i + 1]; ++i; } else a[k.substr(2)] = "1";
    }
  }
  g_thorough = a.count("thorough") > 0;
  g_rec = make_record(4000000);
  if (a.count("cpu-budget")) g_cpu_budget_s = atoi(a["cpu-budget"].c_str());
  signal(SIGPROF, on_cpu);
  if (a.count("list")) {
    for (std::map<std::string, RunFn>::iterator i = props().begin(); i != props().end(); ++i) puts(i->first.c_str());
    return 0;
  }
  if (a.count("replay")) {
    std::string prop, cls, hash; std::vector<uint32_t> ch; bool th; uint64_t vseed = 0; std::vector<uint64_t> seq;
    if (!read_replay(a["replay"], &prop, &cls, &ch, &hash, &th, &vseed, &seq)) { fprintf(stderr, "cannot read replay\n"); return 2; }
    g_thorough = th;
    if (!props().count(prop)) { fprintf(stderr, "unknown property\n"); return 2; }
    Outcome o = seq.empty() ? execute_forked(prop, true, 0, ch, true) : execute_sequence(prop, vseed, seq, true);
    char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)o.log_hash);
    if (!a.count("quiet")) for (size_t i = 0; i < o.lines.size(); ++i) puts(o.lines[i].c_str());
    if (o.violated) {
      bool same = o.cls == cls && (hash == h);
      printf("REPLAY property=%s class=%s hash=%s same=%d msg=%s\n", prop.c_str(), o.cls.c_str(), h, same ? 1 : 0, o.msg.c_str());
      return same ? 1 : 3;
    }
    printf("REPLAY property=%s held hash=%s\n", prop.c_str(), h);
    return 0;
  }
  std::string prop = a["prop"];
  if (!props().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  uint64_t seed = strtoull(a["seed"].c_str(), NULL, 10);
  if (a.count("shrink")) {
    uint64_t run = strtoull(a["run"].c_str(), NULL, 10);
    uint64_t rs = run_seed(seed, prop, run);
    std::vector<uint32_t> none;
    Outcome o1 = execute_forked(prop, false, rs, none, false);
    if (!o1.violated) { fprintf(stderr, "run %llu does not fail when repeated\n", (unsigned long long)run); return 4; }
    std::vector<uint32_t> d1 = o1.draws;
    Outcome o2 = execute_forked(prop, false, rs, none, false);
    if (!o2.violated || o2.cls != o1.cls || o2.log_hash != o1.log_hash || o2.draws != d1) { fprintf(stderr, "run is not deterministic\n"); return 4; }
    double budget = a.count("budget") ? atof(a["budget"].c_str()) : 40;
    int attempts = 0;
    std::vector<uint32_t> m = shrink(prop, d1, o1.cls, budget, &attempts);
    Outcome o3 = execute_forked(prop, true, 0, m, true);
    if (!o3.violated || o3.cls != o1.cls) { m = d1; o3 = execute_forked(prop, true, 0, m, true); }
    if (!o3.violated || o3.cls != o1.cls) { fprintf(stderr, "minimised run does not reproduce\n"); return 4; }
    write_replay(a["out"], prop, seed, run, o3, m, d1.size(), attempts);
    printf("%s\n%s\n", o3.cls.c_str(), o3.msg.c_str());
    return 1;
  }
  if (a.count("seq")) {
    // A violation that needs a history of several runs in one process.
    std::vector<uint64_t> runs = parse_list(a["seq"]);
    double budget = a.count("budget") ? atof(a["budget"].c_str()) : 40, tb = wall();
    Outcome o1 = execute_sequence(prop, seed, runs, false);
    if (!o1.violated) return 4;
    int attempts = 0; size_t orig = runs.size();
    for (size_t len = runs.size() / 2; len >= 1; len /= 2) {
      for (size_t i = 0; i + len < runs.size() && wall() - tb < budget;) {
        std::vector<uint64_t> cand(runs); cand.erase(cand.begin() + i, cand.begin() + i + len); ++attempts;
        Outcome o = execute_sequence(prop, seed, cand, false);
        if (o.violated && o.cls == o1.cls) runs = cand; else i += len;
      }
    }
    Outcome o2 = execute_sequence(prop, seed, runs, true), o3 = execute_sequence(prop, seed, runs, true);
    if (!o2.violated || !o3.violated || o2.cls != o1.cls || o2.cls != o3.cls || o2.log_hash != o3.log_hash) return 4;
    std::vector<uint32_t> none;
    write_replay(a["out"], prop, seed, runs.back(), o2, none, orig, attempts, &runs);
    printf("%s\n%s\n", o2.cls.c_str(), o2.msg.c_str());
    return 1;
  }
  if (a.count("show")) {
    uint64_t run = strtoull(a["run"].c_str(), NULL, 10);
    std::vector<uint32_t> none;
    Outcome o = execute_forked(prop, false, run_seed(seed, prop, run), none, true);
    for (size_t i = 0; i < o.lines.size(); ++i) puts(o.lines[i].c_str());
    printf("violated=%d class=%s msg=%s hash=%016llx draws=%zu\n", o.violated, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.log_hash, o.draws.size());
    return o.violated ? 1 : 0;
  }
  // Batch mode.
  uint64_t start = strtoull(a["start"].c_str(), NULL, 10), stride = strtoull(a["stride"].c_str(), NULL, 10), count = strtoull(a["count"].c_str(), NULL, 10);
  unsigned twice = a.count("twice") ? atoi(a["twice"].c_str()) : 16;
  double limit = a.count("limit") ? atof(a["limit"].c_str()) : 1e9, t0 = wall();
  if (stride == 0) stride = 1;
  // Progress file: the index of the run in progress, for crash attribution.
  uint64_t* prog = NULL;
  if (a.count("progress")) {
    int fd = open(a["progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) { perror("progress"); return 2; }
    prog = (uint64_t*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    prog[0] = ~0ULL;
  }
  std::vector<std::string> samples;
  std::string hashlog;
  std::vector<uint32_t> none;
  int rc = 0; uint64_t bad_run = 0; Outcome bad; std::string err;
  bool dump = a.count("hashes") > 0;
  bool truncated = false;
  for (uint64_t k = 0; k < count; ++k) {
    uint64_t run = start + k * stride;
    if (prog) prog[0] = run;
    arm();
    bool sample = k < 1 || (count > 3 && k == count / 2);
    Outcome o = execute(prop, false, run_seed(seed, prop, run), none, sample, true);
    if (sample && !o.violated) {
      std::string s; for (size_t i = 0; i < o.lines.size() && i < 40; ++i) s += (i ? " | " : "") + o.lines[i].substr(0, 160);
      samples.push_back(format("run %llu: ", (unsigned long long)run) + s.substr(0, 3000));
    }
    if (dump) { hashlog += format("%llu %016llx %zu\n", (unsigned long long)run, (unsigned long long)o.log_hash, o.draws.size()); }
    if (o.violated) { rc = 1; bad_run = run; bad = o; break; }
    if (twice && (run % twice) == 0) {
      Stats keep = Stats(); std::swap(keep, g_stats);
      std::vector<uint32_t> d = o.draws;
      Outcome p = execute(prop, true, 0, d, false, false);
      std::swap(keep, g_stats);
      g_stats.doubled++;
      if (p.violated) { rc = 6; bad_run = run; bad = p; break; }
      if (p.log_hash != o.log_hash || p.draws != d) {
        // Same choices, same process, different history: the driver repeats
        // such runs in fresh processes to decide whether replay is exact.
        err += format("%s%llu", err.empty() ? "" : ",", (unsigned long long)run);
      }
    }
    if (wall() - t0 > limit) { truncated = true; break; }
  }
  if (prog) prog[0] = ~0ULL;
  if (a.count("out")) {
    FILE* f = fopen(a["out"].c_str(), "w");
    if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"rc\": %d, \"runs\": %llu, \"draws\": %llu, \"steps\": %llu, \"sim_us\": %llu, \"nontrivial\": %llu, \"doubled\": %llu, \"truncated\": %d,",
            rc, (unsigned long long)g_stats.runs, (unsigned long long)g_stats.draws, (unsigned long long)g_stats.steps, (unsigned long long)g_stats.sim_us,
            (unsigned long long)g_stats.nontrivial, (unsigned long long)g_stats.doubled, truncated ? 1 : 0);
    fprintf(f, "\"faults\": {"); bool first = true;
    for (std::map<std::string, uint64_t>::iterator i = g_stats.faults.begin(); i != g_stats.faults.end(); ++i) { fprintf(f, "%s\"%s\": %llu", first ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); first = false; }
    fprintf(f, "}, \"probes\": {"); first = true;
    for (std::map<std::string, uint64_t>::iterator i = g_stats.probes.begin(); i != g_stats.probes.end(); ++i) { fprintf(f, "%s\"%s\": %llu", first ? "" : ",", jesc(i->first).c_str(), (unsigned long long)i->second); first = false; }
    fprintf(f, "}, \"samples\": ["); first = true;
    for (size_t i = 0; i < samples.size(); ++i) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(samples[i]).c_str()); first = false; }
    fprintf(f, "], \"bad_run\": %llu, \"bad_class\": \"%s\", \"bad_msg\": \"%s\", \"error\": \"%s\"}\n", (unsigned long long)bad_run, jesc(bad.cls).c_str(), jesc(bad.msg).c_str(), jesc(err).c_str());
    fclose(f);
    // Hash sets for exact distinct counts across workers.
    f = fopen((a["out"] + ".h").c_str(), "w");
    for (std::set<uint64_t>::iterator i = g_stats.log_hashes.begin(); i != g_stats.log_hashes.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); }
    fclose(f);
    f = fopen((a["out"] + ".n").c_str(), "w");
    for (std::set<uint64_t>::iterator i = g_stats.nontrivial_hashes.begin(); i != g_stats.nontrivial_hashes.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); }
    fclose(f);
    f = fopen((a["out"] + ".s").c_str(), "w");
    for (std::set<uint64_t>::iterator i = g_stats.states.begin(); i != g_stats.states.end(); ++i) { uint64_t v = *i; fwrite(&v, 8, 1, f); }
    fclose(f);
  }
  if (dump) { FILE* f = fopen(a["hashes"].c_str(), "w"); fwrite(hashlog.data(), 1, hashlog.size(), f); fclose(f); }
  if (rc == 1) printf("run %llu %s %s\n", (unsigned long long)bad_run, bad.cls.c_str(), bad.msg.c_str());
  if (rc == 6) printf("run %llu again: %s %s\n", (unsigned long long)bad_run, bad.cls.c_str(), bad.msg.c_str());
  return rc;
}

}  // namespace sim

extern "C" const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=0:handle_abort=1:abort_on_error=0:"
         "detect_stack_use_after_return=0:symbolize=0:alloc_dealloc_mismatch=1:max_allocation_size_mb=4096";
}

int main(int argc, char** argv) {
  // One address-space layout per binary: pointer values are an input too.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  return sim::main_impl(argc, argv); }
