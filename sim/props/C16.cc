// C16: threads working on separate data do not disturb one another.
#include <memory>
#include "../core.h"
#include "../simfs.h"
#include "../simsched.h"
#include "../workload.h"
#include "kml/dom/kml_factory.h"
#include "kml/dom/xsd.h"
using namespace sim;

namespace {
struct Task { std::vector<workload::Op> ops; };
std::string run_task(const Task& t, size_t from = 0) {
  std::string out;
  for (size_t i = from; i < t.ops.size(); ++i) {
    std::string r;
    try { r = t.ops[i].run(); }
    catch (Violation&) { throw; }
    catch (std::exception&) { r = "exception"; }
    InHarness ih;
    out += t.ops[i].name + "\n" + r + "\n--\n";
  }
  return out;
}
void disk(size_t n) {
  simfs::activate(true);
  simfs::mkdir("/tmp");
  for (size_t i = 0; i < n; ++i) simfs::mkdir("/w" + std::to_string(i));
}
}  // namespace

// Nothing before the children are forked uses the library: each child is the
// first use of the library in its process.
static void run(Ctx& c) {
  unsigned n = 2 + c.choose(3);
  std::vector<Task> tasks;
  workload::Opts o; o.budget = 8; o.small = true;
  unsigned meet = c.choose(3);
  bool same = meet == 0;   // all threads do the same work, which is what meets in the same code
  if (meet == 1) o.kind = (int)c.choose(workload::kinds(o));   // or the same kind of work on data of their own
  for (unsigned i = 0; i < n; ++i) {
    Task t; unsigned k = 1 + c.choose(2);
    std::string dir = "/w" + std::to_string(i);
    if (same && i && c.choose(4)) { t = tasks[0]; if (t.ops[0].name == "kmz write" || t.ops[0].name == "files" || t.ops[0].name == "regionate" || t.ops.back().name == "kmz write" || t.ops.back().name == "files" || t.ops.back().name == "regionate") t.ops.clear(); }
    if (t.ops.empty()) for (unsigned j = 0; j < k; ++j) t.ops.push_back(workload::make(c, o, dir));
    std::string names; for (size_t j = 0; j < t.ops.size(); ++j) names += " " + t.ops[j].name + ",";
    c.log("thread %u:%s", i, names.c_str());
    tasks.push_back(t);
  }
  // What each answers on its own.
  std::vector<std::string> alone(n);
  bool together = c.choose(4) != 0;   // the reference: one after the other in one process, or each in its own
  if (together) {
    std::string all, how;
    if (!in_child(c, false, [&]() { disk(n); std::string s; for (unsigned i = 0; i < n; ++i) { std::string r = run_task(tasks[i]); InHarness ih; s += std::to_string(r.size()) + "\n" + r; } return s; }, &all, &how))
      c.fail("alone", "the work of the threads, done one after the other, ends with %s", how.c_str());
    size_t p = 0;
    for (unsigned i = 0; i < n; ++i) { size_t e = all.find('\n', p), k = atol(all.c_str() + p); alone[i] = all.substr(e + 1, k); p = e + 1 + k; }
  } else for (unsigned i = 0; i < n; ++i) {
    std::string how;
    if (!in_child(c, false, [&]() { disk(n); return run_task(tasks[i]); }, &alone[i], &how))
      c.fail("alone", "the work of thread %u ends with %s even on its own", i, how.c_str());
  }
  sched::Plan p = sched::plan(c);
  std::string result, how;
  bool ok = in_child(c, true, [&]() {
    disk(n);
    std::vector<std::string> got(n);
    std::vector<std::function<void()> > bodies;
    std::vector<const void*> factory(n), schema(n);
    bool early = c.choose(2);
    for (unsigned i = 0; i < n; ++i) bodies.push_back([i, early, &tasks, &got, &factory, &schema]() {
      if (early) { factory[i] = kmldom::KmlFactory::GetFactory(); schema[i] = kmldom::Xsd::GetSchema(); }
      std::string r = run_task(tasks[i]);
      if (!early) { factory[i] = kmldom::KmlFactory::GetFactory(); schema[i] = kmldom::Xsd::GetSchema(); }
      InHarness ih; got[i] = r;
    });
    sched::run(c, p, bodies);
    InHarness ih;
    for (unsigned i = 0; i < n; ++i) if (got[i] != alone[i]) {
      size_t k = 0; while (k < got[i].size() && k < alone[i].size() && got[i][k] == alone[i][k]) ++k;
      size_t a = k > 30 ? k - 30 : 0;
      c.fail("different", "thread %u answers %s where it answers %s alone", i, quote(got[i].substr(a, 90)).c_str(), quote(alone[i].substr(a, 90)).c_str());
    }
    for (unsigned i = 0; i < n; ++i) {
      if (factory[i] != kmldom::KmlFactory::GetFactory()) c.fail("second-factory", "thread %u was given a factory of its own", i);
      if (schema[i] != kmldom::Xsd::GetSchema()) c.fail("second-schema", "thread %u was given an element table of its own", i);
    }
    c.injected("preemption", sched::switches());
    c.log("end: %llu switches", (unsigned long long)sched::switches());
    c.state(hash_str(format("%llu", (unsigned long long)c.log_hash)));
    if (sched::switches() > n) ++c.nontrivial;
    return std::string();
  }, &result, &how);
  if (!ok) c.fail(how.c_str(), "the threads end with %s; each works on its own", how.c_str());
}
SIM_PROP(C16, run);
