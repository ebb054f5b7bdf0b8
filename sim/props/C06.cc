// C06: temporary files are unique, private and gone when released.
#include <sys/stat.h>
#include <memory>
#include <set>
#include "../core.h"
#include "../simsched.h"
#include "../simfs.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include "kml/dom.h"
#include "kml/engine/kmz_file.h"
using namespace sim;

namespace {
struct World {
  Ctx* c;
  std::set<std::string> before;      // files that were there
  std::map<std::string, int> live;   // path -> owner
  unsigned created = 0, failed = 0;
  bool outside = false;
  unsigned outside_n = 0;
  bool unlink_may_fail = false;
} *W;
// Whatever the instant, a temporary file is never open to others.
void on_call(const char* op, const std::string& path) {
  (void)op; (void)path;
  if (W->outside && W->c->chance(1, 12) && W->outside_n < 4) {   // another process takes a name in the same directory
    std::string p = std::string("/tmp/libkml") + (char)('a' + W->c->choose(2)) + "aaaaa"; ++W->outside_n;
    if (!simfs::exists(p)) { simfs::put(p, "foreign", 0644); W->before.insert(p); W->c->fault("outside-process"); }
  }
  std::map<std::string, std::string> s = simfs::snapshot();
  for (std::map<std::string, std::string>::iterator i = s.begin(); i != s.end(); ++i)
    if (!W->before.count(i->first) && (simfs::mode(i->first) & 077)) W->c->fail_later("mode", "a temporary file has mode %03o while %s runs", simfs::mode(i->first), op);
  sched::point(op);
}
void check_new(const std::string& p, int who) {
  Ctx& c = *W->c;
  if (!simfs::exists(p)) c.fail("missing", "creation of %s succeeded but there is no such file", p.c_str());
  if (W->before.count(p)) c.fail("not-new", "%s existed before it was created", p.c_str());
  if (W->live.count(p)) c.fail("shared", "%s is already in use by thread %d", p.c_str(), W->live[p]);
  if (!simfs::content(p).empty()) c.fail("not-empty", "%s is not empty", p.c_str());
  if ((simfs::mode(p) & 0777) != 0600) c.fail("mode", "%s has mode %03o", p.c_str(), simfs::mode(p));
  W->live[p] = who; W->created++;
}
void release(int who, kmlbase::TempFilePtr* t) {
  Ctx& c = *W->c;
  std::string p; uint64_t id;
  { InHarness ih; p = (*t)->name(); id = simfs::inode_id(p); W->live.erase(p); if (!id) c.fail("vanished", "%s vanished while in use", p.c_str()); }
  *t = NULL;
  InHarness ih;
  c.log("thread %d: released %s", who, p.c_str());
  if (!W->unlink_may_fail && simfs::inode_id(p) == id) c.fail("kept", "%s still exists after its owner was destroyed", p.c_str());
}
void body(int who, unsigned ops) {
  Ctx& c = *W->c;
  std::vector<kmlbase::TempFilePtr> held;
  for (unsigned i = 0; i < ops; ++i) {
    unsigned what; { InHarness ih; what = c.choose(5); }
    if (what <= 1) {
      kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile();
      InHarness ih;
      if (!t) { c.log("thread %d: creation refused", who); W->failed++; continue; }
      c.log("thread %d: created %s", who, t->name().c_str());
      check_new(t->name(), who);
      if (c.chance(1, 6)) {   // the owner fills it
        simfs::put(t->name(), "content", 0600);
      }
      held.push_back(t);
    } else if (what == 2) {
      std::string path = "before";
      bool ok = kmlbase::File::CreateNewTempFile(&path);
      InHarness ih;
      if (!ok) { W->failed++; c.log("thread %d: creation refused", who); if (path != "before") c.fail("path-changed", "a failed creation set the path to %s", quote(path).c_str()); continue; }
      c.log("thread %d: created %s", who, path.c_str());
      check_new(path, who);
      W->live.erase(path); simfs::rm(path);
    } else if (!held.empty()) {
      kmlbase::TempFilePtr t;
      { InHarness ih; size_t k = c.choose((uint32_t)held.size()); t = held[k]; held.erase(held.begin() + k); }
      release(who, &t);
    }
  }
  while (!held.empty()) { kmlbase::TempFilePtr t = held.back(); { InHarness ih; held.pop_back(); } release(who, &t); }
}
}  // namespace

static void run(Ctx& c) {
  World w; W = &w; w.c = &c;
  simfs::activate(true);
  static const mode_t masks[] = {022, 077, 002, 0, 027, 0177};
  mode_t mask = masks[c.choose(6)];
  simfs::set_umask(mask);
  simfs::mkdir("/tmp");
  simfs::temp_alphabet = c.choose(3) ? 2 : 36;
  simfs::put("/tmp/other", "x"); w.before.insert("/tmp/other");
  if (c.choose(2)) { simfs::put("/tmp/libkmlaaaaaa", "x"); w.before.insert("/tmp/libkmlaaaaaa"); }
  simfs::Faults& f = simfs::faults();
  unsigned weather = c.choose(4);
  if (weather & 1) f.mkstemp_fail = 40;
  if (weather & 2) { f.close_err = 40; f.eintr = 20; }
  if (c.chance(1, 4)) f.chmod_fail = 60;
  if (c.chance(1, 6)) f.unlink_fail = 60;
  if (c.chance(1, 4)) f.max_faults = 1 + c.choose(3);
  w.outside = c.chance(1, 3);
  const bool may_fail = f.mkstemp_fail || f.chmod_fail || f.close_err || f.eintr;
  w.unlink_may_fail = f.unlink_fail > 0;
  sched::Plan p = sched::plan(c); if (p.gap_hot == 0) p.gap_hot = 8;
  unsigned n = 1 + c.choose(4);
  std::vector<std::function<void()> > bodies;
  unsigned ops = 1 + c.choose(6);
  for (unsigned i = 0; i < n; ++i) bodies.push_back([i, ops]() { body((int)i, ops); });
  void (*old)(const char*, const std::string&) = simfs::on_call;
  simfs::on_call = on_call;
  struct Restore { void (*o)(const char*, const std::string&); ~Restore() { simfs::on_call = o; } } restore = {old};
  sched::run(c, p, bodies);
  c.check_deferred();
  if (simfs::get_umask() != mask) c.fail("umask", "the process's file-creation mask was %03o and is now %03o", mask, simfs::get_umask());
  if (simfs::open_handles()) c.fail("descriptor", "%zu descriptors are still open", simfs::open_handles());
  std::map<std::string, std::string> s = simfs::snapshot();
  for (std::map<std::string, std::string>::iterator i = s.begin(); i != s.end(); ++i)
    if (!w.before.count(i->first) && !w.unlink_may_fail) c.fail("left-behind", "%s was left behind", i->first.c_str());
  for (std::set<std::string>::iterator i = w.before.begin(); i != w.before.end(); ++i)
    if (!s.count(*i)) c.fail("foreign-removed", "%s, which is not a temporary file of this process, was removed", i->c_str());
    else if (s[*i] != (*i == "/tmp/other" || *i == "/tmp/libkmlaaaaaa" ? (s[*i] == "foreign" ? "foreign" : "x") : "foreign")) c.fail("foreign-changed", "%s was changed", i->c_str());
  if (w.failed && !may_fail) c.fail("refused", "%u creations were refused although nothing failed", w.failed);
  c.injected("preemption", sched::switches());
  c.log("end: %u created, %u refused, %llu switches", w.created, w.failed, (unsigned long long)sched::switches());
  c.state(hash_str(format("%u %u %u %llu", n, w.created, w.failed, (unsigned long long)sched::switches())));
  if (w.created) ++c.nontrivial;
}
SIM_PROP(C06, run);
