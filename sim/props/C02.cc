// C02: a file read returns exactly the stored bytes or fails cleanly;
// existence checks and deletions tell the truth.
#include "../core.h"
#include "../simfs.h"
#include "kml/base/file.h"
using namespace sim;

static const char* const kPaths[] = {"/sim/a.kml", "b.kml", "/sim/dir/c.kml", "./dir/../d", "/tmp/e", "/sim/dir", "/sim/none/x"};

static void run(Ctx& c) {
  simfs::activate(true);
  simfs::mkdir("/sim/dir"); simfs::mkdir("/cwd/dir");
  std::vector<std::string> paths(kPaths, kPaths + 7);
  unsigned ops = 1 + c.choose(8);
  unsigned mode = c.choose(4);
  for (unsigned i = 0; i < ops; ++i) {
    std::string path = c.pick(paths);
    std::string key = simfs::norm(path);
    bool dir = key == "/sim/dir", none = key == "/sim/none/x";
    if (!dir && !none && c.chance(3, 4)) {
      uint32_t n;
      switch (c.choose(4)) {
        case 0: n = c.size_upto(3000); break;
        case 1: { static const uint32_t e[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 65536}; n = e[c.choose(15)]; break; }
        case 2: n = 1024 * c.choose(40); break;
        default: n = c.choose(150000);
      }
      if (c.chance(1, 4000)) n = 0x1000000 + c.choose(0x200000);
      simfs::put(path, c.blob(n), c.chance(1, 16) ? 0000 : 0644);
    }
    simfs::Faults f;
    if (mode) {
      unsigned r = mode == 1 ? 16 : mode == 2 ? 64 : 140;
      if (c.chance(1, 4)) f.open_fail = r;
      if (c.chance(1, 2)) f.read_err = r;
      if (c.chance(1, 2)) f.read_short = r;
      if (c.chance(1, 4)) f.eintr = r;
      if (c.chance(1, 4)) f.unlink_fail = r;
      if (c.chance(1, 8)) f.stat_fail = r;
      if (c.chance(1, 8)) f.seek_fail = r;
      f.skip = c.choose(12);
    }
    std::map<std::string, std::string> before = simfs::snapshot();
    bool exists = before.count(key) > 0;
    unsigned op = c.choose(5);
    simfs::faults() = f;
    simfs::mark();
    if (op <= 2) {
      std::string prev = c.chance(1, 2) ? "" : "previous contents of the caller's string";
      std::string out = prev;
      std::string name = c.chance(1, 30) ? "" : path;
      bool ok = kmlbase::File::ReadFileToString(name, &out);
      simfs::Counters k = simfs::counters();
      simfs::no_faults();
      c.log("read %s -> %d %s hard=%u", name.c_str(), ok, digest(out).c_str(), k.hard);
      if (ok) {
        if (name.empty() || !exists) c.fail("phantom-read", "reading %s succeeded though there is no such file", quote(name).c_str());
        if (out != before[key]) c.fail("wrong-content", "reading %s succeeded with %zu bytes, the file holds %zu (hard faults %u)", path.c_str(), out.size(), before[key].size(), k.hard);
        if (k.benign) c.probe("read across short reads");
      } else {
        if (out != prev) c.fail("output-modified", "failed read of %s left %zu bytes in the output", path.c_str(), out.size());
        if (exists && !name.empty() && !k.hard && !k.soft) c.fail("spurious-failure", "reading %s (%zu bytes) failed without a fault", path.c_str(), before[key].size());
      }
      if (c.chance(1, 40) && kmlbase::File::ReadFileToString(path, NULL)) c.fail("null-output", "read into a null pointer succeeded");
      c.state((uint64_t)ok ^ ((uint64_t)k.hard << 4) ^ ((uint64_t)k.reads << 8) ^ ((uint64_t)k.benign << 20) ^ ((uint64_t)(before[key].size() / 512) << 32));
      c.nontrivial++;
    } else if (op == 3) {
      bool r = kmlbase::File::Exists(path);
      simfs::Counters k = simfs::counters();
      simfs::no_faults();
      c.log("exists %s -> %d", path.c_str(), r);
      if (r && !exists) c.fail("exists-wrong", "Exists(%s) is true but there is no such file", path.c_str());
      if (!r && exists && !k.hard && !k.soft) c.fail("exists-wrong", "Exists(%s) is false but the file is there", path.c_str());
    } else {
      bool r = kmlbase::File::Delete(path);
      simfs::Counters k = simfs::counters();
      simfs::no_faults();
      bool now = simfs::exists(path);
      c.log("delete %s -> %d", path.c_str(), r);
      if (r && (now || !exists)) c.fail("delete-wrong", "Delete(%s) reported success but the file %s", path.c_str(), now ? "is still there" : "did not exist");
      if (!r && exists && !now) c.fail("delete-wrong", "Delete(%s) reported failure but the file is gone", path.c_str());
      if (!r && exists && !k.hard && !k.soft) c.fail("delete-wrong", "Delete(%s) failed without a fault", path.c_str());
      before.erase(key);
    }
    // Nothing else changed, ever.
    std::map<std::string, std::string> after = simfs::snapshot();
    if (op <= 3 && after != before && !(before.count(key) && !exists && (before.erase(key), after == before)))
      c.fail("storage-changed", "a read or existence check changed the storage");
    if (op == 4) { after.erase(key); if (after != before) c.fail("storage-changed", "deleting %s changed another file", path.c_str()); }
    if (simfs::open_handles()) c.fail("handle-leak", "%zu descriptors left open", simfs::open_handles());
  }
}
SIM_PROP(C02, run);
