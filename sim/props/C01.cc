// C01: an acknowledged file write has stored every byte.
#include "../core.h"
#include "../simfs.h"
#include "kml/base/file.h"
using namespace sim;

static void run(Ctx& c) {
  simfs::activate(true);
  static const char* const kPaths[] = {"/sim/a.kml", "b.kml", "/sim/dir/c.kml", "./dir/../d", "/tmp/e"};
  simfs::mkdir("/sim/dir"); simfs::mkdir("/cwd/dir");
  std::vector<std::string> paths(kPaths, kPaths + 5);
  std::map<std::string, std::string> model;  // normalised path -> content the disk must hold
  unsigned ops = 1 + c.choose(6);
  unsigned mode = c.choose(4);
  for (unsigned i = 0; i < ops; ++i) {
    std::string path = c.pick(paths);
    uint32_t n = c.chance(1, 4000) ? 0x1000000 + c.choose(0x200000) : c.chance(1, 5) ? 1000 + c.choose(200000) : c.size_upto(20000);
    std::string data = c.blob(n);
    bool bad_dir = c.chance(1, 16);
    if (bad_dir) path = "/sim/missing/dir/x.kml";
    bool empty_name = c.chance(1, 24);
    if (empty_name) path = "";
    bool dir_target = !empty_name && !bad_dir && c.chance(1, 24);
    if (dir_target) path = "/sim/dir";
    simfs::Faults f;
    if (mode) {
      unsigned r = mode == 1 ? 20 : mode == 2 ? 80 : 160;
      if (c.chance(1, 3)) f.open_fail = r;
      if (c.chance(1, 2)) f.write_err = r;
      if (c.chance(1, 2)) f.write_short = r;
      if (c.chance(1, 2)) f.close_err = r;
      if (c.chance(1, 4)) f.eintr = r;
      if (c.chance(1, 3)) f.capacity = c.size_upto(n + 100);
      f.skip = c.choose(4);
    }
    // An earlier version of the file, possibly longer than the new one.
    std::string old;
    bool had = !empty_name && !bad_dir && !dir_target && c.chance(1, 2);
    if (had) { old = c.blob(c.size_upto(40000)); simfs::put(path, old); if (c.chance(1, 10)) simfs::put(path, old, 0444); }
    // Saving again what is there, perhaps with a small change, is the common case.
    if (had && c.chance(1, 2)) {
      data = old;
      switch (c.choose(4)) {
        case 0: break;
        case 1: if (!data.empty()) { size_t at = c.choose(3) ? data.size() - 1 - c.choose((uint32_t)std::min<size_t>(data.size(), 64)) : c.choose((uint32_t)data.size()); data[at] = (char)(data[at] ^ (1 + c.choose(255))); } break;
        case 2: data += c.blob(1 + c.choose(3)); break;
        case 3: data.resize(data.size() - std::min<size_t>(data.size(), 1 + c.choose(3))); break;
      }
    }
    std::map<std::string, std::string> before = simfs::snapshot();
    simfs::faults() = f;
    simfs::mark();
    bool ok = kmlbase::File::WriteStringToFile(data, path);
    simfs::Counters k = simfs::counters();
    simfs::no_faults();
    c.log("write %s %s -> %d hard=%u soft=%u", path.c_str(), digest(data).c_str(), ok, k.hard, k.soft);
    std::map<std::string, std::string> after = simfs::snapshot();
    std::string target = simfs::norm(path);
    for (std::map<std::string, std::string>::iterator it = after.begin(); it != after.end(); ++it) {
      if (it->first == target && !empty_name) continue;
      if (!before.count(it->first)) {
        if (ok) c.fail("stray-file", "writing %s created %s", path.c_str(), it->first.c_str());
      } else if (before[it->first] != it->second) {
        c.fail("other-file-changed", "writing %s changed %s", path.c_str(), it->first.c_str());
      }
    }
    for (std::map<std::string, std::string>::iterator it = before.begin(); it != before.end(); ++it)
      if (it->first != target && !after.count(it->first)) c.fail("other-file-lost", "writing %s removed %s", path.c_str(), it->first.c_str());
    if (ok) {
      if (empty_name || bad_dir || dir_target) c.fail("false-ack", "write to %s acknowledged", quote(path).c_str());
      if (!after.count(target)) c.fail("lost-write", "write of %zu bytes to %s acknowledged but the file does not exist (hard faults: %u)", data.size(), path.c_str(), k.hard);
      if (after[target] != data) c.fail("lost-write", "write of %zu bytes to %s acknowledged but the file holds %zu %s bytes (hard faults: %u)",
                                        data.size(), path.c_str(), after[target].size(), after[target].size() == data.size() ? "different" : "", k.hard);
      if (k.benign) c.probe("acknowledged after short writes");
    } else {
      if (!k.hard && !k.soft && !empty_name && !bad_dir && !dir_target)
        c.fail("spurious-failure", "write of %zu bytes to %s failed without a fault", data.size(), path.c_str());
      c.probe("failure reported");
    }
    if (simfs::open_handles()) c.fail("handle-leak", "%zu descriptors left open", simfs::open_handles());
    c.state(hash_str(path) ^ (ok ? 1 : 0) ^ ((uint64_t)k.hard << 8) ^ ((uint64_t)k.benign << 16) ^ ((uint64_t)k.writes << 24) ^ ((uint64_t)had << 40));
    if (n > 0) c.nontrivial++;
  }
}
SIM_PROP(C01, run);
