// C03: a KMZ archive whose creation was acknowledged holds every entry.
#include <memory>
#include "../core.h"
#include "../simfs.h"
#include "../ziputil.h"
#include "kml/base/zip_file.h"
#include "kml/engine/kmz_file.h"
using namespace sim;

struct Added { std::string name, data; };

// Names with the verdict the documentation gives them.
static std::string pick_name(Ctx& c, bool* refused, const std::vector<Added>& before) {
  *refused = false;
  switch (c.choose(12)) {
    case 0: if (!before.empty()) return before[c.choose((uint32_t)before.size())].name;  // again
    case 1: { static const char* const d[] = {"doc.kml", "doc.kml", "doc.kml", "Doc.kml", "DOC.KML", "doc.kmlx"}; return d[c.choose(6)]; }
    case 2: return "files/img" + std::to_string(c.choose(4)) + ".png";
    case 3: return "a/b/c/d/e" + std::to_string(c.choose(9));
    case 4: { std::string n; uint32_t k = 1 + c.choose(200); for (uint32_t i = 0; i < k; ++i) n += (char)('a' + i % 26); return n; }
    case 5: return "\xc3\xa9t\xc3\xa9/\xe6\xbc\xa2.kml";
    case 6: *refused = true; { static const char* const b[] = {"/abs.kml", "\\abs.kml", "../up.kml", "..", "/", "..\\up", "../../etc/x"}; return b[c.choose(7)]; }
    case 7: return ".hidden";
    case 8: return std::string("a..b/..c").substr(0, 4 + c.choose(5)) + "x";
    case 9: return "sp ace/pl+us%20";
    default: return "f" + std::to_string(c.choose(100));
  }
}
static std::string pick_data(Ctx& c) {
  switch (c.choose(6)) {
    case 0: return c.blob(c.size_upto(300));
    case 1: { static const uint32_t e[] = {1, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537}; return c.blob(e[c.choose(9)]); }
    case 2: return std::string(c.size_upto(200000), 'x');
    case 3: return c.blob(c.choose(100000));
    case 4: return "";
    default: return "<kml>" + c.blob(c.size_upto(4000)) + "</kml>";
  }
}

static void verify(Ctx& c, const std::string& path, const std::vector<Added>& acked, bool exact) {
  std::vector<ziputil::Listed> got; std::string why;
  std::string bytes = simfs::content(path);
  if (acked.empty() && exact && bytes.size() == 22) return;  // an empty archive
  if (!ziputil::read(bytes, &got, &why)) c.fail("invalid-archive", "acknowledged archive is not valid: %s (%zu bytes)", why.c_str(), bytes.size());
  size_t g = 0;
  for (size_t i = 0; i < acked.size(); ++i) {
    while (g < got.size() && !(got[g].name == acked[i].name && got[g].ok && got[g].data == acked[i].data)) {
      if (exact) c.fail("wrong-entry", "entry %zu is %s (%s), expected %s with %zu bytes", g, quote(got[g].name).c_str(), got[g].ok ? digest(got[g].data).c_str() : got[g].data.c_str(), quote(acked[i].name).c_str(), acked[i].data.size());
      ++g;
    }
    if (g == got.size()) c.fail("lost-entry", "acknowledged entry %s (%zu bytes) is not in the archive at its place", quote(acked[i].name).c_str(), acked[i].data.size());
    ++g;
  }
  if (exact && g != got.size()) c.fail("extra-entry", "the archive holds %zu entries, %zu were acknowledged", got.size(), acked.size());
  // The library's own reader agrees.
  std::unique_ptr<kmlbase::ZipFile> z(kmlbase::ZipFile::OpenFromString(bytes));
  if (!z) { if (acked.empty()) return; c.fail("unreadable", "the library cannot open the archive it acknowledged"); }
  kmlbase::StringVector toc; z->GetToc(&toc);
  if (exact) {
    if (toc.size() != acked.size()) c.fail("toc", "the library lists %zu entries, %zu were added", toc.size(), acked.size());
    for (size_t i = 0; i < toc.size(); ++i) if (toc[i] != acked[i].name) c.fail("toc", "entry %zu is listed as %s", i, quote(toc[i]).c_str());
    for (size_t i = 0; i < acked.size(); ++i) {
      size_t f = 0; while (acked[f].name != acked[i].name) ++f;  // documented: the first one wins
      if (acked[f].data.empty()) continue;                        // documented limit of the reader
      std::string out;
      if (!z->GetEntry(acked[i].name, &out) || out != acked[f].data) c.fail("unreadable", "the library does not read back entry %s", quote(acked[i].name).c_str());
    }
  }
}

static void run(Ctx& c) {
  simfs::activate(true);
  simfs::mkdir("/sim/out");
  simfs::put("/sim/other.txt", "untouched");
  unsigned mode = c.choose(4);
  unsigned archives = 1 + c.choose(3);
  for (unsigned a = 0; a < archives; ++a) {
    std::string path = c.choose(5) ? "/sim/out/a" + std::to_string(c.choose(3)) + ".kmz" : (c.choose(2) ? "rel.kmz" : "/sim/missing/x.kmz");
    bool bad_dir = path == "/sim/missing/x.kmz";
    if (!bad_dir && c.chance(1, 3)) simfs::put(path, c.blob(c.size_upto(50000)));
    simfs::Faults f;
    if (mode) {
      unsigned r = mode == 1 ? 4 : mode == 2 ? 16 : 60;
      if (c.chance(1, 4)) f.open_fail = r * 2;
      if (c.chance(1, 2)) f.write_err = r;
      if (c.chance(1, 2)) f.write_short = r * 3;
      if (c.chance(1, 3)) f.close_err = r * 3;
      if (c.chance(1, 3)) f.capacity = c.size_upto(120000);
      f.skip = c.choose(3) ? c.choose(6) : c.choose(60);
      if (c.chance(1, 2)) f.max_faults = 1;  // the disk recovers
    }
    unsigned how = c.choose(6);
    simfs::mark();
    simfs::faults() = f;
    if (how == 0) {
      std::string kml = pick_data(c);
      bool ok = kmlengine::KmzFile::WriteKmz(path.c_str(), kml);
      simfs::Counters k = simfs::counters(); simfs::no_faults();
      c.log("WriteKmz %s %s -> %d hard=%u", path.c_str(), digest(kml).c_str(), ok, k.hard);
      if (ok) {
        if (bad_dir) c.fail("false-ack", "archive in a missing directory acknowledged");
        Added d = {"doc.kml", kml}; verify(c, path, std::vector<Added>(1, d), true);
        if (k.hard) c.probe("acknowledged despite a fault");
      } else if (!k.hard && !bad_dir) c.fail("spurious-failure", "WriteKmz failed without a fault");
      c.nontrivial++;
    } else {
      bool via_kmz = c.choose(2) == 0;
      kmlengine::KmzFilePtr kmz; std::unique_ptr<kmlbase::ZipFile> zip;
      if (via_kmz) kmz = kmlengine::KmzFile::Create(path.c_str()); else zip.reset(kmlbase::ZipFile::Create(path.c_str()));
      bool created = via_kmz ? kmz != NULL : zip.get() != NULL;
      c.log("create %s -> %d", path.c_str(), created);
      if (!created) {
        if (!simfs::counters().hard && !bad_dir) c.fail("spurious-failure", "creating an archive failed without a fault");
        simfs::no_faults();
        continue;
      }
      if (bad_dir) c.fail("false-ack", "archive in a missing directory created");
      std::vector<Added> acked; unsigned failed_by_fault = 0;
      unsigned n = c.choose(8);
      for (unsigned i = 0; i < n; ++i) {
        bool refused; Added e; e.name = pick_name(c, &refused, acked); e.data = pick_data(c);
        unsigned h0 = simfs::counters().hard;
        bool ok = via_kmz ? kmz->AddFile(e.data, e.name) : zip->AddEntry(e.data, e.name);
        c.log("add %s %s -> %d", quote(e.name).c_str(), digest(e.data).c_str(), ok);
        (void)h0;
        if (refused) { if (ok) c.fail("escape-accepted", "entry name %s accepted", quote(e.name).c_str()); c.probe("escaping name refused"); continue; }
        if (ok) acked.push_back(e);
        else { if (!simfs::counters().hard) c.fail("spurious-failure", "adding %s failed without a fault", quote(e.name).c_str()); ++failed_by_fault; c.probe("add failed by fault"); }
      }
      bool use_close = how != 1;
      bool closed = false;
      unsigned before_close = simfs::counters().hard;
      if (use_close) {
        closed = via_kmz ? kmz->Close() : zip->Close();
        c.log("close -> %d", closed);
        Added late = {"late.txt", "late"};
        if (c.chance(1, 4) && (via_kmz ? kmz->AddFile(late.data, late.name) : zip->AddEntry(late.data, late.name))) c.fail("late-add", "an entry was accepted after the archive was finished");
      }
      kmz = NULL; zip.reset();
      simfs::Counters k = simfs::counters(); simfs::no_faults();
      if (use_close) {
        if (closed) {
          if (failed_by_fault) c.fail("false-ack", "the archive is acknowledged as complete though an addition failed");
          verify(c, path, acked, true);
          if (k.hard) c.probe("acknowledged despite a fault");
        } else if (!k.hard) c.fail("spurious-failure", "finishing the archive failed without a fault");
      } else {
        if (!k.hard) verify(c, path, acked, true);
        (void)before_close;
      }
      c.state(((uint64_t)n) ^ ((uint64_t)failed_by_fault << 4) ^ ((uint64_t)closed << 8) ^ ((uint64_t)k.hard << 12) ^ ((uint64_t)k.writes << 20) ^ ((uint64_t)acked.size() << 36));
      if (n) c.nontrivial++;
    }
    if (simfs::open_handles()) c.fail("handle-leak", "%zu descriptors left open", simfs::open_handles());
    if (simfs::content("/sim/other.txt") != "untouched") c.fail("other-file", "an unrelated file changed");
  }
}
SIM_PROP(C03, run);
