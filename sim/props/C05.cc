// C05: the uncompressed-size limit of an archive reader is never exceeded.
#include <memory>
#include <string.h>
#include "../core.h"
#include "../simmem.h"
#include "../ziputil.h"
#include "kml/base/zip_file.h"
#include "kml/engine/kmz_file.h"
using namespace sim;

static void run(Ctx& c) {
  std::vector<ziputil::Entry> es; unsigned n = 1 + c.choose(4);
  uint32_t limit;
  { static const uint32_t L[] = {0, 1, 2, 100, 1000, 1024, 16384, 65536, 100000, 200000}; limit = L[c.choose(10)]; if (c.choose(2)) limit += c.choose(50); }
  std::vector<bool> honest;
  for (unsigned i = 0; i < n; ++i) {
    ziputil::Entry e; e.name = "e" + std::to_string(i) + (i == 0 ? ".kml" : "");
    uint32_t size;
    switch (c.choose(4)) {
      case 0: size = limit + c.choose(5) - (limit >= 2 ? 2 : 0); break;
      case 1: size = c.size_upto(limit * 2 + 10); break;
      case 2: size = limit * (1 + c.choose(4)) + c.choose(3); break;
      default: size = c.choose(3000);
    }
    if (size > 500000) size = 500000;
    e.data = c.choose(2) ? std::string(size, 'z') : c.blob(size);
    e.deflate = c.choose(4) != 0; e.level = 1; e.descriptor = c.chance(1, 3);
    bool h = c.choose(2) == 0;
    if (!h) {
      static const int64_t V[] = {0, 1, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x10000};
      int64_t lie;
      switch (c.choose(4)) {
        case 0: lie = V[c.choose(6)]; break;
        case 1: lie = limit; break;
        case 2: lie = (int64_t)limit + 1 + c.choose(100000); break;
        default: lie = c.size_upto(limit + 1);
      }
      unsigned which = c.choose(3);
      if (which != 1) e.claim_usize_central = lie;
      if (which != 0) e.claim_usize_local = lie;
      if (c.chance(1, 4)) e.claim_csize_central = e.claim_csize_local = V[c.choose(6)];
      if (c.chance(1, 3) && lie >= 0 && lie < (int64_t)e.data.size()) { e.claim_crc = ziputil::crc(e.data.substr(0, (size_t)lie)); }
      c.fault("lying-header");
    }
    honest.push_back(h);
    es.push_back(e);
  }
  std::string zip = ziputil::build(es);
  bool via_kmz = c.choose(2) != 0;
  std::unique_ptr<kmlbase::ZipFile> z; kmlengine::KmzFilePtr kmz;
  if (via_kmz) kmz = kmlengine::KmzFile::OpenFromString(zip); else z.reset(kmlbase::ZipFile::OpenFromString(zip));
  if (!z && !kmz) c.fail("open", "archive cannot be opened");
  if (via_kmz) kmz->set_max_uncompressed_file_size(limit); else z->set_max_uncompressed_file_size(limit);
  unsigned got = via_kmz ? kmz->get_max_uncompressed_file_size() : z->get_max_uncompressed_file_size();
  if (got != limit) c.fail("limit-lost", "limit set to %u reads back as %u", limit, got);
  for (unsigned i = 0; i < n; ++i) {
    std::string out;
    { InHarness ih; out = "previous"; }
    bool ok;
    bool readkml = via_kmz && i == 0 && c.choose(2);
    simmem::start();
    if (readkml) ok = kmz->ReadKml(&out);
    else ok = via_kmz ? kmz->ReadFile(es[i].name.c_str(), &out) : z->GetEntry(es[i].name, &out);
    simmem::Report r = simmem::report();
    simmem::stop();
    c.log("limit %u entry %zu claim %lld/%lld -> %d %zu largest=%d", limit, es[i].data.size(), (long long)es[i].claim_usize_central, (long long)es[i].claim_usize_local, ok, out.size(), r.largest > 65536);
    size_t size = es[i].data.size();
    if (ok && out.size() > limit) c.fail("limit-exceeded", "an entry of %zu bytes was delivered with a limit of %u", out.size(), limit);
    // Working buffers of the decompressor stay below 64 KiB.
    size_t allowed = std::max<size_t>((size_t)limit + 64, 65536);
    if (r.largest > allowed) c.fail("oversized-allocation", "reading an entry allocated %zu bytes at once with a limit of %u", r.largest, limit);
    if (r.peak > 3 * (size_t)limit + 4 * 65536) c.fail("oversized-allocation", "reading an entry held %zu bytes with a limit of %u", r.peak, limit);
    if (honest[i]) {
      if (size > limit) { if (ok) c.fail("limit-exceeded", "entry of %zu bytes read with a limit of %u", size, limit); c.probe("over the limit"); }
      else if (size > 0) {
        if (!ok) c.fail("within-limit-rejected", "entry of %zu bytes rejected with a limit of %u", size, limit);
        if (out != es[i].data) c.fail("altered-content", "entry of %zu bytes has wrong content", size);
        c.probe(size == limit ? "exactly at the limit" : "within the limit");
      }
    } else if (ok && out != es[i].data && !(es[i].claim_crc >= 0 && out == es[i].data.substr(0, out.size()))) {
      c.fail("altered-content", "an entry with lying headers returned other bytes than its own");
    }
    if (!ok && out != "previous") c.fail("partial-output", "a refused entry delivered %zu bytes", out.size());
    // Asking whether an entry can be read, without taking its bytes.
    if (!via_kmz && honest[i] && size > 0 && z->GetEntry(es[i].name, NULL) != (size <= limit)) c.fail("limit-query", "an entry of %zu bytes with a limit of %u: asking without taking the bytes gives the other answer", size, limit);
    c.state(((uint64_t)limit << 32) ^ (size << 2) ^ (ok ? 1 : 0) ^ (honest[i] ? 2 : 0));
    c.nontrivial++;
  }
}
SIM_PROP(C05, run);
