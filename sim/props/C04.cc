// C04: a damaged archive yields the stored content or an error, never garbage.
#include <memory>
#include <string.h>
#include "../core.h"
#include "../simfs.h"
#include "../ziputil.h"
#include "kml/base/zip_file.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
using namespace sim;

static std::string data_for(Ctx& c, bool nonempty) {
  std::string d;
  switch (c.choose(5)) {
    case 0: d = c.blob(c.size_upto(60)); break;
    case 1: d = c.blob(c.size_upto(3000)); break;
    case 2: d = std::string(c.size_upto(40000), (char)('a' + c.choose(26))); break;
    case 3: d = c.blob(c.chance(1, 6) ? 65000 + c.choose(80000) : 16000 + c.choose(20000)); break;
    default: d = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark><name>" + std::to_string(c.choose(1000)) + "</name></Placemark></kml>";
  }
  if (d.empty() && nonempty) d = "x";
  return d;
}
static std::vector<ziputil::Entry> make(Ctx& c, bool* has_kml) {
  std::vector<ziputil::Entry> es; unsigned n = 1 + c.choose(5);
  bool many = c.chance(1, 150); if (many) n = c.chance(1, 6) ? 1000 + c.choose(700) : 250 + c.choose(500);   // a directory of thousands of bytes
  *has_kml = false;
  for (unsigned i = 0; i < n; ++i) {
    ziputil::Entry e;
    switch (many ? 4 : c.choose(5)) {
      case 0: e.name = "doc.kml"; break;
      case 1: e.name = "img/" + std::string(1 + c.choose(40), 'i') + std::to_string(i); break;
      case 2: { static const uint32_t L[] = {100, 200, 254, 255, 256, 300, 1022, 1023, 1024, 1025, 2000, 5000}; e.name = std::string(L[c.choose(12)], 'n') + std::to_string(i); break; }
      case 3: e.name = "sub/\xc3\xa9" + std::to_string(i) + ".kml"; break;
      default: e.name = "e" + std::to_string(i) + (c.choose(2) ? ".kml" : c.choose(2) ? "" : "kml");
    }
    if (i && c.chance(1, 5)) {   // a name like an earlier one
      e.name = es[c.choose(i)].name;
      switch (c.choose(4)) {
        case 0: for (size_t k = 0; k < e.name.size(); ++k) if (e.name[k] >= 'a' && e.name[k] <= 'z') { e.name[k] -= 32; if (c.choose(2)) break; } break;
        case 1: e.name = e.name.substr(0, e.name.size() - 1); break;
        case 2: e.name = "a/" + e.name; break;
        default: e.name += "x";
      }
    }
    for (size_t k = 0; k < es.size(); ++k) if (es[k].name == e.name) e.name += "_" + std::to_string(i);
    e.data = many ? "d" + std::to_string(i) : data_for(c, !c.chance(1, 12));
    e.deflate = c.choose(3) != 0; e.level = c.choose(10); e.descriptor = c.chance(1, 4);
    if (c.chance(1, 5)) e.extra_local = std::string("\x01\x00\x04\x00", 4) + "abcd";
    if (c.chance(1, 5)) e.extra_central = std::string("\x02\x00\x02\x00", 4) + "xy";
    if (c.chance(1, 6)) e.comment = c.blob(c.size_upto(60));
    es.push_back(e);
  }
  return es;
}
static void no_eocd_in(std::string* s) { size_t p; while ((p = s->find("PK\5\6")) != std::string::npos) (*s)[p] = 'Q'; }

static void run(Ctx& c) {
  simfs::activate(true);
  bool hk;
  std::vector<ziputil::Entry> es = make(c, &hk);
  std::string comment; if (c.chance(1, 4)) { comment = c.blob(c.size_upto(2000)); no_eocd_in(&comment); }
  std::string zip;
  if (c.choose(3) == 0) {
    // Written by the library itself.
    for (size_t i = 0; i < es.size(); ++i) if (es[i].name.size() > 250) es[i].name = es[i].name.substr(0, 200) + std::to_string(i);
    kmlengine::KmzFilePtr k = kmlengine::KmzFile::Create("/sim/w.kmz");
    if (!k) c.fail("setup", "cannot create an archive");
    for (size_t i = 0; i < es.size(); ++i) if (!k->AddFile(es[i].data, es[i].name)) c.fail("setup", "cannot add");
    if (!k->Close()) c.fail("setup", "cannot close");
    k = NULL;
    zip = simfs::content("/sim/w.kmz");
  } else zip = ziputil::build(es, "", comment);
  std::string orig = zip;
  // A second generation of the archive, for torn overwrites.
  std::set<std::string> legit; for (size_t i = 0; i < es.size(); ++i) legit.insert(es[i].data);
  unsigned damage = c.choose(10);
  unsigned rounds = damage == 0 ? 0 : 1 + c.choose(3);
  if (damage == 9) {
    bool h2; std::vector<ziputil::Entry> es2 = make(c, &h2);
    std::string other = ziputil::build(es2);
    for (size_t i = 0; i < es2.size(); ++i) legit.insert(es2[i].data);
    size_t sector = 1u << (4 + c.choose(6));
    std::string t;
    size_t n = std::max(zip.size(), other.size());
    for (size_t p = 0; p < n; p += sector) {
      const std::string& src = c.choose(2) ? other : zip;
      std::string piece = p < src.size() ? src.substr(p, sector) : "";
      t += piece;
    }
    zip = t; c.fault("torn-overwrite");
  } else for (unsigned r = 0; r < rounds && !zip.empty(); ++r) {
    // Bias towards the directory structures at the end and the headers.
    uint32_t n = (uint32_t)zip.size();
    uint32_t at = c.choose(3) == 0 ? n - 1 - c.choose(std::min<uint32_t>(n, 200)) : c.choose(2) ? c.choose(std::min<uint32_t>(n, 80)) : c.choose(n);
    switch (damage) {
      case 1: zip.resize(c.choose(n)); c.fault("truncated"); break;
      case 2: zip[at] ^= (char)(1u << c.choose(8)); c.fault("bit-flip"); break;
      case 3: zip[at] = (char)c.choose(256); c.fault("byte-overwrite"); break;
      case 4: { uint32_t len = std::min<uint32_t>(n - at, 1u << c.choose(10)); memset(&zip[at], 0, len); c.fault("zeroed-block"); break; }
      case 5: { uint32_t len = std::min<uint32_t>(n - at, 1 + c.choose(64)); zip.erase(at, len); c.fault("lost-block"); break; }
      case 6: { uint32_t len = std::min<uint32_t>(n - at, 1 + c.choose(64)); zip.insert(at, zip.substr(at, len)); c.fault("duplicated-block"); break; }
      case 7: { static const uint32_t v[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000}; uint32_t x = v[c.choose(7)]; if (at + 4 <= n) memcpy(&zip[at], &x, 4); c.fault("field-overwrite"); break; }
      case 8: zip += c.blob(1 + c.choose(500)); c.fault("trailing-garbage"); break;
    }
  }
  bool intact = zip == orig;
  c.log("archive %s intact=%d damage=%u", digest(zip).c_str(), intact, damage);

  bool file_fault = false;
  std::unique_ptr<kmlbase::ZipFile> z;
  if (c.choose(3) == 0) {
    simfs::put("/sim/d.kmz", zip);
    simfs::Faults f;
    if (c.chance(1, 3)) { f.read_err = 80; f.read_short = 40; f.open_fail = 30; f.stat_fail = 20; }
    simfs::faults() = f; simfs::mark();
    z.reset(kmlbase::ZipFile::OpenFromFile("/sim/d.kmz"));
    file_fault = simfs::counters().hard > 0;
    simfs::no_faults();
    if (file_fault && z && z->get_data() != zip) c.fail("partial-archive", "an archive whose file could not be read in full was opened with %zu of %zu bytes", z->get_data().size(), zip.size());
  } else {
    std::string* heap = new std::string(zip);  // exact-size buffer, gone before use
    z.reset(kmlbase::ZipFile::OpenFromString(*heap));
    delete heap;
  }
  if (!z) {
    if (intact && !file_fault) c.fail("intact-rejected", "an undamaged archive cannot be opened");
    return;
  }
  kmlbase::StringVector toc;
  z->GetToc(&toc);
  c.log("toc %zu", toc.size());
  if (intact) {
    if (toc.size() != es.size()) c.fail("incomplete-listing", "%zu of %zu entries listed", toc.size(), es.size());
    for (size_t i = 0; i < es.size(); ++i) {
      if (es[i].name.size() <= 1000 && toc[i] != es[i].name) c.fail("wrong-name", "entry %zu listed as %s", i, quote(toc[i]).c_str());
      std::string out = "kept";
      bool ok = z->GetEntry(toc[i], &out);
      if (es[i].data.empty() || es[i].name.size() >= 256) { if (ok && out != es[i].data) c.fail("altered-content", "entry %zu has wrong content", i); continue; }
      if (!z->GetEntry(toc[i], NULL)) c.fail("intact-unreadable", "entry %s of an undamaged archive is there but asking for it says no", quote(es[i].name).c_str());
      if (!ok) c.fail("intact-unreadable", "entry %s (%zu bytes, %s%s) of an undamaged archive cannot be read", quote(es[i].name).c_str(), es[i].data.size(), es[i].deflate ? "deflated" : "stored", es[i].descriptor ? ", data descriptor" : "");
      if (out != es[i].data) c.fail("altered-content", "entry %s returned %zu bytes, %zu stored", quote(es[i].name).c_str(), out.size(), es[i].data.size());
    }
    std::string missing = "kept";
    if (z->GetEntry("no such entry", NULL) || z->GetEntry("no such entry", &missing) || missing != "kept") c.fail("phantom-entry", "an entry that is not there was read");
    std::string first, want; for (size_t i = 0; i < es.size(); ++i) { const std::string& n = es[i].name; if (n.size() >= 4 && n.size() <= 1000 && n.substr(n.size() - 4) == ".kml") { want = n; break; } }
    bool f = z->FindFirstOf(".kml", &first);
    if (f != !want.empty() || (f && first != want)) { bool longname = false; for (size_t i = 0; i < es.size(); ++i) if (es[i].name.size() > 1000) longname = true; if (!longname) c.fail("find-first", "default KML is %s, expected %s", quote(first).c_str(), quote(want).c_str()); }
  }
  for (size_t i = 0; i < toc.size() && i < 200; ++i) {
    std::string out = "previous";
    bool ok = z->GetEntry(toc[i], &out);
    c.log("entry %s -> %d %s", quote(toc[i], 40).c_str(), ok, digest(out).c_str());
    if (ok) {
      if (!legit.count(out)) c.fail("altered-content", "damaged archive returned %zu bytes for %s that were never stored", out.size(), quote(toc[i], 40).c_str());
      c.probe("entry survived damage");
    } else {
      if (out != "previous") c.fail("partial-output", "a failed read of %s left %zu bytes in the output", quote(toc[i], 40).c_str(), out.size());
      c.probe("entry rejected");
    }
    z->GetEntry(toc[i], NULL);
  }
  if (c.chance(1, 20)) {   // another archive that looks the same from outside
    std::vector<ziputil::Entry> a(1 + c.choose(3)), b;
    for (size_t i = 0; i < a.size(); ++i) { a[i].name = i < toc.size() && toc[i].size() < 200 && !toc[i].empty() ? toc[i] : "n" + std::to_string(i); a[i].deflate = false; a[i].data = c.blob(1 + c.choose(300)); }
    b = a; for (size_t i = 0; i < b.size(); ++i) for (size_t k = 0; k < b[i].data.size(); ++k) b[i].data[k] ^= 1;
    std::unique_ptr<kmlbase::ZipFile> za(kmlbase::ZipFile::OpenFromString(ziputil::build(a))), zb(kmlbase::ZipFile::OpenFromString(ziputil::build(b)));
    if (!za || !zb) c.fail("intact-rejected", "an undamaged archive cannot be opened");
    for (size_t i = 0; i < a.size(); ++i) {
      std::string x, y; bool twice = false; for (size_t k = 0; k < i; ++k) if (a[k].name == a[i].name) twice = true;
      if (twice) continue;
      if (!za->GetEntry(a[i].name, &x) || !zb->GetEntry(b[i].name, &y)) c.fail("intact-unreadable", "an entry of an undamaged archive cannot be read");
      if (x != a[i].data || y != b[i].data) c.fail("altered-content", "entry %s of one archive holds other bytes than were stored", quote(a[i].name).c_str());
    }
  }
  // The same through the KMZ layer.
  kmlengine::KmzFilePtr kmz = kmlengine::KmzFile::OpenFromString(zip);
  if (kmz) {
    std::string kml = "previous", name = "previous";
    if (kmz->ReadKmlAndGetPath(&kml, &name)) { if (!legit.count(kml)) c.fail("altered-content", "ReadKml returned bytes that were never stored"); }
    std::vector<std::string> l; kmz->List(&l);
    if (l.size() != toc.size()) c.fail("incomplete-listing", "List gives %zu, GetToc %zu", l.size(), toc.size());
    std::string saved; if (!kmz->SaveToString(&saved) || saved != zip) c.fail("saved-bytes", "SaveToString altered the archive");
    std::string err; std::unique_ptr<int> dummy;
    kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromParse(zip, &err);
    c.log("parse -> %d", kf != NULL);
  }
  c.state(hash_str(digest(zip)));
  c.nontrivial++;
}
SIM_PROP(C04, run);
