// C07: packing a document packs exactly its readable local references.
#include <algorithm>
#include "../core.h"
#include "../simfs.h"
#include "../ziputil.h"
#include "kml/base/file.h"
#include "kml/dom.h"
#include "kml/convenience/kmz_check_links.h"
#include "kml/engine.h"
using namespace sim;
using kmlengine::KmzFile;

static std::string esc(const std::string& s) {
  std::string r;
  for (char ch : s) { if (ch == '&') r += "&amp;"; else if (ch == '<') r += "&lt;"; else if (ch == '>') r += "&gt;"; else if (ch == '"') r += "&quot;"; else r += ch; }
  return r;
}
static std::string holder(Ctx& c, const std::string& r, int i) {
  std::string e = esc(r), n = "<name>n" + std::to_string(i) + "</name>";
  switch (c.choose(10)) {
    case 0: return "<Placemark>" + n + "<styleUrl>" + e + "</styleUrl></Placemark>";
    case 1: return "<GroundOverlay>" + n + "<Icon><href>" + e + "</href></Icon></GroundOverlay>";
    case 2: return "<NetworkLink>" + n + "<Link><href>" + e + "</href></Link></NetworkLink>";
    case 3: return "<Placemark><Style><IconStyle><Icon><href>" + e + "</href></Icon></IconStyle></Style></Placemark>";
    case 4: return "<Placemark><Model><Link><href>" + e + "</href></Link></Model></Placemark>";
    case 5: return "<Placemark><Model><ResourceMap><Alias><targetHref>" + e + "</targetHref><sourceHref>ignored.dae</sourceHref></Alias></ResourceMap></Model></Placemark>";
    case 6: return "<Placemark><ExtendedData><SchemaData schemaUrl=\"" + e + "\"><SimpleData name=\"a\">1</SimpleData></SchemaData></ExtendedData></Placemark>";
    case 7: return "<ScreenOverlay><Icon><href>" + e + "</href></Icon></ScreenOverlay>";
    case 8: return "<Folder><Folder><PhotoOverlay><Icon><href>" + e + "</href></Icon></PhotoOverlay></Folder></Folder>";
    default: return "<Folder><Style><ListStyle><ItemIcon><href>" + e + "</href></ItemIcon></ListStyle></Style></Folder>";
  }
}

// A reference as the documentation describes it. False if it may not be read.
static bool local(const std::string& ref, std::string* rel) {
  std::string p = ref.substr(0, ref.find('#'));
  if (p.empty() || p.find("://") != std::string::npos) return false;
  if (p.find('\\') != std::string::npos && p.size() > 1 && p[1] == ':') return false;
  std::replace(p.begin(), p.end(), '\\', '/');
  if (p[0] == '/') return false;
  std::vector<std::string> out; bool dir = false;
  for (size_t i = 0; i <= p.size();) {
    size_t j = p.find('/', i); if (j == std::string::npos) j = p.size();
    std::string s = p.substr(i, j - i);
    dir = false;
    if (s == ".") dir = true;
    else if (s == "..") { if (out.empty()) return false; out.pop_back(); dir = true; }
    else out.push_back(s);
    i = j + 1;
  }
  rel->clear();
  for (size_t i = 0; i < out.size(); ++i) *rel += (i ? "/" : "") + out[i];
  if (dir && !rel->empty()) *rel += "/";
  return true;
}

static void run(Ctx& c) {
  simfs::activate(true);
  static const char* kBases[] = {"/sim/p/q", "/sim/p", "proj", "/sim/p/q/"};
  std::string base = kBases[c.choose(4)];
  std::string under = simfs::norm(base);
  if (under.size() > 1 && under[under.size() - 1] == '/') under.resize(under.size() - 1);
  static const char* kFiles[] = {"a.jpg", "b b.png", "s/a.jpg", "s/t/c.dae", "d.kml", "e", "%41.jpg", "s/x&y.gif", "a.jpg?x=1", "\xc3\xa9.png", "s/s/a.jpg", "c:d.jpg", "empty.bin", "s/\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e\xe3\x81\xae\xe5\x86\x99\xe7\x9c\x9f\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e.jpg"};
  std::map<std::string, std::string> files;
  for (const char* f : kFiles) if (c.choose(4)) { files[f] = std::string(f) == "empty.bin" ? "" : c.blob(1 + (c.chance(1, 12) ? c.choose(70000) : c.choose(300))); simfs::put(under + "/" + f, files[f]); }
  // Things that must stay where they are.
  static const char* kOutside[] = {"/srv/passwd", "/sim/secret.txt", "/secret.txt", "/sim/p/secret.txt", "/a.jpg", "/sim/a.jpg", "/sim/projx/a.jpg", "/home/u/s/a.jpg", "/p/a.jpg", "/sim/qq/a.jpg"};
  for (const char* f : kOutside) if (simfs::norm(f).compare(0, under.size() + 1, under + "/") != 0 && !simfs::exists(f)) simfs::put(f, "SECRET " + std::string(f));
  static const char* kRefs[] = {"a.jpg", "./a.jpg", "a.jpg#frag", "s/../a.jpg", "b b.png", "s/a.jpg", "s/t/c.dae", "s/./t/c.dae", "d.kml#style", "d.kml", "e", "%41.jpg", "s/x&y.gif", "a.jpg?x=1", "\xc3\xa9.png", "s/s/a.jpg", "s/s/../a.jpg", "c:d.jpg", "missing.jpg", "s/missing.jpg", "empty.bin", "s/\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e\xe3\x81\xae\xe5\x86\x99\xe7\x9c\x9f\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e.jpg",
    "../secret.txt", "../../secret.txt", "s/../../secret.txt", "/srv/passwd", "/a.jpg", "//srv/passwd", "http://h/a.jpg", "https://h/s/a.jpg", "file:///srv/passwd", "ftp://h/e", "#local", "s/t/../../../secret.txt", "..", ".", "s/..", "./../secret.txt",
    "..\\secret.txt", "s\\a.jpg", "s\\..\\..\\secret.txt", "s\\../../secret.txt", "s/..\\..\\secret.txt", "C:\\a.jpg", "s\\t/c.dae", "..\\..\\..\\srv\\passwd", "s\\x/../../../../../../srv/passwd", "a.jpg\\../../../../../srv/passwd", "http:\\\\h\\a.jpg", "s%2F..%2F..%2Fsecret.txt", "s/%2e%2e/%2e%2e/secret.txt", "././s/a.jpg", "s//a.jpg"};
  const unsigned kN = sizeof(kRefs) / sizeof(kRefs[0]);
  std::vector<std::string> refs;
  unsigned n = c.chance(1, 8) ? c.choose(60) : c.choose(9);
  bool mean = c.choose(3) != 0;
  for (unsigned i = 0; i < n; ++i) {
    if (!refs.empty() && c.chance(1, 6)) { refs.push_back(c.pick(refs)); continue; }
    if (c.chance(1, 5)) {  // a random walk
      static const char* kSeg[] = {"s", "t", "..", ".", "a.jpg", "secret.txt", "p", "q", "e"};
      std::string r; unsigned k = 1 + c.choose(6);
      for (unsigned j = 0; j < k; ++j) r += (j ? (c.chance(1, 5) ? "\\" : "/") : "") + std::string(kSeg[c.choose(9)]);
      refs.push_back(r);
    } else refs.push_back(kRefs[c.choose(mean ? kN : 22)]);
  }
  unsigned api = c.choose(4);
  // The document.
  std::string kml = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document>";
  for (size_t i = 0; i < refs.size(); ++i) kml += holder(c, refs[i], (int)i);
  kml += "</Document></kml>";
  // What must happen.
  std::vector<std::string> want; std::set<std::string> seen; size_t errors = 0, absent = 0;
  for (size_t i = 0; i < refs.size(); ++i) {
    std::string rel;
    if (!local(refs[i], &rel)) { ++errors; continue; }
    if (!seen.insert(rel).second) continue;
    std::string at = simfs::norm(under + "/" + rel);
    if (rel.empty() || rel[rel.size() - 1] == '/' || at.compare(0, under.size() + 1, under + "/") != 0 || !files.count(at.substr(under.size() + 1))) { ++errors; ++absent; continue; }
    want.push_back(rel);
  }
  simfs::Faults f;
  unsigned mode = c.choose(5);
  if (mode == 1) f.read_short = 80;
  if (mode == 2) { f.read_err = 20 + c.choose(60); f.eintr = c.choose(2) * 20; }
  if (mode == 3) { f.open_fail = 30 + c.choose(60); f.read_short = c.choose(2) * 60; }
  if (mode == 4) { if (c.choose(2)) f.write_err = 20; else f.capacity = c.size_upto(2000); f.write_short = c.choose(2) * 60; }
  if (mode >= 2) f.skip = c.choose(12);
  const bool late = c.chance(1, 4);
  std::string out = c.choose(4) ? "/sim/out.kmz" : "out.kmz";
  if (c.chance(1, 4)) simfs::put(out, c.blob(100));
  kmlengine::KmlFilePtr kf; kmldom::ElementPtr root;
  std::string doc_path = under + "/main.kml", err;
  simfs::put(doc_path, kml);
  if (api == 1) { kf = kmlengine::KmlFile::CreateFromStringWithUrl(kml, base, NULL); if (!kf) c.fail("model", "the document is refused"); }
  if (api == 2) { root = kmldom::Parse(kml, &err); if (!root) c.fail("model", "the document is refused"); }
  for (size_t i = 0; i < refs.size(); ++i) c.log("ref %s", quote(refs[i]).c_str());
  std::map<std::string, std::string> before = simfs::snapshot();
  simfs::mark();
  simfs::faults() = f;
  bool ok = false; size_t reported = 0;
  switch (api) {
    case 0: ok = KmzFile::CreateFromKmlFilepath(doc_path, out); break;
    case 1: ok = KmzFile::CreateFromKmlFile(kf, out); break;
    case 2: ok = KmzFile::CreateFromElement(root, base, out); break;
    default: {
      kmlengine::KmzFilePtr z = KmzFile::Create(out.c_str());
      if (z) {
        bool doc = z->AddFile(kml, "doc.kml");
        reported = z->AddFileList(base, refs);
        ok = z->Close() && doc;
        if (late) {   // nothing can be added any more: each reference counts as failed
          size_t all = z->AddFileList(base, refs);
          if (all != errors + want.size()) c.fail("late-count", "%zu failures reported for a finished archive, %zu references", all, errors + want.size());
        }
        z = NULL;
      }
    }
  }
  simfs::Counters k = simfs::counters();
  std::set<std::string> reads = simfs::read_paths(), touched = simfs::touched_paths();
  simfs::no_faults();
  c.log("api %u base %s -> %d, %zu errors, hard %u", api, base.c_str(), ok, reported, k.hard);
  for (std::set<std::string>::iterator i = reads.begin(); i != reads.end(); ++i)
    if (i->compare(0, under.size() + 1, under + "/") != 0 && *i != under && *i != simfs::norm(out)) c.fail("outside", "%s was opened while packing a document of %s", quote(*i).c_str(), under.c_str());
  for (std::set<std::string>::iterator i = touched.begin(); i != touched.end(); ++i)
    if (*i != simfs::norm(out)) c.fail("touched", "%s was written or removed while packing", quote(*i).c_str());
  std::map<std::string, std::string> after = simfs::snapshot();
  before.erase(simfs::norm(out)); after.erase(simfs::norm(out));
  if (before != after) c.fail("touched", "packing changed other files");
  if (simfs::open_handles()) c.fail("handle-leak", "%zu descriptors left open", simfs::open_handles());
  if (!ok) {
    if (!k.hard && !k.soft) c.fail("spurious-failure", "packing failed without a fault");
    c.probe("packing reported failure");
    return;
  }
  std::vector<ziputil::Listed> got; std::string why;
  if (!ziputil::read(simfs::content(out), &got, &why)) c.fail("archive", "the archive is inconsistent: %s", why.c_str());
  if (got.empty() || got[0].name != "doc.kml") c.fail("first", "the first entry is %s", got.empty() ? "missing" : quote(got[0].name).c_str());
  if (api == 3) { if (got[0].data != kml) c.fail("document", "the packed document differs"); }
  else {
    kmldom::ElementPtr a = kmldom::Parse(got[0].data, NULL), b = kmldom::Parse(kml, NULL);
    if (!a || kmldom::SerializeRaw(a) != kmldom::SerializeRaw(b)) c.fail("document", "the packed document differs: %s", quote(got[0].data, 300).c_str());
  }
  size_t w = 0, missing = 0;
  for (size_t i = 1; i < got.size(); ++i) {
    while (w < want.size() && want[w] != got[i].name) { ++w; ++missing; }
    if (w == want.size()) c.fail("unexpected", "entry %s was packed (again, out of order, or although it may not be)", quote(got[i].name).c_str());
    if (got[i].data != simfs::content(under + "/" + want[w])) c.fail("content", "entry %s differs from the file", quote(want[w]).c_str());
    ++w;
  }
  missing += want.size() - w;
  if (missing > k.hard + k.soft) c.fail("missing", "%zu readable references were not packed, %u reads failed", missing, k.hard + k.soft);
  if (missing) c.probe("a reference could not be read");
  if (api == 3 && reported != errors + missing) c.fail("count", "%zu failures reported: %zu references may not be packed or do not exist, %zu could not be read", reported, errors, missing);
  {   // Which references does the archive not hold?
    kmlengine::KmzFilePtr z = KmzFile::OpenFromString(simfs::content(out));
    if (!z) c.fail("archive", "the archive cannot be opened");
    std::map<std::string, bool> held; for (size_t i = 0; i < got.size(); ++i) held[got[i].name] = !got[i].data.empty();
    std::vector<std::string> lost; bool all = kmlconvenience::KmzCheckLinks(*z, &lost), none = kmlconvenience::KmzCheckLinks(*z, NULL);
    if (all != none || all != lost.empty()) c.fail("check", "checking the links of an archive says %d and %d with %zu missing", all, none, lost.size());
    size_t l = 0;
    for (size_t i = 0; i < refs.size(); ++i) {
      std::string p = refs[i].substr(0, refs[i].find('#')); size_t s = refs[i].find("://");
      bool relative = !p.empty() && (s == std::string::npos || s == 0), maybe = relative && (p[0] == '/' || p.find('\\') != std::string::npos || (held.count(p) && !held[p]));
      bool named = l < lost.size() && lost[l] == refs[i];
      if (maybe) { if (named) ++l; continue; }
      if (relative && !held.count(p)) { if (!named) c.fail("check", "%s is not in the archive; checking its links does not say so", quote(refs[i]).c_str()); ++l; }
    }
    if (l != lost.size()) c.fail("check", "checking the links of the archive names %s", quote(lost[l]).c_str());
  }
  if (!want.empty()) c.nontrivial++;
  c.state(hash_bytes(&api, 4, want.size() * 10007 + errors * 101 + missing * 11 + (got.size() << 20)));
}
SIM_PROP(C07, run);
