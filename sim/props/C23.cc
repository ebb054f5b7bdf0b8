// C23: running out of memory in the XML and zip engines is reported.
#include <functional>
#include <map>
#include <memory>
#include "../core.h"
#include "../gen.h"
#include "../parseutil.h"
#include "../simalloc.h"
#include "../simfs.h"
#include "../simmem.h"
#include "../simnet.h"
#include "../simstream.h"
#include "../ziputil.h"
#include "kml/base/expat_parser.h"
#include "kml/base/uri_parser.h"
#include "kml/base/zip_file.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/dom.h"
#include "kml/engine/href.h"
#include "kml/engine/get_links.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kmz_file.h"
#include "kml/xsd/xsd_element.h"
#include "kml/xsd/xsd_file.h"
using namespace sim;
using namespace kmldom;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;

namespace {
// What the library said it did: an answer is present only if it reported
// success. `prefix` marks answers of which a beginning is allowed.
struct Answers { std::map<std::string, std::string> done; std::map<std::string, bool> prefix; size_t refused = 0; };
typedef std::function<void(Ctx&, Answers*)> Act;
struct Named { std::string name; Act act; };
void say(Answers* a, const std::string& k, const std::string& v, bool prefix = false) { InHarness ih; a->done[k] = v; if (prefix) a->prefix[k] = true; }

std::string doc(Ctx& c, bool feature, bool prefixes = true) { gen::Opts o; if (!prefixes) o.unknown = o.gx = false; o.budget = 3 + c.choose(20); o.feature_only = feature;
  gen::Node n = gen::document(c, o);
  if (!prefixes) for (size_t i = n.attrs.size(); i-- > 0;) if (n.attrs[i].first.compare(0, 6, "xmlns:") == 0) n.attrs.erase(n.attrs.begin() + i);
  return gen::write(c, n, gen::spelling(c));
}
Named parse_act(Ctx& c) {
  unsigned mode = c.choose(7); bool quiet = c.choose(3) == 0;  // quiet: no string for the errors
  // expat takes a prefix declaration for an ordinary attribute if it cannot
  // allocate its record: namespace-aware parsing is done without prefixes.
  std::string x = doc(c, false, mode != 1 && mode != 2); if (c.choose(3) == 0) { size_t p = x.find('>', x.find("<kml")); if (p != std::string::npos) x.insert(p + 1, "<!--" + std::string(c.choose(20000), 'p') + "-->"); }
  if (c.choose(4) == 0) { size_t p = x.find("<kml"); if (p != std::string::npos) x.insert(p + 4, " long=\"" + std::string(c.choose(9000), 'a') + "\""); }
  return Named{"parse " + std::to_string(mode), [=](Ctx& c, Answers* a) {
    std::string err, *e = quiet ? NULL : &err;
    if (mode < 3) { ElementPtr r = mode == 0 ? Parse(x, e) : mode == 1 ? ParseNS(x, e) : ParseAtom(x, e); if (r) say(a, "document", SerializeRaw(r)); }
    else if (mode == 3) {
      Recorder rec; Parser p; p.AddObserver(&rec); ElementPtr r = p.Parse(x, e); if (r) say(a, "document", SerializeRaw(r));
      std::string ev; for (size_t i = 0; i < rec.events.size(); ++i) { InHarness ih; ev += "+"; } say(a, "notifications", ev, true); InHarness ih; rec.keep.clear(); rec.events.clear();
    }
    else if (mode == 4) { InBuf b(c, x, x.size(), false, 3000); std::istream in(&b); std::unique_ptr<kmlengine::KmlStream> k(kmlengine::KmlStream::ParseFromIstream(&in, e, NULL)); if (k) say(a, "document", k->get_root() ? SerializeRaw(k->get_root()) : "none"); }
    else { KmlFilePtr k = mode == 5 ? KmlFile::CreateFromParse(x, e) : KmlFile::CreateFromString(x); if (k) { std::string s; if (k->SerializeToString(&s)) say(a, "document", s); } kmlengine::href_vector_t v; if (kmlengine::GetLinks(x, &v)) { std::string l; for (auto& h : v) l += h + " "; say(a, "links", l); } }
  }};
}
class Gpx : public kmlconvenience::GpxTrkPtHandler { public: std::string out; void HandlePoint(const kmlbase::Vec3& w, const std::string& when) override { out += format("%.9g %.9g %s;", w.get_latitude(), w.get_longitude(), when.c_str()); } };
Named other_act(Ctx& c) {
  std::string g = "<gpx>"; for (unsigned i = c.choose(20); i-- > 0;) g += format("<trkpt lat=\"%u\" lon=\"%u\"><time>t%u</time></trkpt>", c.choose(90), c.choose(180), i); g += "</gpx>";
  std::string x = "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:k=\"http://k\" targetNamespace=\"http://k\">"; for (unsigned i = 1 + c.choose(20); i-- > 0;) x += format("<element name=\"e%u\" type=\"string\"/>", i); x += "</schema>";
  std::string base = "http://h" + std::to_string(c.choose(100)) + ".com/a/b.kmz/doc.kml", rel = c.choose(2) ? "../c/d.kml#x" : "e%20f.png";
  bool quiet = c.choose(3) == 0; size_t piece = c.choose(2) ? 0 : 1 + c.choose(3000);
  return Named{"tracks, schemas, addresses", [=](Ctx&, Answers* a) {
    std::string err, *e = quiet ? NULL : &err; Gpx h; bool ok;
    if (!piece) ok = kmlbase::ExpatParser::ParseString(g, &h, e, false);
    else {
      kmlbase::ExpatParser p(&h, false); ok = true;
      for (size_t i = 0; ok && i < g.size(); i += piece) ok = p.ParseBuffer(g.substr(i, piece), e, i + piece >= g.size());
    } say(a, "points", h.out, !ok);
    std::unique_ptr<kmlxsd::XsdFile> f(kmlxsd::XsdFile::CreateFromParse(x, e)); if (f) { kmlxsd::XsdElementVector v; f->GetAllElements(&v); std::string l; for (auto& i : v) l += i->get_name() + " "; say(a, "elements", l); }
    std::string u; if (kmlengine::ResolveUri(base, rel, &u)) say(a, "resolved", u);
    std::string k; if (kmlengine::KmzSplit(base, &u, &k)) say(a, "split", u + " " + k);
    if (kmlbase::UriParser::UriToFilename("file:///a/b%20c", &u)) say(a, "filename", u);
    if (kmlbase::UriParser::FilenameToUri("/a/b c", &u)) say(a, "uri", u);
  }};
}
Named read_act(Ctx& c) {
  std::vector<ziputil::Entry> es; unsigned n = 1 + c.choose(4);
  for (unsigned i = 0; i < n; ++i) { ziputil::Entry e; e.name = i ? "f" + std::to_string(i) : "doc.kml"; e.data = i ? c.blob(1 + c.choose(40000)) : doc(c, true); e.deflate = c.choose(4) != 0; e.descriptor = c.chance(1, 4); es.push_back(e); }
  std::string z = ziputil::build(es); unsigned mode = c.choose(3);
  return Named{"read archive " + std::to_string(mode), [=](Ctx&, Answers* a) {
    std::string s, p; std::vector<std::string> v;
    auto toc = [&]() { std::string l; for (auto& i : v) l += i + " "; if (!v.empty()) say(a, "contents", l); };
    if (mode == 2) { KmlFilePtr k = KmlFile::CreateFromString(z); if (k && k->SerializeToString(&s)) say(a, "document", s); return; }
    if (mode == 1) {
      std::unique_ptr<kmlbase::ZipFile> f(kmlbase::ZipFile::OpenFromString(z));
      if (!f) return;
      if (f->GetToc(&v)) toc();
      for (unsigned i = 0; i < n; ++i) { s = "untouched"; if (f->GetEntry(es[i].name, &s)) say(a, "entry " + es[i].name, s); else if (s != "untouched") say(a, "failed " + es[i].name, s); }
      return;
    }
    { InHarness ih; simfs::put("/w/in.kmz", z); }
    KmzFilePtr k = KmzFile::OpenFromFile("/w/in.kmz");
    if (!k) return;
    if (k->List(&v)) toc();
    if (k->ReadKmlAndGetPath(&s, &p)) say(a, "kml", p + " " + s);
    for (unsigned i = 0; i < n; ++i) if (k->ReadFile(es[i].name.c_str(), &s)) say(a, "entry " + es[i].name, s);
  }};
}
Named write_act(Ctx& c) {
  unsigned n = 1 + c.choose(4), mode = c.choose(3); std::vector<std::pair<std::string, std::string> > es;
  for (unsigned i = 0; i < n; ++i) es.push_back(std::make_pair(i ? "f" + std::to_string(i) : "doc.kml", i ? c.blob(1 + c.choose(40000)) : doc(c, true)));
  return Named{"write archive " + std::to_string(mode), [=](Ctx& c, Answers* a) {
    bool ok = true; std::vector<std::pair<std::string, std::string> > in;
    if (mode == 0) { ok = KmzFile::WriteKmz("/w/o.kmz", es[0].second.c_str()); if (!ok) ++a->refused; InHarness ih; in.assign(1, es[0]); }
    else if (mode == 1) {
      std::unique_ptr<kmlbase::ZipFile> f(kmlbase::ZipFile::Create("/w/o.kmz")); ok = f != NULL;
      for (unsigned i = 0; i < n && f; ++i) { if (f->AddEntry(es[i].second, es[i].first)) { InHarness ih; in.push_back(es[i]); } else { ok = false; ++a->refused; } }
      if (f && !f->Close()) ok = false;
    } else {
      KmzFilePtr k = KmzFile::Create("/w/o.kmz"); ok = k != NULL;
      for (unsigned i = 0; i < n && k; ++i) { if (k->AddFile(es[i].second, es[i].first)) { InHarness ih; in.push_back(es[i]); } else { ok = false; ++a->refused; } }
      if (k && !k->Close()) ok = false;
    }
    InHarness ih;
    if (!ok) return;
    std::vector<ziputil::Listed> l; std::string why, all;
    if (!ziputil::read(simfs::content("/w/o.kmz"), &l, &why)) c.fail("archive", "writing succeeded but the archive is not sound: %s", why.c_str());
    if (l.size() != in.size()) c.fail("archive", "writing succeeded but %zu of %zu entries are in the archive", l.size(), in.size());
    for (size_t i = 0; i < l.size(); ++i) { if (l[i].name != in[i].first || l[i].data != in[i].second) c.fail("archive", "writing succeeded but entry %zu differs", i); all += l[i].name + digest(l[i].data); }
    say(a, "archive", all);
  }};
}
// A cache that lives through the shortage.
Named cache_act(Ctx& c) {
  std::vector<ziputil::Entry> es; ziputil::Entry e; e.name = "a.kml"; e.data = doc(c, true); es.push_back(e); e.name = "i.png"; e.data = c.blob(1 + c.choose(4000)); es.push_back(e);
  std::string z = ziputil::build(es), m = doc(c, true); size_t size = 1 + c.choose(3); unsigned again = 1 + c.choose(3);
  return Named{"cache", [=](Ctx& c, Answers* a) {
    SimNet net(c); { InHarness ih; net.put("http://h/m.kml", m); net.put("http://h/z.kmz", z); }
    kmlengine::KmlCache cache(&net, size);
    auto go = [&](const std::string& t) {
      std::string s;
      KmlFilePtr k = cache.FetchKmlAbsolute("http://h/m.kml"); s.clear(); if (k && k->SerializeToString(&s)) say(a, t + "m", s);
      k = cache.FetchKmlAbsolute("http://h/z.kmz"); s.clear(); if (k && k->SerializeToString(&s)) say(a, t + "z", s);
      k = cache.FetchKmlRelative("http://h/z.kmz/a.kml", "a.kml"); s.clear(); if (k && k->SerializeToString(&s)) say(a, t + "za", s);
      s.clear(); if (cache.FetchDataRelative("http://h/z.kmz/a.kml", "i.png", &s)) say(a, t + "zi", s);
      s.clear(); if (cache.FetchDataRelative("http://h/m.kml", "z.kmz/i.png", &s)) say(a, t + "mzi", s);
    };
    for (unsigned i = 0; i < again; ++i) go(std::to_string(i));
    simalloc::stop();                   // memory is back
    go("healed ");
  }};
}
Named pick(Ctx& c) {
  switch (c.choose(8)) { case 0: case 1: return parse_act(c); case 2: return other_act(c); case 3: case 4: return read_act(c); case 5: case 6: return write_act(c); default: return cache_act(c); }
}
void compare(Ctx& c, const std::string& name, const Answers& want, const Answers& got, bool complete) {
  for (auto& g : got.done) {
    auto w = want.done.find(g.first);
    if (w == want.done.end()) c.fail("invented", "%s answers %s only when memory is short: %s", name.c_str(), g.first.c_str(), quote(g.second).c_str());
    if (g.second == w->second) continue;
    if (got.prefix.count(g.first) && w->second.compare(0, g.second.size(), g.second) == 0 && !complete) continue;
    c.fail("altered", "%s: %s is %s, should be %s", name.c_str(), g.first.c_str(), quote(g.second).c_str(), quote(w->second).c_str());
  }
  for (auto& w : want.done) if ((complete || w.first.compare(0, 7, "healed ") == 0) && !got.done.count(w.first))
    c.fail("not-recovered", "%s: %s still fails when memory is available again", name.c_str(), w.first.c_str());
}
}  // namespace

static void run(Ctx& c) {
  simfs::activate(true); simfs::mkdir("/w"); simfs::mkdir("/tmp");
  unsigned n = 1 + c.choose(2);
  for (unsigned i = 0; i < n; ++i) {
    Named a = pick(c);
    simalloc::Plan plan = simalloc::plan(c), none;
    Answers want, got, after;
    std::vector<uint32_t> draws;
    auto perform = [&](Answers* out, const simalloc::Plan& p) {
      { InHarness ih; std::map<std::string, std::string> s = simfs::snapshot(); for (auto& k : s) simfs::rm(k.first); }
      simmem::start(); simalloc::start(p);
      try { a.act(c, out); } catch (...) { simalloc::stop(); simmem::stop(); throw; }
      simalloc::stop(); simmem::stop();
      InHarness ih;
      if (simfs::open_handles()) c.fail("descriptor", "%s left %zu files open", a.name.c_str(), simfs::open_handles());
    };
    perform(&want, none);
    uint64_t calls = simalloc::calls();
    c.log("operation %s: %zu answers, %llu allocations; plan %d %llu", a.name.c_str(), want.done.size(), (unsigned long long)calls, plan.mode, (unsigned long long)plan.k);
    c.tap = &draws;
    try { perform(&got, plan); } catch (...) { c.tap = NULL; throw; }
    c.tap = NULL;
    uint64_t failed = simalloc::failures();
    // minizip's writer (a system library) drops an entry's header block when
    // the compressor cannot be set up.
    size_t left = simmem::report().outstanding; left = left > got.refused ? left - got.refused : 0;
    compare(c, a.name, want, got, failed == 0);
    for (unsigned k = 0; left && k < 3; ++k) { Again again(c, draws); Answers x; perform(&x, plan); left = simmem::report().outstanding; left = left > x.refused ? left - x.refused : 0; }
    if (left) c.fail("leak", "%s keeps %zu blocks (one of %zu bytes) each time it is repeated", a.name.c_str(), left, simmem::an_outstanding_size());
    perform(&after, none);
    compare(c, a.name, want, after, true);
    if (failed) ++c.nontrivial;
    c.log("%llu failures, %zu of %zu answers", (unsigned long long)failed, got.done.size(), want.done.size());
    c.state(hash_str(format("%s %d %llu %zu %zu", a.name.c_str(), plan.mode, (unsigned long long)(failed > 6 ? 6 : failed), got.done.size(), want.done.size())));
  }
}
SIM_PROP(C23, run);
