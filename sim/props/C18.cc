// C18: failed and cancelled operations release everything they acquired.
#include <memory>
#include <sstream>
#include "../core.h"
#include "../gen.h"
#include "../parseutil.h"
#include "../simfs.h"
#include "../simmem.h"
#include "../simnet.h"
#include "../simstream.h"
#include "../workload.h"
#include "../ziputil.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include "kml/base/zip_file.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/http_client.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/dom.h"
#include "kml/dom/xml_serializer.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/link_util.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/href.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/update.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/xsd/xsd_file.h"
using namespace sim;
using namespace kmldom;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;

namespace {
struct Thrown {};
typedef std::function<void(Ctx&)> Act;
struct Named { std::string name; Act act; };

std::string doc(Ctx& c, bool feature = false) { gen::Opts o; o.budget = 3 + c.choose(14); o.feature_only = feature; o.misplaced = c.chance(1, 6); return gen::write(c, gen::document(c, o), gen::spelling(c)); }
std::string maybe_damaged(Ctx& c, std::string s, unsigned of) {
  if (s.empty() || c.choose(of)) return s;
  InHarness ih;
  switch (c.choose(3)) { case 0: s.resize(c.choose((uint32_t)s.size())); break; case 1: s[c.choose((uint32_t)s.size())] ^= (char)(1 + c.choose(255)); break; default: { size_t a = c.choose((uint32_t)s.size()); s.erase(a, 1 + c.choose(40)); } }
  return s;
}
// Cancels or refuses at a seeded notification.
class Capricious : public ParserObserver {
 public:
  Capricious(Ctx& c, unsigned rate) : c_(c), rate_(rate) {}
  bool NewElement(const ElementPtr&) override { return !hit("cancelled on new"); }
  bool EndElement(const ElementPtr&, const ElementPtr&) override { return !hit("refused child"); }
  bool AddChild(const ElementPtr&, const ElementPtr&) override { return !hit("cancelled on add"); }
 private:
  bool hit(const char* k) { if (!rate_ || !c_.chance(1, rate_)) return false; c_.fault(k); return true; }
  Ctx& c_; unsigned rate_;
};
Named parse_act(Ctx& c) {
  std::string x = doc(c); if (c.choose(2)) x = gen::mangle(c, x);
  if (c.chance(1, 4)) for (size_t p = x.find("id=\"i"); p != std::string::npos; p = x.find("id=\"i", p + 1)) { size_t e = x.find('"', p + 4); if (e != std::string::npos) x.replace(p, e - p, "id=\"i0"); }   // every id the same
  unsigned mode = c.choose(5), rate = c.choose(2) ? 4 + c.choose(30) : 0;
  size_t end = c.choose(3) ? x.size() : c.choose((uint32_t)x.size() + 1); bool error = c.choose(2);
  return Named{"parse", [=](Ctx& c) {
    std::string e; Capricious o(c, rate);
    if (mode == 0) { Parser p; p.AddObserver(&o); p.Parse(x, &e); }
    else if (mode == 1) { ElementPtr r = ParseNS(x, &e); }
    else if (mode == 2) { InBuf b(c, x, end, error && end < x.size(), 3000); std::istream in(&b); std::unique_ptr<kmlengine::KmlStream> k(kmlengine::KmlStream::ParseFromIstream(&in, &e, &o)); }
    else if (mode == 3) { KmlFilePtr k = KmlFile::CreateFromParse(x, &e); if (k) { std::string s; k->SerializeToString(&s); } KmlFilePtr d = KmlFile::CreateFromParse(x + x, &e); }
    else { ElementPtr r = ParseAtom(x, &e); r = Parse(x, NULL); if (r) { KmlFilePtr a = KmlFile::CreateFromImport(r); KmlFilePtr b = KmlFile::CreateFromImportLax(r); } }
  }};
}
Named serialize_act(Ctx& c) {
  std::string x = doc(c); size_t room = c.choose(800); bool throws = c.choose(2); unsigned buf = c.choose(2) ? 64 : 0;
  return Named{"serialize", [=](Ctx& c) {
    KmlFilePtr k = KmlFile::CreateFromParse(x, NULL);
    if (!k) return;
    OutBuf b(c, room, throws ? OutBuf::kThrow : OutBuf::kRefuse, buf); std::ostream os(&b);
    k->SerializeToOstream(&os);
    std::string s; k->SerializeToString(&s); SerializePretty(k->get_root());
  }};
}
Named kmz_act(Ctx& c) {
  std::vector<ziputil::Entry> es; unsigned n = 1 + c.choose(4);
  for (unsigned i = 0; i < n; ++i) { ziputil::Entry e; e.name = i ? "f" + std::to_string(i) : "doc.kml"; e.data = i ? c.blob(1 + c.choose(9000)) : doc(c, true); e.deflate = c.choose(3) != 0; e.descriptor = c.chance(1, 4); if (c.chance(1, 6)) e.claim_usize_local = e.claim_usize_central = c.choose(20000); if (c.chance(1, 8)) e.claim_crc = c.choose(100000); es.push_back(e); }
  std::string z = ziputil::build(es); unsigned mode = c.choose(3);
  return Named{"archive read", [=](Ctx& c) {
    std::string d = maybe_damaged(c, z, 2), s, p; std::vector<std::string> v;
    if (d != z) c.fault("damaged archive");
    KmzFilePtr k;
    if (mode == 0) k = KmzFile::OpenFromString(d);
    else if (mode == 1) { { InHarness ih; simfs::put("/w0/in.kmz", d); } k = KmzFile::OpenFromFile("/w0/in.kmz"); }
    else { KmlFilePtr f = KmlFile::CreateFromString(d); std::unique_ptr<kmlbase::ZipFile> zf(kmlbase::ZipFile::OpenFromString(d)); if (zf) { zf->set_max_uncompressed_file_size(3000); zf->GetToc(&v); for (size_t i = 0; i < v.size(); ++i) zf->GetEntry(v[i], &s); } }
    if (k) { k->List(&v); for (size_t i = 0; i < v.size(); ++i) k->ReadFile(v[i].c_str(), &s); k->ReadKmlAndGetPath(&s, &p); k->ReadFile("absent", &s); }
  }};
}
Named pack_act(Ctx& c) {
  std::string x = "<kml><Document><GroundOverlay><Icon><href>a.png</href></Icon></GroundOverlay><GroundOverlay><Icon><href>sub/b.png</href></Icon></GroundOverlay><GroundOverlay><Icon><href>none.png</href></Icon></GroundOverlay></Document></kml>";
  std::string a = c.blob(1 + c.choose(6000)); unsigned mode = c.choose(3);
  return Named{"archive write", [=](Ctx& c) {
    { InHarness ih; simfs::put("/w0/d.kml", x); simfs::put("/w0/a.png", a); simfs::put("/w0/sub/b.png", a); }
    if (mode == 0) KmzFile::CreateFromKmlFilepath("/w0/d.kml", "/w0/o.kmz");
    else if (mode == 1) { KmlFilePtr k = KmlFile::CreateFromStringWithUrl(x, "/w0/d.kml", NULL); if (k) KmzFile::CreateFromKmlFile(k, "/w0/o.kmz"); }
    else { KmzFilePtr k = KmzFile::Create("/w0/o.kmz"); if (k) { k->AddFile(x, "doc.kml"); k->AddFile(a, "x/../../y"); k->AddFile(a, "y"); } KmzFile::WriteKmz("/w0/o2.kmz", x); }
  }};
}
Named net_act(Ctx& c) {
  std::string st = "<kml><Document><Style id=\"s\"><LineStyle><width>2</width></LineStyle></Style><StyleMap id=\"m\"><Pair><key>normal</key><styleUrl>main.kml#m2</styleUrl></Pair></StyleMap></Document></kml>";
  std::string main = "<kml><Document id=\"d\"><StyleMap id=\"m2\"><Pair><key>normal</key><styleUrl>s.kml#m</styleUrl></Pair></StyleMap><Placemark id=\"p\"><styleUrl>s.kml#m</styleUrl></Placemark><NetworkLink id=\"l\"><Link><href>z.kmz</href></Link></NetworkLink><GroundOverlay id=\"g\"><Icon><href>z.kmz/i.png</href></Icon></GroundOverlay></Document></kml>";
  std::vector<ziputil::Entry> es; ziputil::Entry e; e.name = "a.kml"; e.data = doc(c, true); es.push_back(e); e.name = "i.png"; e.data = c.blob(400); es.push_back(e);
  std::string z = ziputil::build(es); unsigned cap = 1 + c.choose(3), fail = c.choose(2) ? 60 : 0, damage = c.choose(2) ? 60 : 0, throws = c.choose(3) ? 0 : 40;
  return Named{"cache", [=](Ctx& c) {
    SimNet net(c);
    { InHarness ih; net.put("http://h/main.kml", main); net.put("http://h/s.kml", st); net.put("http://h/z.kmz", z); net.rates.fail = fail; net.rates.damage = damage; net.rates.throws = throws; }
    {
      kmlengine::KmlCache cache(&net, cap);
      try {
        for (int i = 0; i < 3; ++i) {
          KmlFilePtr k = cache.FetchKmlAbsolute("http://h/main.kml");
          if (k) {
            FeaturePtr p = AsFeature(k->GetObjectById("p")); NetworkLinkPtr l = AsNetworkLink(k->GetObjectById("l")); OverlayPtr g = AsOverlay(k->GetObjectById("g")); std::string d;
            if (p) StylePtr s = kmlengine::CreateResolvedStyle(p, k, STYLESTATE_NORMAL);   // a damaged response may lack them
            if (l) KmlFilePtr t = kmlengine::FetchLink(k, l);
            if (g) kmlengine::FetchIcon(k, g, &d);
          }
          KmlFilePtr r = cache.FetchKmlRelative("http://h/z.kmz", "a.kml"); std::string d; cache.FetchDataRelative("http://h/main.kml", "none", &d);
        }
      } catch (std::exception&) {}
    }
    InHarness ih; std::vector<SimNet::Request>().swap(net.log); net.res.clear();
  }};
}
Named csv_act(Ctx& c) {
  std::string t = "name,latitude,longitude,x\n"; unsigned n = c.choose(20), stop = c.choose(30); bool throws = c.choose(2), file = c.choose(2);
  for (unsigned i = 0; i < n; ++i) t += c.chance(1, 6) ? std::string("bad,\"line\n") : "n" + std::to_string(i) + "," + std::to_string(i % 80) + ".5,3,\"q\"\"q\"\n";
  std::string old; for (unsigned i = 0; i < n; ++i) old += std::to_string(i) + "|1.5|2.5|name|desc\n";
  return Named{"csv", [=](Ctx& c) {
    if (file) { { InHarness ih; simfs::put("/w0/c.csv", old); } kmlconvenience::FeatureList fl; kmlconvenience::CsvFile f(&fl); f.ParseCsvFile("/w0/c.csv"); DocumentPtr d = KmlFactory::GetFactory()->CreateDocument(); fl.Save(d); return; }
    class H : public kmlconvenience::CsvParserHandler { public: Ctx* c; unsigned stop, n; bool throws; bool HandleLine(int, kmlconvenience::CsvParserStatus, PlacemarkPtr) override { if (n++ == stop) { c->fault("consumer stops"); if (throws) throw Thrown(); return false; } return true; } } h;
    h.c = &c; h.stop = stop; h.n = 0; h.throws = throws;
    { InHarness ih; simfs::put("/w0/d.csv", t); }
    std::string data;
    if (!kmlbase::File::ReadFileToString("/w0/d.csv", &data)) return;
    kmlbase::CsvSplitter sp(data);
    try { kmlconvenience::CsvParser::ParseCsv(&sp, &h); } catch (Thrown&) {}
  }};
}
Named update_act(Ctx& c) {
  std::string x = doc(c, true), u = "<Update><targetHref>t</targetHref><Create><Document targetId=\"i1\"><Placemark/></Document><Folder targetId=\"i2\">" + std::string("<Folder id=\"n\"><Placemark id=\"o\"/></Folder></Folder></Create><Change><Placemark targetId=\"i1\"><name>x</name></Placemark><Placemark targetId=\"i3\"><Style/></Placemark></Change><Delete><Placemark targetId=\"i2\"/><Folder targetId=\"i1\"/><GroundOverlay targetId=\"i4\"/></Delete></Update>");
  bool mangled = c.choose(3) == 0; if (mangled) u = gen::mangle(c, u);
  return Named{"update", [=](Ctx&) {
    KmlFilePtr k = KmlFile::CreateFromParse(x, NULL); std::string e; ElementPtr r = Parse(u, &e); UpdatePtr up = AsUpdate(r);
    if (!k || !up) return;
    kmlengine::ProcessUpdate(up, k); kmlengine::ProcessUpdate(up, k);
    kmlbase::StringMap m; m["a"] = "i1"; kmlengine::ProcessUpdateWithIdMap(up, &m, k);
  }};
}
Named styles_act(Ctx& c) {
  std::string x = doc(c, true); bool m = c.choose(2); if (m) x = gen::mangle(c, x);
  return Named{"styles", [=](Ctx&) { std::string e; ElementPtr a = kmlengine::InlineStyles(x, &e), b = kmlengine::SplitStyles(x, &e); }};
}
Named region_act(Ctx& c) {
  unsigned n = c.choose(10), per = 1 + c.choose(3), stop = c.choose(6); bool throws = c.choose(2);
  return Named{"regionate", [=](Ctx& c) {
    struct M { Ctx* c; unsigned stop, n; bool throws; bool RegionatorProgress(unsigned, unsigned) { if (n++ == stop) { c->fault("monitor stops"); if (throws) throw Thrown(); return false; } return true; } } m = {&c, stop, 0, throws};
    kmlconvenience::FeatureList fl; for (unsigned i = 0; i < n; ++i) fl.PushBack(kmlconvenience::CreatePointPlacemark("p", i * 3.0, i * 5.5));
    try { kmlregionator::FeatureListRegionator<M>::Regionate(&fl, per, &m, "/w0"); } catch (Thrown&) {}
  }};
}
Named temp_act(Ctx& c) {
  unsigned n = 1 + c.choose(4);
  return Named{"temporary files", [=](Ctx&) { std::vector<kmlbase::TempFilePtr> v; for (unsigned i = 0; i < n; ++i) { kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile(); if (t) { v.push_back(t); kmlbase::File::WriteStringToFile("x", t->name()); } } }};
}
Named service_act(Ctx& c) {
  std::string feed = "<feed xmlns=\"http://www.w3.org/2005/Atom\"><entry><title>m</title><content src=\"http://c/1\"/></entry><entry><content type=\"application/vnd.google-earth.kml+xml\"><Placemark xmlns=\"http://www.opengis.net/kml/2.2\"><name>n</name></Placemark></content></entry></feed>";
  unsigned fail = c.choose(2) ? 80 : 0, damage = c.choose(2) ? 80 : 0, throws = c.choose(4) ? 0 : 40;
  return Named{"service", [=](Ctx& c) {
    class Client : public kmlconvenience::HttpClient {
     public:
      Client(Ctx& cc, const std::string& f, unsigned a, unsigned b, unsigned t) : kmlconvenience::HttpClient("sim"), c_(cc), feed_(f), fail_(a), damage_(b), throws_(t) {}
      bool SendRequest(kmlconvenience::HttpMethodEnum, const std::string& uri, const kmlconvenience::StringPairVector*, const std::string*, std::string* r) const override {
        if (throws_ && c_.chance(throws_, 256)) { c_.fault("fetcher exception"); throw std::runtime_error("net"); }
        if (fail_ && c_.chance(fail_, 256)) { c_.fault("request failed"); return false; }
        std::string s = uri.find("ClientLogin") != std::string::npos ? "SID=a\nLSID=b\nAuth=tok\n" : feed_;
        if (damage_ && c_.chance(damage_, 256)) { InHarness ih; const char* k; s = damage_body(c_, s, &k); c_.fault(k); }
        if (r) *r = s;
        return true;
      }
     private: Ctx& c_; std::string feed_; unsigned fail_, damage_, throws_;
    };
    try {
      std::unique_ptr<Client> cl(new Client(c, feed, fail, damage, throws));
      cl->Login("local", "e", "p");
      std::unique_ptr<kmlconvenience::GoogleMapsData> g(kmlconvenience::GoogleMapsData::Create(cl.release()));
      if (!g) return;
      std::string s; AtomFeedPtr f = g->GetMetaFeed(); g->GetMetaFeedXml(&s);
      if (AtomFeedPtr ff = g->GetFeatureFeedByUri("http://c/1")) { DocumentPtr d = KmlFactory::GetFactory()->CreateDocument(); g->GetMapKml(ff, d); }
      g->CreateMap("t", "s", &s); PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark(); p->set_name("n"); g->AddFeature("http://p", p, &s); g->AddFeature("http://p", p, NULL);
    } catch (std::runtime_error&) {}
  }};
}
Named xsd_act(Ctx& c) {
  std::string x = "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:k=\"http://k\" targetNamespace=\"http://k\"><element name=\"A\" type=\"k:AT\"/><complexType name=\"AT\"><complexContent><extension base=\"k:BT\"><sequence><element ref=\"k:C\"/></sequence></extension></complexContent></complexType><complexType name=\"BT\"/><simpleType name=\"e\"><restriction base=\"string\"><enumeration value=\"a\"/></restriction></simpleType></schema>";
  if (c.choose(2)) x = gen::mangle(c, x);
  return Named{"xsd", [=](Ctx&) { std::string e; std::unique_ptr<kmlxsd::XsdFile> f(kmlxsd::XsdFile::CreateFromParse(x, &e)); }};
}
Named uri_act(Ctx& c) {
  static const char* const kPart[] = {"http://", "h", "/", "a.kmz", "/", "..", "%41", "%zz", "[", "#", "?", " ", "\xc3\xa9", ":", "8080", "\\", "@", ".", "a.kml", ""};
  std::string u[3]; for (int i = 0; i < 3; ++i) for (unsigned n = c.choose(8); n > 0; --n) u[i] += kPart[c.choose(20)];
  std::string a = u[0], b = u[1], d = u[2];
  return Named{"uri", [=](Ctx&) {
    std::string r, s, t, x, y, z;
    kmlengine::ResolveUri(a, b, &r); kmlengine::NormalizeUri(a, &r); kmlengine::NormalizeHref(b, &r); kmlengine::SplitUri(a, &r, &s, &t, &x, &y, &z); kmlengine::SplitUriPath(b, &r); kmlengine::SplitUriFragment(d, &r);
    std::string f; kmlengine::GetFetchableUri(a, &f); kmlengine::KmzSplit(a, &r, &s); kmlengine::ResolveModelTargetHref(a, b, d, &r);
    kmlengine::UriToFilename(a, &r); kmlengine::FilenameToUri(b, &s);
    std::unique_ptr<kmlengine::KmlUri> ku(kmlengine::KmlUri::CreateRelative(a, b)); kmlengine::Href h(d); h.get_path();
  }};
}
Named pick(Ctx& c) {
  switch (c.choose(16)) {
    case 0: case 1: return parse_act(c);
    case 2: return serialize_act(c);
    case 3: return kmz_act(c);
    case 4: return pack_act(c);
    case 5: return net_act(c);
    case 6: return csv_act(c);
    case 7: return update_act(c);
    case 8: return styles_act(c);
    case 9: return region_act(c);
    case 10: return temp_act(c);
    case 11: return service_act(c);
    case 12: return xsd_act(c);
    case 13: return uri_act(c);
    default: { workload::Opts o; o.budget = 8; workload::Op w = workload::make(c, o, "/w0"); return Named{w.name, [w](Ctx&) { w.run(); }}; }
  }
}
}  // namespace

static void run(Ctx& c) {
  simfs::activate(true); simfs::mkdir("/w0"); simfs::mkdir("/tmp");
  unsigned n = 1 + c.choose(4);
  simfs::Faults f; unsigned weather = c.choose(3);
  if (weather) { f.open_fail = c.choose(2) * 30; f.read_err = c.choose(2) * 40; f.read_short = 60; f.write_err = c.choose(2) * 40; f.write_short = 60; f.close_err = c.choose(2) * 30; f.eintr = c.choose(2) * 30; f.mkstemp_fail = c.choose(2) * 60; f.chmod_fail = c.choose(2) * 40; f.stat_fail = c.choose(2) * 30; if (c.choose(4) == 0) f.capacity = 200 + c.choose(9000); }
  for (unsigned i = 0; i < n; ++i) {
    Named a = pick(c);
    c.log("operation %s", a.name.c_str());
    std::vector<uint32_t> draws;
    auto once = [&]() {
      { InHarness ih; std::map<std::string, std::string> s = simfs::snapshot(); for (auto& k : s) simfs::rm(k.first); simfs::no_faults(); simfs::faults() = f; }
      simmem::start();
      a.act(c);
      simmem::stop();
      InHarness ih;
      simfs::no_faults();
      if (simfs::open_handles()) c.fail("descriptor", "%s left %zu files open", a.name.c_str(), simfs::open_handles());
      std::map<std::string, std::string> s = simfs::snapshot();
      for (auto& k : s) if (k.first.compare(0, 5, "/tmp/") == 0) c.fail("temporary-file", "%s left %s behind", a.name.c_str(), k.first.c_str());
      return simmem::report().outstanding;
    };
    c.tap = &draws;
    size_t left;
    try { left = once(); } catch (...) { c.tap = NULL; throw; }
    c.tap = NULL;
    // What a first use keeps for good is not a leak; what every repetition
    // keeps is.
    for (unsigned k = 0; left && k < 3; ++k) { Again again(c, draws); left = once(); }
    if (left) c.fail("leak", "%s keeps %zu blocks (one of %zu bytes) each time it is repeated", a.name.c_str(), left, simmem::an_outstanding_size());
    ++c.nontrivial;
    c.state(hash_str(format("%s %u %zu", a.name.c_str(), weather, draws.size() / 4)));
  }
}
SIM_PROP(C18, run);
