#include "workload.h"
#include <string.h>
#include <memory>
#include <sstream>
#include "gen.h"
#include "parseutil.h"
#include "simfs.h"
#include "simstream.h"
#include "ziputil.h"
#include "kml/base/color32.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_parser.h"
#include "kml/base/file.h"
#include "kml/base/math_util.h"
#include "kml/base/net_cache.h"
#include "kml/base/string_util.h"
#include "kml/base/tempfile.h"
#include "kml/base/xml_namespaces.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/convenience/kmz_check_links.h"
#include "kml/dom.h"
#include "kml/engine/bbox.h"
#include "kml/engine/clone.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
#include "kml/engine/feature_view.h"
#include "kml/engine/find.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/get_links.h"
#include "kml/engine/href.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/location_util.h"
#include "kml/engine/merge.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/update.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/xsd/xsd_file.h"

namespace workload {
using sim::Ctx;
using namespace kmldom;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;
using kmlengine::KmzFilePtr;

static std::string doc(Ctx& c, const Opts& o, bool feature_only = false) {
  gen::Opts g; g.budget = o.budget; g.feature_only = feature_only;
  gen::Node n = gen::document(c, g);
  return gen::write(c, n, gen::spelling(c));
}
static std::string d2s(double d) { uint64_t u; memcpy(&u, &d, 8); char b[40]; snprintf(b, sizeof b, "<%llx>", (unsigned long long)u); return b; }   // exact, whatever the locale
static void add(std::string* out, const std::string& s) { char b[24]; snprintf(b, sizeof b, "%zu:", s.size()); out->append(b); out->append(s); out->append("\n"); }
static FeaturePtr first_feature(const KmlFilePtr& k) {
  if (!k) return NULL;
  if (KmlPtr r = AsKml(k->get_root())) return r->has_feature() ? r->get_feature() : FeaturePtr();
  return AsFeature(k->get_root());
}

static Op parse_op(Ctx& c, const Opts& o) {
  std::string x = doc(c, o);
  bool ns = c.choose(3) == 0, mangled = c.chance(1, 5);
  if (mangled) x = gen::mangle(c, x);
  return Op{"parse", [x, ns]() {
    std::string out, errors;
    ElementPtr e = ns ? ParseNS(x, &errors) : Parse(x, &errors);
    add(&out, errors);
    if (e) { add(&out, SerializePretty(e)); add(&out, SerializeRaw(e)); add(&out, GetElementName(e)); }
    return out;
  }};
}
static Op file_op(Ctx& c, const Opts& o) {
  std::string x = doc(c, o); bool strict = c.choose(4) == 0;
  return Op{"kml file", [x, strict]() {
    std::string out, errors, s;
    KmlFilePtr k = strict ? KmlFilePtr(KmlFile::CreateFromParse(x, &errors)) : KmlFilePtr(KmlFile::CreateFromString(x));
    add(&out, errors);
    if (!k) return out + "refused";
    if (k->SerializeToString(&s)) add(&out, s);
    add(&out, k->get_encoding()); add(&out, k->CreateXmlHeader());
    kmlengine::ElementVector v;
    kmlengine::GetChildElements(k->get_root(), true, &v);
    for (size_t i = 0; i < v.size(); ++i) { add(&out, sim::type_name(v[i])); if (ObjectPtr ob = AsObject(v[i])) if (ob->has_id()) { bool same = k->GetObjectById(ob->get_id()) == ob; add(&out, ob->get_id() + (same ? "=" : "!")); } }
    kmlengine::href_vector_t links; kmlengine::GetLinks(x, &links); for (size_t i = 0; i < links.size(); ++i) add(&out, links[i]);
    kmlengine::ElementVector lp; kmlengine::GetLinkParents(x, &lp); out += std::to_string(lp.size());
    return out;
  }};
}
static Op stream_op(Ctx& c, const Opts& o) {
  std::string x = doc(c, o);
  return Op{"kml stream", [x]() {
    std::istringstream in(x); std::string out, errors;
    kmlconvenience::ElementCountMap m; kmlconvenience::ElementCounter counter(&m);
    std::unique_ptr<kmlengine::KmlStream> ks(kmlengine::KmlStream::ParseFromIstream(&in, &errors, &counter));
    add(&out, errors);
    for (kmlconvenience::ElementCountMap::iterator i = m.begin(); i != m.end(); ++i) out += std::to_string(i->first) + "x" + std::to_string(i->second) + " ";
    if (ks && ks->get_root()) add(&out, SerializeRaw(ks->get_root()));
    return out;
  }};
}
static Op clone_op(Ctx& c, const Opts& o) {
  std::string x = doc(c, o), y = doc(c, o);
  return Op{"clone and merge", [x, y]() {
    std::string out, errors;
    ElementPtr a = Parse(x, &errors), b = Parse(y, &errors);
    if (!a || !b) return std::string("refused");
    ElementPtr k = kmlengine::Clone(a);
    add(&out, SerializeRaw(k));
    kmlengine::MergeElements(b, k);
    add(&out, SerializeRaw(k)); add(&out, SerializeRaw(a));
    kmlengine::ClearIds(k);
    add(&out, SerializePretty(k));
    kmlbase::Attributes at; kmlengine::FindXmlNamespaces(b, &at); std::string s; at.Serialize(&s); add(&out, s);
    return out;
  }};
}
static Op style_op(Ctx& c, const Opts& o) {
  static const char* cols[] = {"ff0000ff", "80123456", "7f00ff00", "ffffffff"};
  std::string n = std::to_string(c.choose(1000)), x = "<kml><Document id=\"d" + n + "\">"
    "<Style id=\"s\"><IconStyle><color>" + std::string(cols[c.choose(4)]) + "</color><scale>" + gen::number(c) + "</scale><Icon><href>i" + n + ".png</href></Icon></IconStyle><LineStyle><width>" + gen::number(c) + "</width></LineStyle></Style>"
    "<Style id=\"t\"><LabelStyle><color>" + std::string(cols[c.choose(4)]) + "</color></LabelStyle></Style>"
    "<StyleMap id=\"m\"><Pair><key>normal</key><styleUrl>#s</styleUrl></Pair><Pair><key>highlight</key><styleUrl>#t</styleUrl></Pair></StyleMap>"
    "<Placemark id=\"p\"><name>n" + n + "</name><styleUrl>" + (c.choose(2) ? "#m" : "#s") + "</styleUrl><Style><PolyStyle><color>" + cols[c.choose(4)] + "</color></PolyStyle></Style></Placemark></Document></kml>";
  bool hi = c.choose(2);
  return Op{"styles", [x, hi]() {
    std::string out, errors;
    KmlFilePtr k = KmlFile::CreateFromParse(x, &errors);
    if (!k) return std::string("refused");
    FeaturePtr f = AsFeature(k->GetObjectById("p"));
    add(&out, SerializePretty(kmlengine::CreateResolvedStyle(f, k, hi ? STYLESTATE_HIGHLIGHT : STYLESTATE_NORMAL)));
    ElementPtr in = kmlengine::InlineStyles(x, &errors), sp = kmlengine::SplitStyles(x, &errors);
    add(&out, in ? SerializePretty(in) : "-"); add(&out, sp ? SerializePretty(sp) : "-"); add(&out, errors);
    return out;
  }};
}
static Op build_op(Ctx& c, const Opts&) {
  double lat = (int)c.choose(1800) / 10.0 - 90, lon = (int)c.choose(3600) / 10.0 - 180, r = c.choose(10000) / 7.0;
  std::string name = gen::text(c, true); unsigned seg = 3 + c.choose(12);
  return Op{"build", [=]() {
    std::string out;
    KmlFactory* f = KmlFactory::GetFactory();
    DocumentPtr d = f->CreateDocument();
    PlacemarkPtr p = kmlconvenience::CreatePointPlacemark(name, lat, lon);
    kmlconvenience::AddExtendedDataValue("k", name, p);
    kmlconvenience::SetFeatureScore("17", p);
    d->add_feature(p);
    d->set_abstractview(kmlconvenience::CreateLookAt(lat, lon, r, 1.5, 20, r * 3, ALTITUDEMODE_ABSOLUTE));
    LinearRingPtr lr = f->CreateLinearRing(); lr->set_coordinates(kmlconvenience::CreateCoordinatesCircle(lat, lon, r, seg));
    PlacemarkPtr q = kmlconvenience::CreateBasicPolygonPlacemark(lr); q->set_name(name); q->set_visibility(false);
    d->add_feature(q);
    d->set_region(kmlconvenience::CreateRegion2d(lat + 1, lat - 1, lon + 1, lon - 1, 128, -1));
    GxTourPtr t = f->CreateGxTour(); GxPlaylistPtr pl = f->CreateGxPlaylist();
    pl->add_gx_tourprimitive(kmlconvenience::CreateWait(r)); pl->add_gx_tourprimitive(kmlconvenience::CreateFlyToForFeature(p, 2.5));
    pl->add_gx_tourprimitive(kmlconvenience::CreateAnimatedUpdateChangePoint("x", kmlbase::Vec3(lon, lat, r), r));
    t->set_gx_playlist(pl); d->add_feature(t);
    CoordinatesPtr simple = f->CreateCoordinates(); kmlconvenience::SimplifyCoordinates(lr->get_coordinates(), simple, r);
    LineStringPtr ls = f->CreateLineString(); ls->set_coordinates(simple); PlacemarkPtr w = f->CreatePlacemark(); w->set_geometry(ls); d->add_feature(w);
    KmlPtr k = f->CreateKml(); k->set_feature(d);
    add(&out, SerializePretty(k)); add(&out, SerializeRaw(k));
    std::string v; if (kmlconvenience::GetExtendedDataValue(p, "k", &v)) add(&out, v);
    out += std::to_string(kmlconvenience::GetFeatureScore(p));
    KmlFilePtr kf = KmlFile::CreateFromImport(k); std::string s; if (kf && kf->SerializeToString(&s)) add(&out, s);
    return out;
  }};
}
static Op bounds_op(Ctx& c, const Opts& o) {
  std::string x = doc(c, o, true);
  return Op{"bounds and balloons", [x]() {
    std::string out, errors;
    KmlFilePtr k = KmlFile::CreateFromParse(x, &errors);
    if (!k) return std::string("refused");
    FeaturePtr f = first_feature(k);
    if (!f) return std::string("none");
    kmlengine::Bbox b; double lat = 0, lon = 0;
    if (kmlengine::GetFeatureBounds(f, &b)) add(&out, d2s(b.get_north()) + d2s(b.get_south()) + d2s(b.get_east()) + d2s(b.get_west()));
    if (kmlengine::GetFeatureLatLon(f, &lat, &lon)) add(&out, d2s(lat) + d2s(lon));
    if (LookAtPtr l = kmlengine::ComputeFeatureLookAt(f)) add(&out, SerializeRaw(l));
    kmlengine::ElementVector v; kmlengine::GetChildElements(k->get_root(), true, &v);
    unsigned n = 0;
    for (size_t i = 0; i < v.size() && n < 4; ++i) if (FeaturePtr g = AsFeature(v[i])) {
      ++n; add(&out, kmlengine::CreateBalloonText(k, g));
      kmlbase::StringMap m; kmlengine::EntityMapper em(k, &m); em.GetEntityFields(g);
      for (kmlbase::StringMap::iterator e = m.begin(); e != m.end(); ++e) { add(&out, e->first); add(&out, e->second); }
      add(&out, kmlengine::CreateExpandedEntities("a $[name] b $[description] $[id]", m));
    }
    return out;
  }};
}
static Op kmz_read_op(Ctx& c, const Opts& o) {
  std::vector<ziputil::Entry> es; std::string x = doc(c, o, true);
  unsigned n = 1 + c.choose(3);
  for (unsigned i = 0; i < n; ++i) { ziputil::Entry e; e.name = i ? "f" + std::to_string(i) + ".png" : "doc.kml"; e.data = i ? c.blob(1 + c.choose(5000)) : x; e.deflate = c.choose(3) != 0; es.push_back(e); }
  std::string z = ziputil::build(es);
  return Op{"kmz read", [z]() {
    std::string out, s, p;
    KmzFilePtr k = KmzFile::OpenFromString(z);
    if (!k) return std::string("refused");
    if (k->ReadKmlAndGetPath(&s, &p)) { add(&out, s); add(&out, p); }
    std::vector<std::string> v; k->List(&v);
    for (size_t i = 0; i < v.size(); ++i) { add(&out, v[i]); if (k->ReadFile(v[i].c_str(), &s)) add(&out, s); }
    std::vector<std::string> missing; kmlconvenience::KmzCheckLinks(*k, &missing); for (size_t i = 0; i < missing.size(); ++i) add(&out, missing[i]);
    KmlFilePtr kf = KmlFile::CreateFromString(z); if (kf) add(&out, SerializeRaw(kf->get_root()));
    return out;
  }};
}
static Op kmz_write_op(Ctx& c, const Opts& o, const std::string& dir) {
  std::string x = doc(c, o, true), a = c.blob(1 + c.choose(4000));
  return Op{"kmz write", [x, a, dir]() {
    std::string out, path = dir + "/out.kmz", s;
    out += KmzFile::WriteKmz((dir + "/w.kmz").c_str(), x) ? "y" : "n";
    {
      KmzFilePtr k = KmzFile::Create(path.c_str());
      if (!k) return out + "refused";
      out += k->AddFile(x, "doc.kml") ? "y" : "n"; out += k->AddFile(a, "a.bin") ? "y" : "n"; out += k->AddFile(a, "../a.bin") ? "y" : "n";
    }
    KmzFilePtr k = KmzFile::OpenFromFile(path.c_str());
    if (!k) return out + "unreadable";
    if (k->ReadKml(&s)) add(&out, s);
    if (k->ReadFile("a.bin", &s)) add(&out, s);
    if (kmlbase::File::ReadFileToString(dir + "/w.kmz", &s)) { KmlFilePtr kf = KmlFile::CreateFromString(s); add(&out, kf ? SerializeRaw(kf->get_root()) : "-"); }
    return out;
  }};
}
static Op disk_op(Ctx& c, const Opts&, const std::string& dir) {
  std::string a = c.blob(c.choose(9000)), b = c.blob(c.choose(300));
  return Op{"files", [a, b, dir]() {
    std::string out, s, p = kmlbase::File::JoinPaths(dir, "x.dat");
    out += kmlbase::File::WriteStringToFile(a, p) ? "y" : "n"; out += kmlbase::File::Exists(p) ? "y" : "n";
    if (kmlbase::File::ReadFileToString(p, &s)) add(&out, s);
    out += kmlbase::File::WriteStringToFile(b, p) ? "y" : "n";
    if (kmlbase::File::ReadFileToString(p, &s)) add(&out, s);
    out += kmlbase::File::Delete(p) ? "y" : "n"; out += kmlbase::File::Exists(p) ? "y" : "n";
    kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile();
    if (t) { out += kmlbase::File::WriteStringToFile(b, t->name()) ? "y" : "n"; if (kmlbase::File::ReadFileToString(t->name(), &s)) add(&out, s); }
    return out;
  }};
}
static Op uri_op(Ctx& c, const Opts&) {
  static const char* bases[] = {"http://host.com/a/b/c.kml", "http://h/x.kmz/y.kml?q=1#f", "http://h:80/", "file:///tmp/a.kml"};
  static const char* rels[] = {"d.kml", "../e.kml#id", "#frag", "http://o/p?q", "/abs", "x y", "a.kmz/b.kml", "../../.."};
  std::string b = bases[c.choose(4)], r = rels[c.choose(8)], extra = std::to_string(c.choose(100000));
  return Op{"uris", [b, r, extra]() {
    std::string out, s, t, u, v, w, x;
    out += kmlengine::ResolveUri(b, r + extra, &s) ? s : "-"; out += "\n"; s.clear();
    out += kmlengine::NormalizeUri(b + extra, &s) ? s : "-"; out += "\n"; s.clear();
    out += kmlengine::NormalizeHref(r + extra, &s) ? s : "-"; out += "\n"; s.clear();
    out += kmlengine::KmzSplit(b + extra, &s, &t) ? s + " " + t : "-"; out += "\n";
    s.clear(); t.clear();
    out += kmlengine::SplitUri(b, &s, &t, &u, &v, &w, &x) ? s + " " + t + " " + u + " " + v + " " + w + " " + x : "-"; out += "\n"; s.clear();
    out += kmlengine::GetFetchableUri(b, &s) ? s : "-"; out += "\n"; s.clear();
    out += kmlengine::FilenameToUri("/tmp/" + extra + " x.kml", &s) ? s : "-"; out += "\n"; t.clear();
    out += kmlengine::UriToFilename(s, &t) ? t : "-"; out += "\n"; s.clear();
    out += kmlengine::ResolveModelTargetHref(b, r, "t" + extra, &s) ? s : "-";
    kmlengine::Href h(r + extra); out += h.get_scheme() + "|" + h.get_net_loc() + "|" + h.get_path() + "|" + h.get_fragment();
    return out;
  }};
}
static Op text_op(Ctx& c, const Opts&) {
  std::string line = "name,latitude,longitude,x\n", n; unsigned k = 1 + c.choose(5);
  for (unsigned i = 0; i < k; ++i) line += "\"p" + std::to_string(c.choose(1000)) + "\"," + std::to_string((int)c.choose(90)) + "." + std::to_string(c.choose(100)) + "," + std::to_string((int)c.choose(180)) + ".25,\"a, b\"\n";
  n = gen::number(c); std::string t = gen::text(c, true); uint32_t col = c.choose(0xffffffff);
  static const char* when[] = {"2007-05-23T17:46:22Z", "1999-12-31", "2024-02-29T00:00:00Z", "2010", "garbage"};
  std::string w = when[c.choose(5)];
  return Op{"text", [=]() {
    std::string out; double d = 0;
    class H : public kmlconvenience::CsvParserHandler { public: std::string* out; bool HandleLine(int l, kmlconvenience::CsvParserStatus st, PlacemarkPtr p) override { *out += std::to_string(l) + ":" + std::to_string(st) + SerializeRaw(p); return true; } } h;
    h.out = &out;
    kmlbase::CsvSplitter sp(line); kmlconvenience::CsvParser::ParseCsv(&sp, &h);
    std::vector<std::string> v; kmlbase::SplitStringUsing(line, ",", &v); kmlbase::SplitQuotedUsingFromString(line, ',', &v); for (size_t i = 0; i < v.size(); ++i) add(&out, v[i]);
    out += kmlbase::StringToDouble(n, &d) ? d2s(d) : "-"; out += kmlbase::ToString(d); out += kmlbase::ToString((float)d); out += kmlbase::ToString(true) + kmlbase::ToString(123456); out += kmlbase::IsDecimalDoubleString(n) ? "D" : "d";
    kmlbase::FromString(n, &d); out += d2s(d); int in = 0; kmlbase::FromString(n, &in); out += std::to_string(in);
    kmlbase::StringMap m; m["a"] = t; m["b"] = n; add(&out, kmlbase::CreateExpandedStrings("x {a} {b} {c} " + t, m, "{", "}"));
    std::unique_ptr<kmlbase::DateTime> dt(kmlbase::DateTime::Create(w));
    if (dt) out += dt->GetXsdDateTime() + dt->GetXsdDate() + dt->GetXsdTime() + std::to_string((long long)dt->GetTimeT());
    kmlbase::Color32 cc(col); out += cc.to_string_abgr() + cc.to_string_argb(); kmlbase::Color32 c2(cc.to_string_argb()); out += c2.to_string_abgr();
    std::string pre, ns; kmlbase::FindXmlNamespaceAndPrefix(kmlbase::XMLNS_ATOM, &pre, &ns); out += pre + ns;
    kmlbase::Vec3 p = kmlbase::LatLngOnRadialFromPoint(37, -122, d, 45); out += d2s(p.get_latitude()) + d2s(p.get_longitude()) + d2s(kmlbase::DistanceBetweenPoints(1, 2, 3, 4));
    return out;
  }};
}
static Op update_op(Ctx& c, const Opts&) {
  std::string a = gen::text(c, false), b = std::to_string(c.choose(10000));
  std::string x = "<kml><Document id=\"d\"><Placemark id=\"p\"><name>old</name></Placemark><Folder id=\"f\"><Placemark id=\"q\"/></Folder></Document></kml>";
  std::string u = "<Update><targetHref>t</targetHref><Change><Placemark targetId=\"p\"><name>n" + b + "</name></Placemark></Change><Create><Folder targetId=\"f\"><Placemark id=\"new" + b + "\"/></Folder></Create><Delete><Placemark targetId=\"q\"/></Delete></Update>";
  return Op{"update", [x, u]() {
    std::string out, e;
    KmlFilePtr k = KmlFile::CreateFromParse(x, &e); UpdatePtr up = AsUpdate(Parse(u, &e));
    if (!k || !up) return std::string("refused");
    kmlengine::ProcessUpdate(up, k);
    add(&out, SerializePretty(k->get_root()));
    return out;
  }};
}
static Op net_op(Ctx& c, const Opts&) {
  std::string n = std::to_string(c.choose(10000));
  std::string st = "<kml><Document><Style id=\"s\"><LineStyle><width>" + gen::number(c) + "</width></LineStyle></Style></Document></kml>";
  std::string main = "<kml><Document id=\"d\"><Placemark id=\"p\"><styleUrl>s" + n + ".kml#s</styleUrl></Placemark><NetworkLink id=\"l\"><Link><href>z.kmz/a.kml</href></Link></NetworkLink></Document></kml>";
  std::vector<ziputil::Entry> es; ziputil::Entry e; e.name = "a.kml"; e.data = "<kml><Placemark><name>z" + n + "</name></Placemark></kml>"; es.push_back(e); e.name = "i.png"; e.data = c.blob(300); es.push_back(e);
  std::string z = ziputil::build(es);
  return Op{"cache", [=]() {
    class F : public kmlbase::NetFetcher { public: std::map<std::string, std::string> m; bool FetchUrl(const std::string& url, std::string* data) const override { std::map<std::string, std::string>::const_iterator i = m.find(url); if (i == m.end()) return false; *data = i->second; return true; } } f;
    f.m["http://h/m.kml"] = main; f.m["http://h/s" + n + ".kml"] = st; f.m["http://h/z.kmz"] = z;
    std::string out, data;
    kmlengine::KmlCache cache(&f, 3);
    KmlFilePtr k = cache.FetchKmlAbsolute("http://h/m.kml");
    if (!k) return std::string("refused");
    add(&out, SerializeRaw(kmlengine::CreateResolvedStyle(AsFeature(k->GetObjectById("p")), k, STYLESTATE_NORMAL)));
    KmlFilePtr r = cache.FetchKmlRelative("http://h/m.kml", "z.kmz"); if (r) add(&out, r->get_url() + SerializeRaw(r->get_root()));
    if (cache.FetchDataRelative("http://h/z.kmz/a.kml", "i.png", &data)) add(&out, data);
    out += cache.FetchKmlRelative("http://h/m.kml", "none.kml") ? "?" : "-";
    return out;
  }};
}
static Op atom_op(Ctx& c, const Opts&) {
  std::string n = std::to_string(c.choose(10000)), t = std::to_string(c.choose(10000));
  std::string x = "<feed xmlns=\"http://www.w3.org/2005/Atom\"><title>f" + n + "</title><entry><title>e" + t + "</title><content src=\"http://c/" + n + "\" type=\"kml\"/><link rel=\"edit\" href=\"http://e/" + t + "\"/><summary>s</summary></entry></feed>";
  std::string g = "<gpx><trk><trkseg><trkpt lat=\"" + gen::number(c) + "\" lon=\"1.5\"><ele>" + gen::number(c) + "</ele><time>2008-10-11T14:55:41Z</time></trkpt><trkpt lat=\"2\" lon=\"" + n + "\"/></trkseg></trk></gpx>";
  return Op{"atom and gpx", [x, g]() {
    std::string out, e;
    ElementPtr el = ParseAtom(x, &e); add(&out, e);
    if (AtomFeedPtr f = AsAtomFeed(el)) {
      add(&out, SerializeRaw(f)); std::string s;
      if (kmlconvenience::AtomUtil::FindRelUrl(*f->get_entry_array_at(0), "edit", &s)) add(&out, s);
      if (kmlconvenience::AtomUtil::GetContentSrc(f->get_entry_array_at(0), &s)) add(&out, s);
    }
    class G : public kmlconvenience::GpxTrkPtHandler { public: std::string* out; void HandlePoint(const kmlbase::Vec3& w, const std::string& when) override { *out += d2s(w.get_latitude()) + d2s(w.get_longitude()) + d2s(w.get_altitude()) + when; } } h;
    h.out = &out; std::string err;
    out += kmlbase::ExpatParser::ParseString(g, &h, &err, false) ? "y" : "n"; add(&out, err);
    return out;
  }};
}
static Op xsd_op(Ctx& c, const Opts&) {
  std::string n = "T" + std::to_string(c.choose(1000));
  std::string x = "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:k=\"http://k\" targetNamespace=\"http://k\">"
    "<element name=\"" + n + "\" type=\"k:" + n + "Type\"/><complexType name=\"" + n + "Type\"><sequence><element ref=\"k:Child\"/><element name=\"In\" type=\"string\"/></sequence></complexType>"
    "<element name=\"Child\" type=\"double\"/><simpleType name=\"e\"><restriction base=\"string\"><enumeration value=\"a\"/><enumeration value=\"" + n + "\"/></restriction></simpleType></schema>";
  return Op{"xsd", [x, n]() {
    std::string out, e;
    std::unique_ptr<kmlxsd::XsdFile> f(kmlxsd::XsdFile::CreateFromParse(x, &e)); add(&out, e);
    if (!f) return out;
    kmlxsd::XsdElementVector v; f->GetAllElements(&v); for (size_t i = 0; i < v.size(); ++i) add(&out, v[i]->get_name() + " " + v[i]->get_type());
    v.clear(); f->GetChildElements(n, &v); for (size_t i = 0; i < v.size(); ++i) add(&out, v[i]->get_name());
    out += f->get_target_namespace();
    return out;
  }};
}
static Op regionate_op(Ctx& c, const Opts&, const std::string& dir) {
  unsigned n = 1 + c.choose(8), per = 1 + c.choose(3); std::vector<std::pair<double, double> > at;
  for (unsigned i = 0; i < n; ++i) at.push_back(std::make_pair((int)c.choose(160) - 80 + i / 16.0, (int)c.choose(340) - 170 + i / 32.0));
  return Op{"regionate", [at, per, dir]() {
    std::string out, s; kmlconvenience::FeatureList fl;
    for (size_t i = 0; i < at.size(); ++i) { PlacemarkPtr p = kmlconvenience::CreatePointPlacemark("p" + std::to_string(i), at[i].first, at[i].second); kmlconvenience::SetFeatureScore(std::to_string((i * 7) % 5), p); fl.PushBack(p); }
    out += kmlregionator::FeatureListRegionator<>::Regionate(&fl, per, NULL, dir.c_str()) ? "y" : "n";
    for (int i = 1; i < 40; ++i) { if (!kmlbase::File::ReadFileToString(dir + "/" + std::to_string(i) + ".kml", &s)) break; add(&out, s); }
    return out;
  }};
}
// Short conversions, one after the other, so that threads doing them are always in the same code.
static Op values_op(Ctx& c, const Opts&) {
  unsigned which = c.choose(4); std::vector<std::string> in;
  for (unsigned i = 0, k = 1 + c.choose(4); i < k; ++i) {
    char b[40];
    if (which == 0) { snprintf(b, sizeof b, "%04u-%02u-%02uT%02u:%02u:%02uZ", 1971 + c.choose(90), 1 + c.choose(12), 1 + c.choose(28), c.choose(24), c.choose(60), c.choose(60)); in.push_back(b); }
    else if (which == 1) in.push_back(gen::number(c));
    else if (which == 2) { snprintf(b, sizeof b, "%08x", c.choose(0xffffffff)); in.push_back(b); }
    else in.push_back(gen::text(c, true));
  }
  return Op{"values", [=]() {
    std::string out;
    for (size_t i = 0; i < in.size(); ++i) {
      if (which == 0) { std::unique_ptr<kmlbase::DateTime> dt(kmlbase::DateTime::Create(in[i])); out += dt ? dt->GetXsdDateTime() + dt->GetXsdDate() + dt->GetXsdTime() + std::to_string((long long)dt->GetTimeT()) : "-"; }
      else if (which == 1) { double d = 0; int n = 0; out += kmlbase::StringToDouble(in[i], &d) ? d2s(d) : "-"; out += kmlbase::ToString(d) + "," + kmlbase::ToString((float)d); kmlbase::FromString(in[i], &n); out += "," + std::to_string(n); }
      else if (which == 2) { kmlbase::Color32 k(in[i]); out += k.to_string_abgr() + k.to_string_argb(); }
      else { PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark(); p->set_name(in[i]); p->set_description(in[i] + "&"); p->set_id("i" + std::to_string(i)); out += SerializeRaw(p); }
      out += ";";
    }
    return out;
  }};
}
int kinds(const Opts& o) { return (o.files ? 18 : 15) + (o.small ? 2 : 0); }
Op make(Ctx& c, const Opts& o, const std::string& dir) {
  int k = o.kind >= 0 ? o.kind : (int)c.choose(kinds(o)), n = o.files ? 18 : 15;
  if (k >= n) return values_op(c, o);
  switch (k) {
    case 0: return parse_op(c, o);
    case 1: return file_op(c, o);
    case 2: return stream_op(c, o);
    case 3: return clone_op(c, o);
    case 4: return style_op(c, o);
    case 5: return build_op(c, o);
    case 6: return bounds_op(c, o);
    case 7: return kmz_read_op(c, o);
    case 8: return uri_op(c, o);
    case 9: return text_op(c, o);
    case 10: return update_op(c, o);
    case 11: return net_op(c, o);
    case 12: return atom_op(c, o);
    case 13: return xsd_op(c, o);
    case 14: return text_op(c, o);
    case 15: return kmz_write_op(c, o, dir);
    case 16: return disk_op(c, o, dir);
    default: return regionate_op(c, o, dir);
  }
}
}  // namespace workload
