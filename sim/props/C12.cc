// C12: parsing gives the same result however the bytes arrive.
#include <memory>
#include "../core.h"
#include "../gen.h"
#include "../parseutil.h"
#include "../simstream.h"
#include "kml/base/attributes.h"
#include "kml/base/expat_handler_ns.h"
#include "kml/base/expat_parser.h"
#include "kml/base/xmlns.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/dom.h"
#include "kml/dom/kml_handler.h"
#include "kml/dom/kml_handler_ns.h"
#include "kml/engine/kml_stream.h"
#include "kml/xsd/xsd_complex_type.h"
#include "kml/xsd/xsd_element.h"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xsd_handler.h"
#include "kml/xsd/xsd_simple_type.h"
using namespace sim;

struct Result {
  bool ok = false;
  std::string xml, err;
  std::vector<Event> events;
};
static void finish(Result* r, const kmldom::ElementPtr& root, Recorder* rec) {
  r->ok = root != NULL;
  if (root) r->xml = kmldom::SerializeRaw(root);
  r->events.swap(rec->events);
  rec->keep.clear();
}

// Cuts the text into seeded pieces. None is empty, except possibly the last.
static std::vector<std::string> cut(Ctx& c, const std::string& s) {
  std::vector<std::string> v;
  unsigned how = c.choose(5);
  if (how == 0 && s.size() <= 3000) { for (size_t i = 0; i < s.size(); ++i) v.push_back(s.substr(i, 1)); }
  else if (how == 1) { size_t p = s.empty() ? 0 : c.choose((uint32_t)s.size() + 1); v.push_back(s.substr(0, p)); v.push_back(s.substr(p)); }
  else {
    unsigned max = how == 2 ? 8 : how == 3 ? 200 : 5000;
    uint64_t seed = c.seed64(); Rng r(seed);
    for (size_t p = 0; p < s.size();) { size_t n = 1 + r.next() % max; v.push_back(s.substr(p, n)); p += n; }
  }
  if (!v.empty() && v[0].empty()) v.erase(v.begin());
  if (c.choose(2) || v.empty()) v.push_back("");
  return v;
}
static bool feed(kmlbase::ExpatParser* p, const std::vector<std::string>& pieces, std::string* err) {
  for (size_t i = 0; i < pieces.size(); ++i)
    if (!p->ParseBuffer(pieces[i], err, i + 1 == pieces.size())) return false;
  return true;
}

class Gpx : public kmlconvenience::GpxTrkPtHandler {
 public:
  std::vector<std::string> points;
  void HandlePoint(const kmlbase::Vec3& w, const std::string& when) override {
    points.push_back(format("%.15g,%.15g,%.15g,%d %s", w.get_longitude(), w.get_latitude(), w.get_altitude(), w.has_altitude(), when.c_str()));
  }
};
static std::string gpx(Ctx& c, std::vector<std::string>* want) {
  std::string s = "<gpx><trk><trkseg>";
  unsigned n = c.choose(30);
  for (unsigned i = 0; i < n; ++i) {
    double lon = (int)c.choose(360) - 180 + c.choose(1000) / 1000., lat = (int)c.choose(180) - 90 + c.choose(100000) / 100000., ele = c.choose(9000) / 8.;
    bool has_lon = c.choose(12) != 0, has_lat = c.choose(12) != 0, has_ele = c.choose(3) != 0, has_time = c.choose(3) != 0;
    std::string time = format("20%02u-0%u-11T14:55:41Z", c.choose(99), 1 + c.choose(9));
    std::string pad(c.choose(4) ? c.choose(4) : c.choose(600), ' ');
    s += pad + "<trkpt";
    if (has_lat) s += format(" lat=\"%.9g\"", lat);
    if (has_lon) s += format(" lon=\"%.9g\"", lon);
    s += ">";
    bool time_first = c.choose(2);
    std::string e = has_ele ? format("<ele>%.9g</ele>", ele) : "", t = has_time ? "<time>" + time + "</time>" : "";
    s += time_first ? t + pad + e : e + pad + t;
    s += "</trkpt>";
    if (c.chance(1, 8)) s += "<time>1999</time><ele>5</ele>";
    if (has_lon && has_lat) want->push_back(format("%.15g,%.15g,%.15g,%d %s", strtod(format("%.9g", lon).c_str(), 0), strtod(format("%.9g", lat).c_str(), 0), has_ele ? strtod(format("%.9g", ele).c_str(), 0) : 0.0, has_ele, has_time ? time.c_str() : ""));
  }
  return s + "</trkseg></trk></gpx>";
}
static void run_gpx(Ctx& c) {
  std::vector<std::string> want;
  std::string s = gpx(c, &want), err;
  bool damaged = c.chance(1, 5);
  if (damaged) { s = gen::mangle(c, s); c.injected("damaged-input", 1); }
  Gpx whole, parts;
  bool ok1 = kmlbase::ExpatParser::ParseString(s, &whole, &err, false);
  kmlbase::ExpatParser p(&parts, false);
  std::vector<std::string> pieces = cut(c, s);
  bool ok2 = feed(&p, pieces, &err);
  c.log("gpx %zu bytes %zu points %zu pieces -> %d %d", s.size(), want.size(), pieces.size(), ok1, ok2);
  if (ok1 != ok2) c.fail("gpx-status", "GPX parsed at once: %d, in %zu pieces: %d (%s)", ok1, pieces.size(), ok2, err.c_str());
  if (whole.points != parts.points) c.fail("gpx-points", "GPX points depend on how the bytes arrive: %zu and %zu", whole.points.size(), parts.points.size());
  if (!damaged) {
    if (!ok1) c.fail("gpx-status", "good GPX refused: %s", err.c_str());
    if (whole.points != want) {
      size_t i = 0; while (i < want.size() && i < whole.points.size() && want[i] == whole.points[i]) ++i;
      c.fail("gpx-points", "point %zu is %s, expected %s", i, i < whole.points.size() ? whole.points[i].c_str() : "(none)", i < want.size() ? want[i].c_str() : "(none)");
    }
  }
  if (pieces.size() > 2) c.nontrivial++;
}

// XML schemas: the same contents however the bytes arrive, and every query ends.
struct Schema {
  struct El { std::string name, type; bool abstract; };
  struct Ty { std::string name, base; bool complex; std::vector<std::string> parts; };
  std::vector<El> els; std::vector<Ty> types;
};
static std::string schema_text(Ctx& c, Schema* m, bool sane) {
  std::string ns = c.choose(8) || sane ? " targetNamespace=\"http://k\"" : "", s;
  unsigned nt = c.choose(6), ne = c.choose(6);
  for (unsigned i = 0; i < nt; ++i) {
    Schema::Ty t; t.name = "T" + std::to_string(i); t.complex = c.choose(3) != 0;
    if (t.complex) {
      s += "<complexType name=\"" + t.name + "\">";
      bool ext = c.choose(2);
      if (ext) { t.base = "k:T" + std::to_string(c.choose(nt + 1)); s += "<complexContent><extension base=\"" + t.base + "\">"; }
      s += "<sequence>";
      for (unsigned k = c.choose(4); k-- > 0;) {
        bool ref = c.choose(2); std::string n = ref ? "k:E" + std::to_string(c.choose(ne + 1)) : "in" + std::to_string(k);
        s += ref ? "<element ref=\"" + n + "\"/>" : "<element name=\"" + n + "\" type=\"string\"/>";
        if (!sane && c.chance(1, 6)) s += "<element name=\"anon\"><complexType><sequence><element name=\"x\"/></sequence></complexType></element>";
        t.parts.push_back(n);
      }
      s += "</sequence>"; if (ext) s += "</extension></complexContent>";
      s += "</complexType>";
    } else {
      t.base = c.choose(3) ? "string" : "double";
      s += "<simpleType name=\"" + t.name + "\"><restriction base=\"" + t.base + "\">";
      for (unsigned k = c.choose(4); k-- > 0;) { std::string v = "v&amp;" + std::to_string(k); s += "<enumeration value=\"" + v + "\"/>"; t.parts.push_back("v&" + std::to_string(k)); }
      s += "</restriction></simpleType>";
    }
    m->types.push_back(t);
  }
  for (unsigned i = 0; i < ne; ++i) {
    static const char* kPrim[] = {"string", "boolean", "double", "anyURI", "int"};
    Schema::El e; e.name = "E" + std::to_string(i); e.abstract = c.chance(1, 4);
    e.type = c.choose(3) ? "k:T" + std::to_string(c.choose(nt + 1)) : kPrim[c.choose(5)];
    std::string t = "<element name=\"" + e.name + "\" type=\"" + e.type + "\"" + (e.abstract ? " abstract=\"true\"" : "") + "/>";
    if (!sane && c.chance(1, 6)) t = "<element name=\"" + e.name + "\"><simpleType><restriction base=\"string\"/></simpleType></element>";
    if (c.choose(2)) s = t + s; else s += t;
    m->els.push_back(e);
  }
  if (!sane && c.chance(1, 12)) return "<element name=\"a\">" + s + "</element>";
  return "<schema xmlns=\"http://www.w3.org/2001/XMLSchema\" xmlns:k=\"http://k\"" + ns + ">" + s + "</schema>";
}
static std::string names(const kmlxsd::XsdElementVector& v) {
  std::string s; for (size_t i = 0; i < v.size(); ++i) s += (v[i] ? v[i]->get_name() : std::string("-")) + " "; return s;
}
static std::string dump(const kmlxsd::XsdFile& f) {
  std::string out = "ns " + f.get_target_namespace() + " " + f.get_target_namespace_prefix() + "\n";
  kmlxsd::XsdElementVector v; f.GetAllElements(&v);
  for (size_t i = 0; i < v.size(); ++i) {
    kmlxsd::XsdTypePtr t = f.FindElementType(v[i]);
    out += format("element %s type %s abstract %d -> %s\n", v[i]->get_name().c_str(), v[i]->get_type().c_str(), v[i]->is_abstract(), t ? t->get_name().c_str() : "-");
    kmlxsd::XsdElementVector k; f.GetChildElements(v[i]->get_name(), &k); out += " children " + names(k) + "\n";
  }
  kmlxsd::XsdTypeVector tv; f.GetAllTypes(&tv);
  for (size_t i = 0; i < tv.size(); ++i) {
    out += "type " + tv[i]->get_name() + " base " + tv[i]->get_base() + "\n";
    if (kmlxsd::XsdComplexTypePtr ct = kmlxsd::XsdComplexType::AsComplexType(tv[i])) {
      std::vector<kmlxsd::XsdComplexTypePtr> h; bool whole = f.GetTypeHierarchy(ct, &h);
      out += format(" hierarchy %d", whole); for (size_t k = 0; k < h.size() && k < tv.size(); ++k) out += " " + h[k]->get_name(); out += "\n";
      for (size_t k = 0; k < ct->get_sequence_size(); ++k) out += " part " + ct->get_sequence_at(k)->get_name() + "\n";
      kmlxsd::XsdElementVector k; f.GetElementsOfTypeByName(tv[i]->get_name(), &k); out += " elements " + names(k) + "\n";
    } else if (kmlxsd::XsdSimpleTypePtr st = kmlxsd::XsdSimpleType::AsSimpleType(tv[i])) {
      for (size_t k = 0; k < st->get_enumeration_size(); ++k) out += " part " + st->get_enumeration_at(k) + "\n";
    }
  }
  kmlxsd::XsdElementVector ids; size_t b = 0, e = 0; f.GenerateElementIdVector(&ids, &b, &e);
  return out + format("ids %zu %zu ", b, e) + names(ids) + "\n";
}
// What the queries answer for a schema without anonymous types.
static std::string expected(const Schema& m) {
  std::string out = "ns http://k k\n";
  auto type = [&](const std::string& n) -> const Schema::Ty* { if (n.compare(0, 2, "k:")) return 0; for (auto& t : m.types) if ("k:" + t.name == n) return &t; return 0; };
  auto elem = [&](const std::string& n) { for (auto& e : m.els) if ("k:" + e.name == n) return e.name; return std::string("-"); };
  auto prim = [](const std::string& n) { return n.compare(0, 2, "k:") != 0; };
  for (auto& e : m.els) {   // names are single digits: generation order is the sorted order
    const Schema::Ty* t = type(e.type);
    out += format("element %s type %s abstract %d -> %s\n", e.name.c_str(), e.type.c_str(), e.abstract, prim(e.type) ? e.type.c_str() : t ? t->name.c_str() : "-");
    std::string k; if (t && t->complex) for (auto& p : t->parts) k += (p.compare(0, 2, "k:") ? p : elem(p)) + " ";
    out += " children " + k + "\n";
  }
  auto chain = [&](const Schema::Ty* t, std::vector<const Schema::Ty*>* v) {
    while (!t->base.empty()) { const Schema::Ty* b = type(t->base); if (!b || !b->complex || v->size() >= m.types.size()) return false; v->push_back(b); t = b; }
    return true;
  };
  for (auto& t : m.types) {
    out += "type " + t.name + " base " + t.base + "\n";
    if (t.complex) {
      std::vector<const Schema::Ty*> h; bool whole = chain(&t, &h);
      out += format(" hierarchy %d", whole); for (auto* b : h) out += " " + b->name; out += "\n";
    }
    for (auto& p : t.parts) out += " part " + p + "\n";
    if (t.complex) {
      std::string k;
      for (auto& e : m.els) { const Schema::Ty* et = type(e.type); if (!et || !et->complex) continue; std::vector<const Schema::Ty*> h(1, et); chain(et, &h); bool in = false; for (auto* b : h) in |= b == &t; if (in) k += e.name + " "; }
      out += " elements " + k + "\n";
    }
  }
  std::string a, x, s; size_t na = 0, nx = 0;
  for (auto& e : m.els) { const Schema::Ty* t = type(e.type); if (e.abstract) { a += e.name + " "; ++na; } else if (t && t->complex) { x += e.name + " "; ++nx; } else if (prim(e.type) || t) s += e.name + " "; }
  return out + format("ids %zu %zu ", na, na + nx) + a + x + s + "\n";
}
static void run_xsd(Ctx& c) {
  Schema m; bool sane = c.choose(2), damaged = !sane && c.chance(1, 2);
  std::string s = schema_text(c, &m, sane), err, e2;
  if (damaged) { s = gen::mangle(c, s); c.injected("damaged-input", 1); }
  c.note("text %s", quote(s, 4000).c_str());
  std::unique_ptr<kmlxsd::XsdFile> whole(kmlxsd::XsdFile::CreateFromParse(s, &err));
  kmlxsd::XsdFile parts; kmlxsd::XsdHandler h(&parts); kmlbase::ExpatParser p(&h, false);
  std::vector<std::string> pieces = cut(c, s);
  bool ok = feed(&p, pieces, &e2);
  c.log("schema %zu bytes %zu elements %zu types %zu pieces -> %d %d", s.size(), m.els.size(), m.types.size(), pieces.size(), whole != NULL, ok);
  if ((whole != NULL) != ok) c.fail("schema-status", "schema parsed at once: %d, in %zu pieces: %d (%s)", whole != NULL, pieces.size(), ok, e2.c_str());
  std::string b = dump(parts);
  if (whole) { std::string a = dump(*whole); if (a != b) c.fail("schema", "the schema depends on how its bytes arrive: %s", gen::diff(a, b).c_str()); }
  if (sane) {
    if (!whole) c.fail("schema-status", "good schema refused: %s", err.c_str());
    std::string w = expected(m);
    if (w != b) c.fail("schema", "the schema is misread: %s", gen::diff(w, b).c_str());
  }
  if (pieces.size() > 1) c.nontrivial++;
  c.state(hash_str(format("xsd %d %d %d %zu %zu", sane, damaged, ok, m.els.size(), m.types.size())));
}

static std::string old_schema(Ctx& c) {
  std::string s = "<kml><Document><Schema name=\"S\" parent=\"Placemark\">";
  unsigned f = c.choose(4);
  for (unsigned i = 0; i < f; ++i) s += format("<SimpleField type=\"string\" name=\"F%u\"/>", i);
  s += "</Schema>";
  unsigned n = c.choose(4);
  for (unsigned i = 0; i < n; ++i) {
    s += "<S><name>n" + std::to_string(i) + "</name>";
    for (unsigned k = 0; k < f + 1; ++k) if (c.choose(3)) s += format("<F%u>value %u &amp; %u</F%u>", k, i, k, k);
    s += "<Point><coordinates>1,2,3</coordinates></Point></S>";
  }
  return s + "</Document></kml>";
}

static void run(Ctx& c) {
  unsigned mode = c.choose(9);
  if (mode == 8) { run_xsd(c); return; }
  if (mode == 7) { run_gpx(c); return; }
  gen::Opts o; o.budget = c.chance(1, 5) ? 80 : 2 + c.choose(20); o.misplaced = c.chance(1, 5); o.bulk = true;
  gen::Node n = gen::document(c, o);
  if (c.chance(1, 10)) gen::other_root(c, &n);
  const std::string root = mode == 6 ? "<kml" : "<" + n.name;
  std::string s = mode == 6 ? old_schema(c) : gen::write(c, n, gen::spelling(c));
  // Move the content relative to the 4096-byte buffer.
  if (c.choose(2)) { size_t p = s.find('>', s.find(root)); if (p != std::string::npos) s.insert(p + 1, "<!--" + std::string(c.choose(9000), 'p') + "-->"); }
  bool damaged = c.chance(2, 5), entities = false;
  if (damaged && c.chance(1, 8)) {   // a document with entities of its own, which may grow without bound
    entities = true;
    std::string d = "<!DOCTYPE kml [", last;
    if (c.choose(3) == 0) d += "<!-- " + std::string(c.choose(5000), 'x') + " -->";
    unsigned k = 1 + c.choose(12), kind = c.choose(4);
    for (unsigned i = 0; i < k; ++i) {
      std::string body = "v"; if (i && kind == 0) { body.clear(); for (unsigned j = 0; j < 10; ++j) body += "&e" + std::to_string(i - 1) + ";"; }
      d += kind == 2 ? format("<!ENTITY %% p%u \"%s\">", i, body.c_str()) : kind == 3 ? format("<!ENTITY e%u SYSTEM \"file:///sim/secret%u\">", i, i) : format("<!ENTITY e%u \"%s\">", i, body.c_str());
    }
    d += "]>"; s.insert(s.find(root), d);
    if (kind != 2 && c.choose(2)) { size_t at = s.find("<name>", d.size()); if (at != std::string::npos) s.insert(at + 6, format("&e%u;", k - 1)); }
    c.injected("entity-declaration", 1);
  } else if (damaged) { s = gen::mangle(c, s); c.injected("damaged-input", 1); }
  bool ns = mode == 4, atom = mode == 5;
  if (mode == 6) mode = c.choose(4);
  Recorder r1, r2;
  r1.digests = r2.digests = true;
  Result a, b;
  // The string for error messages may be left out.
  std::string* ae = c.choose(4) ? &a.err : NULL; std::string* be = c.choose(4) ? &b.err : NULL;
  {
    kmldom::Parser p; p.AddObserver(&r1);
    kmldom::ElementPtr root = ns ? p.ParseNS(s, ae) : atom ? p.ParseAtom(s, ae) : p.Parse(s, ae);
    finish(&a, root, &r1);
  }
  size_t pieces_n = 0;
  if (mode < 2) {
    unsigned max = c.choose(3) == 0 ? 3 : c.choose(2) ? 700 : 6000;
    InBuf buf(c, s, s.size(), false, max);
    std::istream in(&buf);
    std::unique_ptr<kmlengine::KmlStream> ks(kmlengine::KmlStream::ParseFromIstream(&in, be, &r2));
    finish(&b, ks ? ks->get_root() : NULL, &r2);
    if (ks && !b.ok) c.fail("no-root", "parsing a stream succeeded without a document");
    pieces_n = s.size() / 4096 + 1;
  } else {
    std::vector<std::string> pieces = cut(c, s);
    pieces_n = pieces.size();
    kmldom::parser_observer_vector_t obs(1, &r2);
    std::unique_ptr<kmldom::KmlHandler> h(ns ? new kmldom::KmlHandlerNS(obs) : new kmldom::KmlHandler(obs));
    bool ok;
    if (atom) {
      kmlbase::Attributes at;
      at.SetValue("xmlns", "http://www.opengis.net/kml/2.2"); at.SetValue("xmlns:atom", "http://www.w3.org/2005/Atom");
      std::unique_ptr<kmlbase::Xmlns> x(kmlbase::Xmlns::Create(at));
      kmlbase::ExpatHandlerNs hn(h.get(), x.get());
      kmlbase::ExpatParser p(&hn, true);
      ok = feed(&p, pieces, be);
    } else {
      kmlbase::ExpatParser p(h.get(), ns);
      ok = feed(&p, pieces, be);
    }
    finish(&b, ok ? h->PopRoot() : NULL, &r2);
  }
  c.note("text %s", quote(s, 6000).c_str());
  c.injected("split-delivery", pieces_n > 1);
  c.log("mode %u %zu bytes %s in %zu pieces damaged=%d -> %d %d, %zu notifications", mode, s.size(), digest(s).c_str(), pieces_n, damaged, a.ok, b.ok, a.events.size());
  if (a.ok != b.ok) c.fail("status", "parsed at once: %s, delivered in pieces: %s (%s%s) for %s", a.ok ? "success" : "failure", b.ok ? "success" : "failure", a.err.c_str(), b.err.c_str(), quote(s, 300).c_str());
  if (a.xml != b.xml) c.fail("document", "the document depends on how its bytes arrive: %s", gen::diff(a.xml, b.xml).c_str());
  std::string d = first_difference(a.events, b.events);
  if (!d.empty()) c.fail("notifications", "the notifications depend on how the bytes arrive: %s (parsed %s)", d.c_str(), a.ok ? "ok" : "with an error");
  if (entities && (a.ok || b.ok)) c.fail("entities", "a document that declares entities is accepted: %s", quote(s, 300).c_str());
  if (!damaged && !atom && !ns && !a.ok) c.fail("rejected", "a well-formed document is refused: %s", a.err.c_str());
  if (pieces_n > 1) c.nontrivial++;
  if (!a.ok) c.probe("malformed input"); else if (damaged) c.probe("damaged but accepted");
  c.state(hash_str(format("%u %d %d %zu %u", mode, a.ok, damaged, a.events.size() / 4, pieces_n > 20 ? 20u : (unsigned)pieces_n)));
}
SIM_PROP(C12, run);
