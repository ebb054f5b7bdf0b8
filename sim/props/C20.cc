// C20: a saved document survives reload exactly; an interrupted save is
// detected.
#include <string.h>
#include <fstream>
#include <memory>
#include <algorithm>
#include "../core.h"
#include "../gen.h"
#include "../simfs.h"
#include "../ziputil.h"
#include "kml/base/file.h"
#include "kml/dom.h"
#include "kml/dom/xml_serializer.h"
#include "kml/engine.h"
#include "kml/engine/object_id_parser_observer.h"
using namespace sim;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmzFile;

static void collect_ids(const gen::Node& n, std::map<std::string, const gen::Node*>* ids, std::map<std::string, const gen::Node*>* styles, const gen::Node* parent) {
  if (n.unknown) return;
  if (const std::string* id = n.attr("id")) {
    (*ids)[*id] = &n;
    if ((n.name == "Style" || n.name == "StyleMap") && parent && parent->name == "Document") (*styles)[*id] = &n;
  }
  for (size_t i = 0; i < n.kids.size(); ++i) collect_ids(n.kids[i], ids, styles, &n);
}

static std::string canon_of(Ctx& c, const std::string& xml, const char* what) {
  gen::Node n; std::string why;
  if (!gen::parse(xml, &n, &why)) c.fail("ill-formed", "%s is not well-formed XML: %s: %s", what, why.c_str(), quote(xml, 400).c_str());
  return gen::canon(n);
}
static std::string element_canon(Ctx& c, const kmldom::ElementPtr& e) {
  std::string s = c.choose(2) ? kmldom::SerializePretty(e) : kmldom::SerializeRaw(e);
  return canon_of(c, s, "a serialized element");
}

// The namespaces the root declares are completed when a document is saved.
static std::string bare_canon(const gen::Node& n) {
  gen::Node m = n;
  for (size_t i = m.attrs.size(); i-- > 0;) if (m.attrs[i].first == "xmlns" || m.attrs[i].first.compare(0, 6, "xmlns:") == 0) m.attrs.erase(m.attrs.begin() + i);
  return gen::canon(m);
}
static bool has_prefix(const gen::Node& n, const std::string& p) {   // an element of this namespace having children of its own
  if (n.unknown) return false;
  for (size_t i = 0; i < n.kids.size(); ++i) if ((!n.kids[i].kids.empty() && n.kids[i].name.compare(0, p.size(), p) == 0) || has_prefix(n.kids[i], p)) return true;
  return false;
}
static void compare(Ctx& c, const gen::Node& want, const KmlFilePtr& got, const char* where, bool bare, bool saved) {
  std::string expect, have;
  if (bare) {
    gen::Node n; std::string why, xml = kmldom::SerializePretty(got->get_root());
    if (!gen::parse(xml, &n, &why)) c.fail("ill-formed", "the reloaded document is not well-formed XML: %s: %s", why.c_str(), quote(xml, 400).c_str());
    expect = bare_canon(want); have = bare_canon(n);
    if (saved) {
      static const char* const kNs[][2] = {{"gx:", "http://www.google.com/kml/ext/2.2"}, {"atom:", "http://www.w3.org/2005/Atom"}, {"xal:", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"}};
      const std::string* a = n.attr("xmlns");
      if (!a || *a != "http://www.opengis.net/kml/2.2") c.fail("namespace", "%s: the namespace of the document is %s", where, a ? a->c_str() : "missing");
      for (int i = 0; i < 3; ++i) if (has_prefix(want, kNs[i][0])) {
        a = n.attr(std::string("xmlns:") + std::string(kNs[i][0], strlen(kNs[i][0]) - 1));
        if (!a || *a != kNs[i][1]) c.fail("namespace", "%s: the namespace of %s elements is %s", where, kNs[i][0], a ? a->c_str() : "missing");
      }
      c.probe("namespaces completed");
    }
  } else {
    expect = gen::canon(want);
    have = canon_of(c, kmldom::SerializePretty(got->get_root()), "the reloaded document");
  }
  if (have != expect) c.fail("changed", "%s: the document changed: %s", where, gen::diff(expect, have).c_str());
  std::map<std::string, const gen::Node*> ids, styles;
  collect_ids(want, &ids, &styles, NULL);
  unsigned n = 0;
  for (std::map<std::string, const gen::Node*>::iterator i = ids.begin(); i != ids.end() && n < 6; ++i, ++n) {
    kmldom::ObjectPtr o = got->GetObjectById(i->first);
    if (!o) c.fail("lookup", "%s: object %s (%s) is not found by id", where, i->first.c_str(), i->second->name.c_str());
    if (bare && i->second == &want) continue;   // saving completes its namespaces
    std::string h = element_canon(c, o), e = gen::canon(*i->second);
    if (h != e) c.fail("lookup", "%s: looking up %s gives another object: %s", where, i->first.c_str(), gen::diff(e, h).c_str());
  }
  if (got->GetObjectById("no-such-id")) c.fail("lookup", "an unknown id finds an object");
  for (std::map<std::string, const gen::Node*>::iterator i = styles.begin(); i != styles.end(); ++i) {
    kmldom::StyleSelectorPtr o = got->GetSharedStyleById(i->first);
    if (!o) c.fail("lookup", "%s: shared style %s is not found", where, i->first.c_str());
    if (element_canon(c, o) != gen::canon(*i->second)) c.fail("lookup", "%s: looking up shared style %s gives another style", where, i->first.c_str());
  }
  for (std::map<std::string, const gen::Node*>::iterator i = ids.begin(); i != ids.end(); ++i)
    if (!styles.count(i->first) && got->GetSharedStyleById(i->first)) c.fail("lookup", "%s: %s (%s) is found as a shared style", where, i->first.c_str(), i->second->name.c_str());
}

// A parsed file knows its elements that have links, in the order of the document.
static void link_parents(const gen::Node& n, std::vector<std::string>* out) {
  if (n.unknown) return;
  static const char* const names[] = {"PhotoOverlay", "GroundOverlay", "ScreenOverlay", "ItemIcon", "IconStyle", "NetworkLink", "Model"};
  for (const char* x : names) if (n.name == x) { const std::string* id = n.attr("id"); out->push_back(n.name + " " + (id ? *id : "")); }
  if (n.name != "Metadata") for (const gen::Node& k : n.kids) link_parents(k, out);
}
static void check_links(Ctx& c, const gen::Node& n, const KmlFilePtr& f, bool ordered, const char* where) {
  std::vector<std::string> want, got; link_parents(n, &want);
  const auto& v = f->get_link_parent_vector();
  for (size_t i = 0; i < v.size(); ++i) {
    const char* name; switch (v[i]->Type()) {
      case kmldom::Type_PhotoOverlay: name = "PhotoOverlay"; break; case kmldom::Type_GroundOverlay: name = "GroundOverlay"; break; case kmldom::Type_ScreenOverlay: name = "ScreenOverlay"; break;
      case kmldom::Type_ItemIcon: name = "ItemIcon"; break; case kmldom::Type_IconStyle: name = "IconStyle"; break; case kmldom::Type_NetworkLink: name = "NetworkLink"; break; case kmldom::Type_Model: name = "Model"; break;
      default: name = "another"; }
    kmldom::ObjectPtr o = kmldom::AsObject(kmldom::ElementPtr(v[i]));
    got.push_back(std::string(name) + " " + (o && o->has_id() ? o->get_id() : ""));
  }
  if (!ordered) { std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); }
  if (want != got) { std::string a, b; for (auto& x : want) a += x + ","; for (auto& x : got) b += x + ","; c.fail("links", "%s: the elements with links are %s, listed are %s", where, a.c_str(), b.c_str()); }
}

static void measure(Ctx& c, const gen::Node& n, unsigned how) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    c.state(hash_str(n.name + ">" + n.kids[i].name + (n.kids[i].kids.empty() && n.kids[i].text.empty() ? "-" : "")) + how);
    measure(c, n.kids[i], how);
  }
}

static KmlFilePtr load(const std::string& path) {
  std::string bytes, err;
  if (!kmlbase::File::ReadFileToString(path, &bytes)) return NULL;
  return KmlFile::CreateFromParse(bytes, &err);
}

enum How { kString, kOstream, kWriteKmz, kFromFile, kRaw, kOthers, kHows };
static bool save(Ctx& c, const KmlFilePtr& kf, How how, const std::string& path) {
  switch (how) {
    case kString: { std::string s; return kf->SerializeToString(&s) && kmlbase::File::WriteStringToFile(s, path); }
    case kOstream: { std::ofstream f(path.c_str(), std::ios::binary | std::ios::trunc); if (!f.is_open()) return false; bool ok = kf->SerializeToOstream(&f); f.close(); return ok && !f.fail(); }
    case kWriteKmz: { std::string s; return kf->SerializeToString(&s) && KmzFile::WriteKmz(path.c_str(), s); }
    case kOthers: {   // an archive of another program's making
      std::vector<ziputil::Entry> v; ziputil::Entry e; static const char* const kNames[] = {"doc.kml", "my map.kml", "sub/doc.kml", "b.kml", "Root.kml"};
      if (c.choose(2)) { e.name = "files/a.png"; e.data = "png"; v.push_back(e); }
      e.name = kNames[c.choose(5)]; e.deflate = c.choose(2); e.data.clear(); if (!kf->SerializeToString(&e.data)) return false; v.push_back(e);
      if (c.choose(2)) { e.name = "zz/other.kml"; e.data = "<kml/>"; v.push_back(e); }
      return kmlbase::File::WriteStringToFile(ziputil::build(v), path);
    }
    case kFromFile: return KmzFile::CreateFromKmlFile(kf, path);
    default: return kmlbase::File::WriteStringToFile(kmldom::SerializeRaw(kf->get_root()), path);
  }
}

// A possible content of the file after power was lost during the save.
static std::string crash_image(Ctx& c, const std::string& path, const std::string& old, bool had_old, bool* absent) {
  const std::vector<simfs::Op>& j = simfs::journal();
  // Operations on this file up to the crash.
  std::vector<const simfs::Op*> ops;
  for (size_t i = 0; i < j.size(); ++i) if (j[i].path == path) ops.push_back(&j[i]);
  unsigned k = c.choose((uint32_t)ops.size() + 1);
  std::string img = old; *absent = !had_old;
  bool truncated = !had_old;
  for (unsigned i = 0; i < k; ++i) {
    const simfs::Op& o = *ops[i];
    if (o.kind == simfs::Op::kTrunc || o.kind == simfs::Op::kCreate) { img.clear(); *absent = false; truncated = true; }
    else if (o.kind == simfs::Op::kUnlink) { img.clear(); *absent = true; }
    else if (o.kind == simfs::Op::kWrite) { if (img.size() < o.off) img.resize(o.off, '\0'); img.replace(o.off, o.data.size(), o.data); *absent = false; }
  }
  switch (c.choose(5)) {
    case 0: break;                                                  // everything issued so far reached the disk
    case 1: img = old; *absent = !had_old; break;                   // nothing did
    case 2: if (truncated) img.resize(c.choose((uint32_t)img.size() + 1)); break;   // a prefix
    case 3: if (truncated) {                                        // blocks allocated, data lost
      unsigned bs = c.choose(2) ? 512 : 4096; uint64_t seed = c.seed64(); Rng r(seed);
      for (size_t b = 0; b < img.size(); b += bs) if (r.next() % 3 == 0) std::fill(img.begin() + b, img.begin() + std::min(img.size(), b + bs), '\0');
    } break;
    case 4: if (truncated && !img.empty()) {                        // last write torn at a byte, rest zero
      size_t p = c.choose((uint32_t)img.size()); std::fill(img.begin() + p, img.end(), '\0');
    } break;
  }
  return img;
}

static void with_ids(gen::Node* n, std::vector<gen::Node*>* out) {
  if (n->unknown) return;
  if (n->attr("id")) out->push_back(n);
  for (size_t i = 0; i < n->kids.size(); ++i) with_ids(&n->kids[i], out);
}
// One id used by two objects: importing strictly refuses, anything else keeps the document and finds the last of them.
static bool used_twice(Ctx& c, gen::Node n) {
  std::vector<gen::Node*> v; with_ids(&n, &v);
  if (v.size() < 2) return false;
  unsigned b = 1 + c.choose((uint32_t)v.size() - 1), a = c.choose(b);
  std::string id = *v[a]->attr("id");
  if (c.chance(1, 6)) { id.append(c.size_upto(300), 'i'); for (size_t i = 0; i < v[a]->attrs.size(); ++i) if (v[a]->attrs[i].first == "id") v[a]->attrs[i].second = id; }
  for (size_t i = 0; i < v[b]->attrs.size(); ++i) if (v[b]->attrs[i].first == "id") v[b]->attrs[i].second = id;
  std::string xml = gen::write(c, n, gen::spelling(c)), err, expect = gen::canon(n);
  c.log("id %s is used twice: %s", id.c_str(), digest(xml).c_str());
  KmlFilePtr kf = KmlFile::CreateFromParse(xml, &err);
  if (!kf) c.fail("rejected", "a well-formed document with an id used twice is refused: %s", err.c_str());
  std::string have = canon_of(c, kmldom::SerializePretty(kf->get_root()), "the document");
  if (have != expect) c.fail("changed", "the document changed: %s", gen::diff(expect, have).c_str());
  kmldom::ObjectPtr o = kf->GetObjectById(id);
  if (!o || element_canon(c, o) != gen::canon(*v[b])) c.fail("lookup", "looking up %s, used twice, does not give the last one", id.c_str());
  { kmldom::Parser p; kmlengine::ObjectIdMap m; kmlengine::ObjectIdParserObserver unique(&m, true); p.AddObserver(&unique); err.clear();
    if (p.Parse(xml, &err) || err.empty()) c.fail("strict", "a parse that insists on unique ids accepts %s twice", id.c_str()); }
  kmldom::ElementPtr root = kmldom::Parse(xml, &err);
  if (!root) c.fail("rejected", "a well-formed document is refused: %s", err.c_str());
  if (KmlFilePtr strict = KmlFile::CreateFromImport(root)) c.fail("strict", "a document with the id %s used twice is imported as having unique ids", id.c_str());
  KmlFilePtr lax = KmlFile::CreateFromImportLax(root);
  if (!lax) c.fail("rejected", "a document with an id used twice cannot be imported");
  have = canon_of(c, kmldom::SerializePretty(lax->get_root()), "the document");
  if (have != expect) c.fail("changed", "importing changed the document: %s", gen::diff(expect, have).c_str());
  o = lax->GetObjectById(id);
  std::string h = o ? element_canon(c, o) : "";
  if (h != gen::canon(*v[a]) && h != gen::canon(*v[b])) c.fail("lookup", "looking up %s in the imported document gives another object", id.c_str());
  ++c.nontrivial; c.probe("an id used twice");
  return true;
}

// Namespaces of other people's making, declared anywhere.
static void declare(Ctx& c, gen::Node* n, unsigned depth) {
  if (n->unknown || (depth && (n->kids.empty() || n->name == "Metadata"))) return;
  for (unsigned k = c.chance(1, depth ? 12 : 2) ? 1 + c.choose(3) : 0; k > 0; --k) {
    std::string p = format("xmlns:n%u", c.choose(6)), uri; bool dup = n->attr(p) != NULL;
    switch (c.choose(5)) {
      case 0: uri = "urn:x"; break; case 1: uri = "http://h/" + std::string(c.choose(300), 'u'); break; case 2: uri = "http://h/?a=1&b=\"2\"<3>"; break;
      case 3: uri = "http://h/\xc3\xa9\xe2\x82\xac"; break; default: uri = "http://www.opengis.net/kml/2.2"; }
    if (!dup) n->attrs.push_back(std::make_pair(p, uri));
  }
  for (gen::Node& k : n->kids) declare(c, &k, depth + 1);
}
// Elements and attributes of other namespaces leave, and with them what names a prefix.
static void one_namespace(gen::Node& n) {
  for (size_t i = n.attrs.size(); i-- > 0;) if (n.attrs[i].first.find(':') != std::string::npos || n.attrs[i].first == "xmlns") n.attrs.erase(n.attrs.begin() + i);
  for (size_t i = n.kids.size(); i-- > 0;) { if (n.kids[i].name.find(':') != std::string::npos) n.kids.erase(n.kids.begin() + i); else one_namespace(n.kids[i]); }
}
static std::string without_xmlns(const kmldom::ElementPtr& e) {
  std::string s = kmldom::SerializeRaw(e);
  for (size_t p; (p = s.find(" xmlns")) != std::string::npos;) { size_t q = s.find('"', s.find('"', p) + 1); s.erase(p, q + 1 - p); }
  return s;
}
static void prefixed(gen::Node& n, const std::string& p) { n.name = p + ":" + n.name; for (gen::Node& k : n.kids) prefixed(k, p); }
static gen::Node leaf(const std::string& name, const std::string& text) { gen::Node n; n.name = name; n.text = text; return n; }
// An entry or feed; its names have the prefix a; the KML in it the prefix k, if any.
static gen::Node atom_common(Ctx& c, unsigned depth, const gen::Opts& o, const std::vector<gen::Node>& kml, const std::string& a, const std::string& k, size_t* used, uint64_t dice) {
  gen::Node n; n.name = a + (depth ? "entry" : "feed");
  auto on = [&](unsigned bit) { return (dice >> bit) & 1; };
  if (on(0)) n.kids.push_back(leaf(a + "id", "i" + std::to_string(dice % 97)));
  if (on(1)) n.kids.push_back(leaf(a + "title", "t < & " + std::to_string(dice % 89)));
  if (on(2)) n.kids.push_back(leaf(a + "updated", "2026-01-01"));
  if (on(3)) { gen::Node l = leaf(a + "link", ""); l.attrs.push_back(std::make_pair("href", "http://h/" + std::to_string(dice % 83))); l.attrs.push_back(std::make_pair("rel", "self")); n.kids.push_back(l); }
  if (on(4)) { gen::Node l = leaf(a + "author", ""); l.kids.push_back(leaf(a + "name", "n")); if (on(5)) l.kids.push_back(leaf(a + "email", "e@h")); n.kids.push_back(l); }
  if (on(6)) { gen::Node l = leaf(a + "category", ""); l.attrs.push_back(std::make_pair("term", "t")); n.kids.push_back(l); }
  if (depth && on(7)) {
    gen::Node l = leaf(a + "content", ""); l.attrs.push_back(std::make_pair("type", "application/vnd.google-earth.kml+xml"));
    if (*used < kml.size()) { gen::Node x = kml[(*used)++]; if (!k.empty()) prefixed(x, k); l.kids.push_back(x); }
    n.kids.push_back(l);
  }
  if (!depth) for (unsigned i = 0; i < (dice >> 8) % 4; ++i) n.kids.push_back(atom_common(c, 1, o, kml, a, k, used, dice * 6364136223846793005ull + i * 1442695040888963407ull >> 7));
  return n;
}
// A document is the same whichever way its namespace is written.
static void namespaces(Ctx& c, gen::Node n, const gen::Opts& o) {
  std::string err; kmldom::ElementPtr a, b;
  if (c.choose(2)) {
    one_namespace(n);
    bool pre = c.choose(2); unsigned uri = c.choose(3);
    std::string ns = uri == 0 ? "http://www.opengis.net/kml/2.2" : uri == 1 ? "http://earth.google.com/kml/2.1" : "u";
    a = kmldom::Parse(gen::write(c, n, gen::spelling(c)), &err);
    if (!a) c.fail("rejected", "a well-formed document is refused: %s", err.c_str());
    if (pre) prefixed(n, "k");
    if (pre || c.choose(2)) n.attrs.push_back(std::make_pair(pre ? "xmlns:k" : "xmlns", ns));
    b = kmldom::ParseNS(gen::write(c, n, gen::spelling(c)), &err);
    c.probe("namespace-aware parse");
  } else {
    std::vector<gen::Node> kml; for (unsigned i = c.choose(4); i > 0; --i) { gen::Opts q = o; q.budget = 6; gen::Node x = gen::element(c, q, c.choose(2) ? "Placemark" : "Folder"); one_namespace(x); kml.push_back(x); }
    uint64_t dice = (uint64_t)c.choose(65536) << 24 | c.choose(1 << 24); size_t used = 0;
    bool entry = c.choose(3) == 0, pre = c.choose(2);
    gen::Node x = atom_common(c, entry, o, kml, "atom:", "", &used, dice);
    x.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom")); x.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2"));
    used = 0;
    gen::Node y = atom_common(c, entry, o, kml, pre ? "b:" : "", "k", &used, dice);
    y.attrs.push_back(std::make_pair(pre ? "xmlns:b" : "xmlns", "http://www.w3.org/2005/Atom")); y.attrs.push_back(std::make_pair("xmlns:k", "http://www.opengis.net/kml/2.2"));
    a = kmldom::Parse(gen::write(c, x, gen::spelling(c)), &err);
    if (!a) c.fail("rejected", "an Atom document is refused: %s", err.c_str());
    std::string xml = gen::write(c, y, gen::spelling(c)); c.note("%s", xml.c_str());
    b = kmldom::ParseAtom(xml, &err);
    c.probe("Atom with other prefixes");
  }
  if (!b) c.fail("namespaces", "the namespace-aware parser refuses a document that is accepted otherwise: %s", err.c_str());
  std::string s = without_xmlns(a), t = without_xmlns(b), why; gen::Node x, y;
  if (!gen::parse(s, &x, &why) || !gen::parse(t, &y, &why)) c.fail("unreadable", "%s", why.c_str());
  s = gen::canon(x); t = gen::canon(y);
  if (s != t) c.fail("namespaces", "the document depends on how its namespace is written: %s", gen::diff(s, t).c_str());
}

static void run(Ctx& c) {
  simfs::activate(true);
  gen::Opts o; o.budget = c.chance(1, 6) ? 120 : 4 + c.choose(30); o.misplaced = c.chance(1, 3); o.bulk = true;
  gen::Node n = gen::document(c, o);
  if (c.chance(1, 12) && used_twice(c, n)) return;
  if (c.chance(1, 10)) { namespaces(c, n, o); return; }
  if (c.chance(1, 5)) declare(c, &n, 0);
  if (c.chance(1, 8) && gen::other_root(c, &n)) c.probe("another root");   // a document need not start with <kml>
  bool bare = c.chance(1, 6);
  if (bare) for (size_t i = n.attrs.size(); i-- > 0;) if (n.attrs[i].first != "xmlns:ext" && n.attrs[i].first.compare(0, 5, "xmlns") == 0) n.attrs.erase(n.attrs.begin() + i);
  std::string xml = gen::write(c, n, gen::spelling(c));
  c.log("document %zu elements %s", gen::count(n), digest(xml).c_str());
  c.note("%s", xml.c_str());
  std::string err;
  KmlFilePtr kf;
  bool parsed = c.choose(2);
  if (parsed) kf = KmlFile::CreateFromParse(xml, &err);
  else {
    kmldom::ElementPtr root = kmldom::Parse(xml, &err);
    if (root) kf = KmlFile::CreateFromImport(root);
  }
  if (!kf) c.fail("rejected", "a well-formed document with unique ids is refused: %s", err.c_str());
  compare(c, n, kf, "parse", bare, false);
  if (parsed) check_links(c, n, kf, true, "parse");
  std::string path = c.choose(2) ? "/sim/a.kml" : "rel.kmz";
  How how = (How)c.choose(kHows);
  bool ok = save(c, kf, how, path);
  c.log("save how=%d -> %d", how, ok);
  if (!ok) c.fail("save-failed", "saving on a healthy disk failed (way %d)", how);
  KmlFilePtr again = load(path);
  if (!again) c.fail("lost", "the saved document cannot be loaded (way %d): %s", how, quote(simfs::content(path), 300).c_str());
  compare(c, n, again, "reload", bare, how != kRaw && how != kFromFile);
  check_links(c, n, again, false, "reload");
  compare(c, n, kf, "after save", bare, how != kRaw && how != kFromFile);
  c.nontrivial++;
  measure(c, n, how);
  // Save a second version over it and lose power on the way.
  unsigned crashes = c.choose(4);
  if (!crashes) return;
  gen::Node n2 = gen::document(c, o);
  KmlFilePtr kf2 = KmlFile::CreateFromParse(gen::write(c, n2, gen::spelling(c)), &err);
  if (!kf2) c.fail("rejected", "a well-formed document with unique ids is refused: %s", err.c_str());
  How how2 = (How)c.choose(kHows);
  bool had_old = c.choose(4) != 0;
  std::string old = had_old ? simfs::content(path) : "";
  if (!had_old) simfs::rm(path);
  simfs::journal_on(true);
  simfs::journal().clear();
  if (!save(c, kf2, how2, path)) c.fail("save-failed", "saving on a healthy disk failed (way %d)", how2);
  simfs::journal_on(false);
  std::string c1 = bare ? bare_canon(n) : gen::canon(n), c2 = bare ? bare_canon(n2) : gen::canon(n2);
  for (unsigned i = 0; i < crashes; ++i) {
    bool absent;
    std::string img = crash_image(c, simfs::norm(path), old, had_old, &absent);
    c.fault("crash during save");
    if (absent) simfs::rm(path); else simfs::put(path, img);
    KmlFilePtr r = load(path);
    c.log("crash image %s absent=%d -> %s", digest(img).c_str(), absent, r ? "document" : "failure");
    if (r) {
      std::string h = canon_of(c, kmldom::SerializePretty(r->get_root()), "the document after a crash");
      if (bare) { gen::Node b; std::string why; gen::parse(kmldom::SerializePretty(r->get_root()), &b, &why); h = bare_canon(b); }
      if (h != c2 && !(had_old && h == c1)) c.fail("mixture", "after a crash the file loads as neither the old nor the new document: %s", gen::diff(c2, h).c_str());
      c.probe(h == c2 ? "crash left the new document" : "crash left the old document");
    } else {
      if (img == old && had_old) c.fail("lost", "the untouched old file does not load");
      c.probe("crash detected on load");
    }
  }
}
SIM_PROP(C20, run);
