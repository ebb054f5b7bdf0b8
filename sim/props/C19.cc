// C19: applying delivered updates gives the state those updates describe.
#include <algorithm>
#include <map>
#include <memory>
#include "../core.h"
#include "../gen.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/update.h"
using namespace sim;
using gen::Node;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

// ---- model ------------------------------------------------------------------
// A document as a tree of objects with identity. The index names the objects
// identified when the document was loaded.
struct M;
typedef std::shared_ptr<M> MP;
struct M {
  std::string kind;
  std::vector<std::pair<std::string, std::string> > attrs;
  std::string text;
  std::vector<MP> kids;
  bool unknown = false;
  M* parent = NULL;
  void set(const std::string& k, const std::string& v) { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == k) { attrs[i].second = v; return; } attrs.push_back(std::make_pair(k, v)); }
  void unset(const std::string& k) { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == k) { attrs.erase(attrs.begin() + i); return; } }
  const std::string* attr(const std::string& k) const { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == k) return &attrs[i].second; return NULL; }
};
static bool texty(const std::string& k) { return k == "Snippet" || k == "linkSnippet" || k == "SimpleData"; }
static bool is_feature(const std::string& k) { return gen::in_group("Feature", k); }
static bool is_container(const std::string& k) { return k == "Folder" || k == "Document"; }
static bool is_simple(const M& parent, const M& kid) { gen::SlotInfo s; return gen::slot_of(parent.kind, kid.kind, &s) && s.simple; }

static MP build(const Node& n, M* parent) {
  MP m(new M); m->kind = n.name; m->attrs = n.attrs; m->text = n.text; m->parent = parent;
  m->unknown = n.unknown;
  if (!n.kids.empty() && m->text.find_first_not_of(" \t\r\n") == std::string::npos) m->text.clear();   // layout
  if (parent && parent->kind == "IconStyle" && n.name == "Icon") m->kind = "IconStyleIcon";
  if (parent && parent->kind != "kml" && parent->kind != "Change") { gen::SlotInfo s; if (parent->unknown || !gen::slot_of(parent->kind, m->kind, &s)) m->unknown = true; }
  for (size_t i = 0; i < n.kids.size(); ++i) m->kids.push_back(build(n.kids[i], m.get()));
  return m;
}
static MP copy(const MP& s, M* parent) {
  MP m(new M(*s)); m->parent = parent;
  for (size_t i = 0; i < m->kids.size(); ++i) m->kids[i] = copy(s->kids[i], m.get());
  return m;
}
static int order(const M& parent, const M& kid) { gen::SlotInfo s; if (kid.unknown) return 1000; return gen::slot_of(parent.kind, kid.kind, &s) ? s.index : 999; }
// Canonical text: the order of children of different kinds is the schema's.
static Node to_node(const M& m) {
  Node n; n.name = m.kind; n.attrs = m.attrs; n.text = m.text; n.unknown = m.unknown;
  std::vector<MP> k = m.kids;
  if (!m.unknown && m.kind != "kml") std::stable_sort(k.begin(), k.end(), [&m](const MP& a, const MP& b) { return order(m, *a) < order(m, *b); });
  for (size_t i = 0; i < k.size(); ++i) n.kids.push_back(to_node(*k[i]));
  return n;
}
typedef std::map<std::string, MP> Index;
static void index_of(const MP& m, Index* ix) {
  if (m->unknown) return;
  if (gen::takes_id(m->kind) || m->kind == "Schema") if (const std::string* id = m->attr("id")) (*ix)[*id] = m;
  for (size_t i = 0; i < m->kids.size(); ++i) index_of(m->kids[i], ix);
}
static void merge(const MP& s, const MP& t) {
  std::vector<MP> had = t->kids;
  for (size_t i = 0; i < s->kids.size(); ++i) {
    const MP& k = s->kids[i];
    if (k->unknown) continue;   // what the library does not know is carried, not applied
    if (is_simple(*s, *k)) continue;
    size_t j = 0;
    while (j < had.size() && had[j]->kind != k->kind) ++j;
    if (j < had.size()) { merge(k, had[j]); continue; }
    gen::SlotInfo si;
    if (!gen::slot_of(t->kind, k->kind, &si)) continue;
    if (!si.repeat) for (size_t d = t->kids.size(); d-- > 0;) if (!t->kids[d]->unknown && order(*t, *t->kids[d]) == si.index) t->kids.erase(t->kids.begin() + d);
    t->kids.push_back(copy(k, t.get()));
  }
  for (size_t i = 0; i < s->attrs.size(); ++i) t->set(s->attrs[i].first, s->attrs[i].second);
  if (s->kind == "coordinates" || (texty(s->kind) && !s->text.empty())) t->text = s->text;
  for (size_t i = 0; i < s->kids.size(); ++i) {
    const MP& k = s->kids[i];
    if (k->unknown || !is_simple(*s, *k)) continue;
    size_t j = 0;
    while (j < t->kids.size() && (t->kids[j]->unknown || t->kids[j]->kind != k->kind)) ++j;
    if (j < t->kids.size()) t->kids[j]->text = k->text; else t->kids.push_back(copy(k, t.get()));
  }
}
struct Replica {
  KmlFilePtr file;
  MP root;
  Index index;
  void reindex() { index.clear(); index_of(root, &index); }
};
typedef std::map<std::string, std::string> StrMap;
static bool target(const M& o, const StrMap* ids, std::string* id) {
  const std::string* t = o.attr("targetId");
  if (!t) return false;
  if (!ids) { *id = *t; return true; }
  StrMap::const_iterator i = ids->find(*t);
  if (i == ids->end()) return false;
  *id = i->second;
  return true;
}
static void apply(const MP& update, const StrMap* ids, Replica* r) {
  for (size_t i = 0; i < update->kids.size(); ++i) {
    const MP& op = update->kids[i];
    for (size_t j = 0; j < op->kids.size(); ++j) {
      const MP& o = op->kids[j]; std::string id;
      if (!target(*o, ids, &id)) continue;
      Index::iterator f = r->index.find(id);
      if (f == r->index.end()) continue;
      MP t = f->second;
      if (op->kind == "Change") { merge(o, t); t->unset("targetId"); }
      else if (op->kind == "Create") {
        if (!is_container(t->kind)) continue;
        for (size_t k = 0; k < o->kids.size(); ++k) if (is_feature(o->kids[k]->kind) && !o->kids[k]->unknown) t->kids.push_back(copy(o->kids[k], t.get()));
      } else if (op->kind == "Delete") {
        if (!is_feature(t->kind) || !t->parent) continue;
        std::vector<MP>& k = t->parent->kids;
        for (size_t x = 0; x < k.size(); ++x) if (k[x] == t) { k.erase(k.begin() + x); break; }
      }
    }
  }
}

// ---- server -----------------------------------------------------------------
static void prune(Ctx& c, Node* n, const std::string& kind) {
  std::vector<Node> kept;
  std::vector<std::string> seen;
  for (size_t i = 0; i < n->kids.size(); ++i) {
    Node& k = n->kids[i];
    if (k.unknown) { kept.push_back(k); continue; }
    if (k.name == "gx:Track" || k.name == "gx:MultiTrack" || k.name == "gx:SimpleArrayData" || k.name == "gx:SimpleArrayField" || k.name == "Update") continue;
    if (std::find(seen.begin(), seen.end(), k.name) != seen.end()) continue;
    gen::SlotInfo s;
    if (gen::slot_of(kind, k.name, &s) && s.simple && s.repeat) continue;
    if ((texty(k.name)) && k.text.find_first_not_of(" \t\r\n") == std::string::npos) k.text = "s";
    seen.push_back(k.name);
    for (size_t a = k.attrs.size(); a-- > 0;) if (k.attrs[a].first == "targetId") k.attrs.erase(k.attrs.begin() + a);
    prune(c, &k, k.name);
    kept.push_back(k);
  }
  n->kids.swap(kept);
}
static void all_ids(const Index& ix, std::vector<std::pair<std::string, std::string> >* out) {
  for (Index::const_iterator i = ix.begin(); i != ix.end(); ++i) if (gen::takes_id(i->second->kind)) out->push_back(std::make_pair(i->first, i->second->kind));
}
static std::string g_known;   // kinds by id known to the server
typedef std::vector<std::pair<std::string, std::string> > Ids;
static Node make_update(Ctx& c, Ids* ids, unsigned serial) {
  Node u; u.name = "Update";
  Node h; h.name = "targetHref"; h.text = "http://h/doc.kml"; u.kids.push_back(h);
  unsigned nops = c.chance(1, 20) ? 4 + c.choose(16) : 1 + c.choose(3), created = 0;   // now and then a long one
  for (unsigned i = 0; i < nops; ++i) {
    Node op; static const char* const kOps[] = {"Change", "Create", "Delete", "Change"};
    op.name = kOps[c.choose(4)];
    unsigned nobj = c.chance(1, 20) ? 3 + c.choose(12) : 1 + c.choose(2);
    for (unsigned j = 0; j < nobj; ++j) {
      bool known = !ids->empty() && !c.chance(1, 10);
      std::pair<std::string, std::string> t;
      if (known) t = c.pick(*ids); else { t.first = "nowhere"; t.second = c.choose(2) ? "Placemark" : "Folder"; }
      Node o;
      gen::Opts go; go.budget = 10; go.max_depth = 4; go.hard_text = c.chance(1, 3); go.unknown = false; go.ids = false; go.animated = false;
      if (op.name == "Change") {
        if (t.second == "Schema") continue;
        go.unknown = c.chance(1, 4);
        if (t.second == "gx:Track" || t.second == "gx:MultiTrack") continue;
        o = gen::element(c, go, t.second);
        prune(c, &o, t.second);
      } else if (op.name == "Create") {
        // Prefer containers as targets.
        for (int k = 0; k < 6 && known && !is_container(t.second); ++k) t = c.pick(*ids);
        o.name = c.choose(2) ? "Folder" : "Document";
        if (is_container(t.second)) o.name = t.second;
        unsigned n = 1 + c.choose(2);
        if (c.chance(1, 16)) { n = 3 + c.choose(60); go.budget = 2; }
        go.unknown = true; go.ids = true;
        if (c.chance(1, 5)) { Node nm; nm.name = "name"; nm.text = "ignored"; o.kids.push_back(nm); }
        for (unsigned k = 0; k < n; ++k) {
          static const char* const kF[] = {"Placemark", "Placemark", "Folder", "NetworkLink", "GroundOverlay", "Document", "ScreenOverlay", "PhotoOverlay", "gx:Tour"};
          go.id_prefix = c.chance(1, 6) ? "i" : "n" + std::to_string(serial) + "_" + std::to_string(created++) + "_";
          Node f = gen::element(c, go, kF[c.choose(9)]);
          MP fm = build(f, NULL); Index fi; index_of(fm, &fi); all_ids(fi, ids);
          o.kids.push_back(f);
        }
      } else {
        for (int k = 0; k < 4 && known && !is_feature(t.second); ++k) t = c.pick(*ids);
        o.name = is_feature(t.second) && c.choose(4) ? t.second : "Placemark";
      }
      for (size_t a = o.attrs.size(); a-- > 0;) if (o.attrs[a].first == "targetId") o.attrs.erase(o.attrs.begin() + a);
      if (!c.chance(1, 20)) o.attrs.push_back(std::make_pair("targetId", t.first));
      op.kids.push_back(o);
    }
    u.kids.push_back(op);
  }
  return u;
}
static Node wrap(const Node& update) {
  Node k; k.name = "kml";
  k.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2"));
  k.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom"));
  k.attrs.push_back(std::make_pair("xmlns:ext", "http://ext.example/"));
  k.attrs.push_back(std::make_pair("xmlns:gx", "http://www.google.com/kml/ext/2.2"));
  k.attrs.push_back(std::make_pair("xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"));
  Node n; n.name = "NetworkLinkControl"; n.kids.push_back(update); k.kids.push_back(n);
  return k;
}
static kmldom::UpdatePtr update_of(const KmlFilePtr& f) {
  if (!f) return NULL;
  kmldom::KmlPtr k = kmldom::AsKml(f->get_root());
  if (!k || !k->has_networklinkcontrol() || !k->get_networklinkcontrol()->has_update()) return NULL;
  return k->get_networklinkcontrol()->get_update();
}
static std::string canon_xml(Ctx& c, const std::string& xml, const char* what) {
  Node n; std::string why;
  if (!gen::parse(xml, &n, &why)) c.fail("ill-formed", "%s is not well-formed XML: %s", what, why.c_str());
  return gen::canon(to_node(*build(n, NULL)));
}
static void compare(Ctx& c, Replica& r, const char* when) {
  std::string want = gen::canon(to_node(*r.root)), got = canon_xml(c, kmldom::SerializeRaw(r.file->get_root()), "the document");
  c.state(hash_str(want));
  if (want != got) c.fail("state", "%s the document is not what the updates describe: %s", when, gen::diff(want, got).c_str());
}
// A change meant for another kind of object has no stated meaning; a server
// that knows the document sends none.
static bool well_typed(const MP& update, const StrMap* ids, const Replica& r) {
  for (size_t i = 0; i < update->kids.size(); ++i) if (update->kids[i]->kind == "Change") for (size_t j = 0; j < update->kids[i]->kids.size(); ++j) {
    const MP& o = update->kids[i]->kids[j]; std::string id;
    if (!target(*o, ids, &id)) continue;
    Index::const_iterator f = r.index.find(id);
    if (f != r.index.end() && f->second->kind != o->kind) return false;
  }
  return true;
}
struct Msg { unsigned to, update; };

static void run(Ctx& c) {
  gen::Opts o; o.budget = 8 + c.choose(30); o.hard_text = c.chance(1, 4); o.feature_only = true; o.animated = false;
  Node doc = gen::document(c, o);
  if (c.chance(1, 6)) {   // the same id given twice
    MP m = build(doc, NULL); std::string from = "\"i" + std::to_string(1 + c.choose(6)) + "\"", to = "\"i0\""; (void)m;
    std::string x = gen::write_plain(doc); size_t p = x.find(" id=" + from);
    if (p != std::string::npos) { x.replace(p + 4, from.size(), to); Node n; std::string why; if (gen::parse(x, &n, &why)) { doc = n; c.probe("duplicate_id"); } }
  }
  std::string xml = gen::write_plain(doc);
  c.note("document %s", xml.c_str());
  unsigned nr = 1 + c.choose(2);
  std::vector<Replica> rep(nr);
  Ids ids;
  for (unsigned i = 0; i < nr; ++i) {
    Replica& r = rep[i]; std::string err;
    r.file = KmlFile::CreateFromParse(xml, &err);
    if (!r.file) c.fail("parse", "the generated document was refused: %s", err.c_str());
    Node n; std::string why;
    std::string start; r.file->SerializeToString(&start);
    if (!gen::parse(start, &n, &why)) c.fail("ill-formed", "the document is not well-formed: %s", why.c_str());
    r.root = build(n, NULL);
    r.reindex();
    if (!i) all_ids(r.index, &ids);
  }
  // The server's updates.
  unsigned nu = 1 + c.choose(5);
  std::vector<Node> updates; std::vector<std::string> bytes; std::vector<MP> models; std::vector<KmlFilePtr> shared; std::vector<std::string> before;
  for (unsigned i = 0; i < nu; ++i) {
    Node u = make_update(c, &ids, i);
    updates.push_back(u);
    bytes.push_back(gen::write_plain(wrap(u)));
    c.note("update %u %s", i, bytes.back().c_str());
    models.push_back(build(u, NULL));
    std::string err; KmlFilePtr f = KmlFile::CreateFromParse(bytes.back(), &err);
    if (!update_of(f)) c.fail("parse", "a received update was refused: %s", err.c_str());
    shared.push_back(f);
    before.push_back(kmldom::SerializeRaw(f->get_root()));
  }
  StrMap map; bool mapped = c.chance(1, 3);
  if (mapped) for (size_t i = 0; i < ids.size(); ++i) if (c.choose(4)) map[ids[i].first] = c.chance(1, 4) ? c.pick(ids).first : ids[i].first;
  // The network: messages sent in order, delivered in any order, lost,
  // duplicated or damaged.
  std::vector<Msg> flight;
  unsigned weather = c.choose(4);
  for (unsigned i = 0; i < nu; ++i) for (unsigned t = 0; t < nr; ++t) {
    Msg m = {t, i};
    if (weather && c.chance(1, 8)) { c.fault("message_lost"); continue; }
    flight.push_back(m);
    if (weather && c.chance(1, 5)) { flight.push_back(m); c.fault("message_duplicated"); }
  }
  while (!flight.empty()) {
    c.step();
    unsigned k = 0;
    if (weather > 1 && flight.size() > 1 && c.choose(2)) { k = c.choose((uint32_t)flight.size()); if (k) c.fault("message_reordered"); }
    Msg m = flight[k]; flight.erase(flight.begin() + k);
    Replica& r = rep[m.to];
    if (c.chance(1, 8)) {   // the process restarts: only the saved document survives
      c.fault("restart"); std::string s, err;
      if (!r.file->SerializeToString(&s)) c.fail("save", "the document cannot be saved");
      r.file = KmlFile::CreateFromParse(s, &err);
      if (!r.file) c.fail("reload", "the saved document cannot be loaded: %s", err.c_str());
      r.reindex();
      compare(c, r, "after a restart");
      c.log("replica %u restarts", m.to);
    }
    if (weather > 2 && c.chance(1, 8)) {
      std::string b = bytes[m.update]; b.resize(c.choose((uint32_t)b.size())); c.fault("message_truncated");
      std::string err; KmlFilePtr f = KmlFile::CreateFromParse(b, &err);
      if (update_of(f)) c.fail("truncated", "a truncated update was accepted");
      compare(c, r, "after a refused update");
      continue;
    }
    if (!well_typed(models[m.update], mapped ? &map : NULL, r)) continue;
    KmlFilePtr f = shared[m.update]; bool fresh = c.choose(2); 
    if (fresh) { std::string err; f = KmlFile::CreateFromParse(bytes[m.update], &err); }
    kmldom::UpdatePtr u = update_of(f);
    kmlbase::StringMap sm(map.begin(), map.end());
    if (mapped) kmlengine::ProcessUpdateWithIdMap(u, &sm, r.file);
    else if (c.chance(1, 5)) kmlengine::ProcessUpdateWithIdMap(u, NULL, r.file);
    else kmlengine::ProcessUpdate(u, r.file);
    apply(models[m.update], mapped ? &map : NULL, &r);
    if (sm != kmlbase::StringMap(map.begin(), map.end())) c.fail("map", "the id map was altered");
    std::string after = kmldom::SerializeRaw(f->get_root());
    if (after != before[m.update]) c.fail("update-altered", "applying update %u altered it: %s", m.update, gen::diff(before[m.update], after).c_str());
    c.log("deliver update %u to replica %u (%s%s)", m.update, m.to, fresh ? "parsed anew" : "shared", mapped ? ", mapped" : "");
    compare(c, r, format("after update %u", m.update).c_str());
    for (unsigned i = 0; i < nr; ++i) if (i != m.to) compare(c, rep[i], "another replica: ");
    ++c.nontrivial;
  }
}
SIM_PROP(C19, run);
