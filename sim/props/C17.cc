#include <climits>
// C17: regionating writes every feature once into a well-linked file tree.
#include <math.h>
#include <stdlib.h>
#include <algorithm>
#include <map>
#include <set>
#include "../core.h"
#include "../gen.h"
#include "../simfs.h"
#include "kml/base/file.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
#include "kml/regionator/feature_list_region_handler.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/regionator.h"
using namespace sim;
using namespace kmldom;
using gen::Node;

namespace {
struct Spec { std::string name, canon; double lat, lon; int score; bool located; int shape; bool alike = false; };
typedef std::vector<Spec> Specs;
struct Box { double n, s, e, w; bool has(double la, double lo) const { const double t = 1e-9; return la <= n + t && la >= s - t && lo <= e + t && lo >= w - t; } };
struct StopIt {};

// The monitor of one regionation: its answers are the seeded decision.
struct Monitor {
  Ctx* c; long stop_at = -1; bool throws = false, stopped = false, late = false; unsigned calls = 0; unsigned last = 0, total = 0; bool odd = false;
  bool RegionatorProgress(unsigned count, unsigned tot) {
    InHarness ih;
    c->step();
    if (stopped) late = true;
    if (count < last || count > tot || (calls && tot != total) || count == 0) odd = true;
    last = count; total = tot; ++calls;
    if ((long)calls - 1 == stop_at) { stopped = true; c->fault(throws ? "monitor exception" : "monitor stops"); c->log("stop at region %u", calls); if (throws) throw StopIt(); return false; }
    return true;
  }
};

double coord(Ctx& c, bool lat, unsigned style) {
  double span = lat ? 90 : 180;
  switch (style) {
    case 0: return ((int)c.choose(2001) - 1000) / 1000.0 * span;
    case 1: return ldexp((double)((int)c.choose(129) - 64), -(int)c.choose(12)) * (lat ? 1.25 : 2.8125);   // on the borders of the quadrants
    case 2: return 37.4 + c.choose(100) * 1e-7;                                                              // crowded
    case 3: return 12.5;                                                                                      // all in one place
    default: return ((int)c.choose(2000001) - 1000000) / 1000000.0 * span * 0.999;
  }
}
FeaturePtr make(const Spec& s) {
  PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark();
  p->set_name(s.alike ? "alike" : s.name);
  p->set_description(s.name);
  if (s.located) {
    if (s.shape == 0) p->set_geometry(kmlconvenience::CreatePointLatLon(s.lat, s.lon));
    else if (s.shape == 1) {   // a line whose middle is there
      LineStringPtr l = KmlFactory::GetFactory()->CreateLineString(); CoordinatesPtr k = KmlFactory::GetFactory()->CreateCoordinates();
      k->add_latlng(s.lat - 0.25, s.lon + 0.5); k->add_latlng(s.lat + 0.25, s.lon - 0.5); l->set_coordinates(k); p->set_geometry(l);
    } else {
      ModelPtr m = KmlFactory::GetFactory()->CreateModel(); LocationPtr l = KmlFactory::GetFactory()->CreateLocation();
      l->set_latitude(s.lat); l->set_longitude(s.lon); m->set_location(l); p->set_geometry(m);
    }
  } else if (s.shape == 1) p->set_geometry(KmlFactory::GetFactory()->CreatePoint());
  if (s.score || s.shape == 0) kmlconvenience::SetFeatureScore(std::to_string(s.score), p);
  return p;
}
std::string canon_of(Ctx& c, const std::string& xml, const char* what) {
  Node n; std::string why;
  if (!gen::parse(xml, &n, &why)) c.fail("malformed", "%s is not well-formed XML: %s", what, why.c_str());
  return gen::canon(n);
}
struct File { Node root; Box box; std::string lod; std::vector<std::string> links; std::vector<Box> link_boxes; std::vector<std::string> link_lods; std::vector<std::string> names; std::string up, rel; bool has_view = false; double vlat = 0, vlon = 0; };
std::string lod(const Node* region) { const Node* l = region ? region->kid("Lod") : NULL; std::string s; if (l) for (size_t i = 0; i < l->kids.size(); ++i) s += l->kids[i].name + "=" + l->kids[i].text + " "; return s; }
double num(Ctx& c, const Node* n, const std::string& f) { if (!n) c.fail("no-region", "%s has an incomplete region", f.c_str()); return strtod(n->text.c_str(), NULL); }
Box box(Ctx& c, const Node* region, const std::string& f) {
  const Node* b = region ? region->kid("LatLonAltBox") : NULL;
  if (!b) c.fail("no-region", "%s has no region", f.c_str());
  Box r = {num(c, b->kid("north"), f), num(c, b->kid("south"), f), num(c, b->kid("east"), f), num(c, b->kid("west"), f)};
  return r;
}
File read(Ctx& c, const std::string& path, const std::string& text, const std::map<std::string, const Spec*>& by_name) {
  File f; std::string why;
  if (!gen::parse(text, &f.root, &why)) c.fail("malformed", "%s is not well-formed XML: %s", path.c_str(), why.c_str());
  const Node* d = f.root.kid("Document");
  if (f.root.name != "kml" || !d) c.fail("shape", "%s holds no document", path.c_str());
  f.box = box(c, d->kid("Region"), path); f.lod = lod(d->kid("Region"));
  if (const Node* v = d->kid("LookAt")) { f.has_view = true; f.vlat = num(c, v->kid("latitude"), path); f.vlon = num(c, v->kid("longitude"), path); }
  for (size_t i = 0; i < d->kids.size(); ++i) if (d->kids[i].name == "atom:link" || d->kids[i].name == "link") for (size_t j = 0; j < d->kids[i].attrs.size(); ++j) { if (d->kids[i].attrs[j].first == "href") f.up = d->kids[i].attrs[j].second; if (d->kids[i].attrs[j].first == "rel") f.rel = d->kids[i].attrs[j].second; }
  for (size_t i = 0; i < d->kids.size(); ++i) {
    const Node& k = d->kids[i];
    if (k.name == "NetworkLink") {
      const Node* l = k.kid("Link"); const Node* h = l ? l->kid("href") : NULL;
      if (!h) c.fail("shape", "%s holds a link without a target", path.c_str());
      f.links.push_back(h->text); f.link_boxes.push_back(box(c, k.kid("Region"), path)); f.link_lods.push_back(lod(k.kid("Region")));
      const Node* vr = l->kid("viewRefreshMode");
      if (!vr || vr->text != "onRegion") c.fail("no-refresh", "the link of %s to %s is not followed when its region comes into view", path.c_str(), h->text.c_str());
    } else if (k.name == "Folder") {
      for (size_t j = 0; j < k.kids.size(); ++j) {
        const Node* nm = k.kids[j].kid("description"); std::string name = nm ? nm->text : "";
        std::map<std::string, const Spec*>::const_iterator s = by_name.find(name);
        if (s == by_name.end()) c.fail("foreign", "%s holds a feature %s that was never given", path.c_str(), quote(name).c_str());
        std::string got = gen::canon(k.kids[j]);
        if (got != s->second->canon) c.fail("altered", "feature %s was altered: %s", name.c_str(), gen::diff(s->second->canon, got).c_str());
        f.names.push_back(name);
      }
    } else if (k.name == "Placemark") c.fail("shape", "%s holds a feature outside its folder", path.c_str());
  }
  return f;
}

struct Tree { std::map<std::string, File> files; unsigned depth = 0; };
// Checks the files of one directory. `complete`: the regionation was not stopped.
Tree check(Ctx& c, const std::string& dir, const std::map<std::string, std::string>& disk, const Specs& specs, unsigned max_per, bool complete, const std::string& root_name, int min_lod, const Box* natural) {
  std::map<std::string, const Spec*> by_name;
  for (size_t i = 0; i < specs.size(); ++i) by_name[specs[i].name] = &specs[i];
  Tree t; std::set<std::string> present;
  for (std::map<std::string, std::string>::const_iterator i = disk.begin(); i != disk.end(); ++i)
    if (i->first.compare(0, dir.size(), dir) == 0) { std::string f = i->first.substr(dir.size()); t.files[f] = read(c, f, i->second, by_name); }
  std::map<std::string, int> linked; std::set<std::string> seen;
  for (std::map<std::string, File>::iterator i = t.files.begin(); i != t.files.end(); ++i) {
    File& f = i->second;
    if (f.names.empty()) c.fail("empty", "%s holds no feature", i->first.c_str());
    if (max_per && f.names.size() > max_per) c.fail("too-many", "%s holds %zu features, the limit is %u", i->first.c_str(), f.names.size(), max_per);
    for (size_t k = 0; k < f.names.size(); ++k) {
      if (!seen.insert(f.names[k]).second) c.fail("twice", "feature %s appears twice", f.names[k].c_str());
      const Spec& s = *by_name[f.names[k]];
      if (!f.box.has(s.lat, s.lon)) c.fail("outside", "feature %s at %.15g,%.15g is outside the region of %s", s.name.c_str(), s.lat, s.lon, i->first.c_str());
    }
    if (f.lod.find(format("minLodPixels=%d ", min_lod)) == std::string::npos || f.lod.find("maxLodPixels=-1 ") == std::string::npos) c.fail("lod", "the region of %s has the level of detail %s", i->first.c_str(), f.lod.c_str());
    if (f.up != root_name || f.rel != (i->first == root_name ? "self" : "up")) c.fail("up", "%s refers to the root as %s %s", i->first.c_str(), f.rel.c_str(), quote(f.up).c_str());
    for (size_t k = 0; k < f.links.size(); ++k) {
      // Each child has a quarter of its own.
      const Box& q = f.link_boxes[k]; const double mla = (f.box.n + f.box.s) / 2, mlo = (f.box.e + f.box.w) / 2, tol = 1e-9;
      bool north = fabs(q.n - f.box.n) < tol && fabs(q.s - mla) < tol, south = fabs(q.s - f.box.s) < tol && fabs(q.n - mla) < tol;
      bool east = fabs(q.e - f.box.e) < tol && fabs(q.w - mlo) < tol, west = fabs(q.w - f.box.w) < tol && fabs(q.e - mlo) < tol;
      if (!((north || south) && (east || west))) c.fail("quarter", "the region of %s is not a quarter of that of %s", f.links[k].c_str(), i->first.c_str());
      if (f.link_lods[k] != f.lod) c.fail("lod", "%s links to %s at the level of detail %s, not %s", i->first.c_str(), f.links[k].c_str(), f.link_lods[k].c_str(), f.lod.c_str());
      for (size_t z = 0; z < k; ++z) { const Box& o = f.link_boxes[z]; if (f.box.n - f.box.s > 1e-6 && f.box.e - f.box.w > 1e-6 && o.n == q.n && o.s == q.s && o.e == q.e && o.w == q.w) c.fail("quarter", "%s links twice to the same region", i->first.c_str()); }
      if (!t.files.count(f.links[k])) c.fail("dangling", "%s links to %s, which was not written", i->first.c_str(), f.links[k].c_str());
      if (linked[f.links[k]]++) c.fail("linked-twice", "%s is linked to twice", f.links[k].c_str());
      const Box &b = f.link_boxes[k], &d = t.files[f.links[k]].box;
      if (b.n != d.n || b.s != d.s || b.e != d.e || b.w != d.w) c.fail("region", "%s links to %s with another region than that file has", i->first.c_str(), f.links[k].c_str());
      if (!(f.box.has(d.n, d.e) && f.box.has(d.s, d.w))) c.fail("region", "the region of %s is not within that of %s", f.links[k].c_str(), i->first.c_str());
      if (max_per == 0 || f.names.size() < max_per) c.fail("early", "%s links further although it holds only %zu of %u features", i->first.c_str(), f.names.size(), max_per);
      // Higher scores nearer the root.
      int low = by_name[f.names[0]]->score, high = INT_MIN;
      for (size_t q = 0; q < f.names.size(); ++q) low = std::min(low, by_name[f.names[q]]->score);
      File& g = t.files[f.links[k]];
      for (size_t q = 0; q < g.names.size(); ++q) high = std::max(high, by_name[g.names[q]]->score);
      if (high > low) c.fail("score", "%s holds a feature of score %d below one of score %d in %s", f.links[k].c_str(), high, low, i->first.c_str());
    }
  }
  size_t located = 0; for (size_t i = 0; i < specs.size(); ++i) located += specs[i].located;
  if (complete) {
    if (seen.size() != located) for (size_t i = 0; i < specs.size(); ++i) if (specs[i].located && !seen.count(specs[i].name)) c.fail("lost", "feature %s at %.17g,%.17g appears in no file (%zu of %zu do)", specs[i].name.c_str(), specs[i].lat, specs[i].lon, seen.size(), located);
    if (located && !t.files.count(root_name)) c.fail("no-root", "there is no %s", root_name.c_str());
    if (located && natural) {
      const File& r = t.files[root_name];
      if (!r.has_view) c.fail("view", "the root file has no view");
      if (fabs(r.vlat - (natural->n + natural->s) / 2) > 1e-6 || fabs(r.vlon - (natural->e + natural->w) / 2) > 1e-6) c.fail("view", "the root file looks at %.9g,%.9g, which is not the middle of the data", r.vlat, r.vlon);
    }
    for (std::map<std::string, File>::iterator i = t.files.begin(); i != t.files.end(); ++i) if (i->first != root_name && !linked.count(i->first)) c.fail("unreachable", "%s is linked from nowhere", i->first.c_str());
  }
  return t;
}

// A user's own handler over the same features, with a root file name of its own.
class Own : public kmlregionator::FeatureListRegionHandler {
 public:
  Own(Ctx& c, kmlconvenience::FeatureList* l) : kmlregionator::FeatureListRegionHandler(l), c_(c) {}
  std::vector<std::string> saved; std::set<std::string> asked, with_data; long fail_at = -1;
  bool HasData(const RegionPtr& r) override {
    if (!asked.insert(r->get_id()).second) c_.fail("asked-twice", "region %s was visited twice", r->get_id().c_str());
    bool b = kmlregionator::FeatureListRegionHandler::HasData(r);
    if (b) with_data.insert(r->get_id());
    return b;
  }
  FeaturePtr GetFeature(const RegionPtr& r) override {
    if (!with_data.count(r->get_id())) c_.fail("order", "the feature of region %s was requested although it has no data", r->get_id().c_str());
    return kmlregionator::FeatureListRegionHandler::GetFeature(r);
  }
  void SaveKml(const KmlPtr& k, const std::string& f) override { saved.push_back(f); kmlregionator::FeatureListRegionHandler::SaveKml(k, f); }
 private:
  Ctx& c_;
};
// A user's handler whose answers are decided by the simulation: which regions hold data, which have no feature after all.
class Scripted : public kmlregionator::RegionHandler {
 public:
  Scripted(Ctx& c, unsigned depth) : c_(c), depth_(depth) {}
  struct Seen { bool has = false, feature = false, saved = false; Box box; std::string file; };
  std::map<std::string, Seen> seen; std::vector<std::string> calls; std::map<std::string, std::string> files; std::vector<std::string> order;
  long throw_at = -1; long n = 0;
  void tick() { InHarness ih; c_.step(); if (n++ == throw_at) { c_.fault("handler exception"); throw StopIt(); } }
  bool HasData(const RegionPtr& r) override {
    tick(); InHarness ih;
    std::string id = r->get_id();
    if (seen.count(id)) c_.fail("asked-twice", "region %s was visited twice", id.c_str());
    Seen s; LatLonAltBoxPtr b = r->get_latlonaltbox();
    Box x = {b->get_north(), b->get_south(), b->get_east(), b->get_west()}; s.box = x;
    s.has = seen.empty() ? !c_.chance(1, 20) : id.size() < 2 + depth_ && c_.choose(3) != 0;
    s.feature = !c_.chance(1, 10);
    seen[id] = s; calls.push_back("has " + id);
    return s.has;
  }
  FeaturePtr GetFeature(const RegionPtr& r) override {
    tick(); InHarness ih;
    std::string id = r->get_id(); calls.push_back("get " + id);
    if (!seen.count(id) || !seen[id].has) c_.fail("order", "the feature of region %s was requested although it has no data", id.c_str());
    if (!seen[id].feature) return NULL;
    PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark(); p->set_name("data " + id); return p;
  }
  void SaveKml(const KmlPtr& k, const std::string& f) override {
    tick(); InHarness ih;
    if (files.count(f)) c_.fail("saved-twice", "%s was saved twice", f.c_str());
    files[f] = SerializeRaw(k); order.push_back(f); calls.push_back("save " + f);
  }
 private:
  Ctx& c_; unsigned depth_;
};
void scripted(Ctx& c) {
  double n = -60 + c.choose(150), s = n - 1 - c.choose(60), e = -100 + c.choose(280), w = e - 1 - c.choose(70);
  Scripted h(c, 1 + c.choose(4));
  if (c.chance(1, 5)) h.throw_at = (long)c.choose(12);
  RegionPtr r = kmlconvenience::CreateRegion2d(n, s, e, w, 64, 1024);
  if (c.choose(2)) { r->get_latlonaltbox()->set_minaltitude(10); r->get_latlonaltbox()->set_maxaltitude(500.5); r->get_latlonaltbox()->set_altitudemode(ALTITUDEMODE_ABSOLUTE); }
  if (c.choose(3) == 0) r->get_lod()->set_minfadeextent(7);
  if (c.choose(2)) r->set_id("given");
  std::string before = SerializeRaw(r), root = "1.kml", dir = c.choose(3) ? "out" : "";
  bool threw = false, ok = false;
  { kmlregionator::Regionator reg(h, r);
    if (c.choose(3) == 0) { root = "top.kml"; reg.SetRootFilename("top.kml"); }
    try { ok = reg.Regionate(dir.empty() ? NULL : dir.c_str()); } catch (StopIt&) { threw = true; } }
  if (SerializeRaw(r) != before) c.fail("region", "the caller's region was changed");
  c.log("scripted handler: %zu regions, %zu files%s", h.seen.size(), h.files.size(), threw ? ", exception" : "");
  if (threw) { c.probe("a handler exception ended the walk"); return; }
  if (!ok) c.fail("refused", "a healthy regionation failed");
  std::string prefix = dir.empty() ? "" : dir + "/";
  // What each file must hold follows from the answers given.
  std::map<std::string, std::string> file_of; std::set<std::string> known;
  for (size_t i = 0; i < h.order.size(); ++i) {
    const std::string& f = h.order[i];
    if (f.compare(0, prefix.size(), prefix)) c.fail("elsewhere", "%s is not in the output directory", f.c_str());
    Node x; std::string why;
    if (!gen::parse(h.files[f], &x, &why)) c.fail("malformed", "%s is not well-formed XML: %s", f.c_str(), why.c_str());
    const Node* d = x.kid("Document"); const Node* nm = d ? d->kid("name") : NULL;
    if (!nm || !h.seen.count(nm->text)) c.fail("shape", "%s is not the file of a region", f.c_str());
    std::string id = nm->text; Scripted::Seen& me = h.seen[id];
    if (!me.has || !me.feature) c.fail("empty", "%s was written for region %s, which has no data", f.c_str(), id.c_str());
    if (file_of.count(id)) c.fail("saved-twice", "region %s was saved twice", id.c_str());
    file_of[id] = f.substr(prefix.size());
    std::string want, got;
    for (char q = '0'; q < '4'; ++q) { std::string kid = id + q; if (!h.seen.count(kid)) c.fail("missed", "the handler was never asked about region %s", kid.c_str()); if (h.seen[kid].has && h.seen[kid].feature) { if (!file_of.count(kid)) c.fail("crash", "%s was finished before the file of region %s, to which it links", f.c_str(), kid.c_str()); want += "link " + file_of[kid] + " " + kid + "; "; } }
    want += "data " + id + "; ";
    std::string kids_region;
    for (size_t k = 0; k < d->kids.size(); ++k) {
      const Node& y = d->kids[k];
      if (y.name == "NetworkLink") { const Node* l = y.kid("Link"); const Node* hr = l ? l->kid("href") : NULL; const Node* rg = y.kid("Region"); std::string rid; if (rg) for (size_t z = 0; z < rg->attrs.size(); ++z) if (rg->attrs[z].first == "id") rid = rg->attrs[z].second; got += "link " + (hr ? hr->text : "") + " " + rid + "; "; if (!rg || lod(rg) != lod(d->kid("Region"))) c.fail("lod", "%s links to another level of detail", f.c_str());
        const Node* ab = rg->kid("LatLonAltBox"); const Node* pb = d->kid("Region") ? d->kid("Region")->kid("LatLonAltBox") : NULL;
        if (!ab || !pb) c.fail("no-region", "%s has an incomplete region", f.c_str());
        static const char* const keep[] = {"minAltitude", "maxAltitude", "altitudeMode"};
        for (int z = 0; z < 3; ++z) if (!ab->kid(keep[z]) != !pb->kid(keep[z]) || (ab->kid(keep[z]) && ab->kid(keep[z])->text != pb->kid(keep[z])->text)) c.fail("altitude", "%s links to a region with another %s", f.c_str(), keep[z]); }
      if (y.name == "Placemark") got += (y.kid("name") ? y.kid("name")->text : "") + "; ";
    }
    if (got != want) c.fail("content", "the file of region %s holds %s instead of %s", id.c_str(), got.c_str(), want.c_str());
  }
  for (std::map<std::string, Scripted::Seen>::iterator i = h.seen.begin(); i != h.seen.end(); ++i) {
    if (i->second.has && i->second.feature && !file_of.count(i->first)) c.fail("lost", "region %s has data and no file", i->first.c_str());
    if (i->first == "q0") { const Box& b = i->second.box; if (b.n != n || b.s != s || b.e != e || b.w != w) c.fail("region", "the walk starts at another region"); continue; }
    std::map<std::string, Scripted::Seen>::iterator p = h.seen.find(i->first.substr(0, i->first.size() - 1));
    if (p == h.seen.end() || !p->second.has) c.fail("pruned", "the handler was asked about region %s although its parent has no data", i->first.c_str());
    const Box &b = i->second.box, &P = p->second.box; int q = *i->first.rbegin() - '0'; double ml = (P.n + P.s) / 2, mo = (P.e + P.w) / 2;
    Box x = {q < 2 ? P.n : ml, q < 2 ? ml : P.s, q & 1 ? P.e : mo, q & 1 ? mo : P.w};
    if (fabs(b.n - x.n) + fabs(b.s - x.s) + fabs(b.e - x.e) + fabs(b.w - x.w) > 1e-9) c.fail("quarter", "region %s is not that quarter of its parent", i->first.c_str());
  }
  if (file_of.count("q0") && file_of["q0"] != root) c.fail("no-root", "the root file is named %s", file_of["q0"].c_str());
  if (h.files.size()) ++c.nontrivial;
  c.state(hash_str(format("scripted %zu %zu", h.seen.size(), h.files.size())));
}
}  // namespace

static void run(Ctx& c) {
  simfs::activate(true);
  if (c.chance(1, 6)) { scripted(c); return; }
  unsigned n = c.chance(1, 12) ? 60 + c.choose(60) : c.choose(24);
  unsigned style = c.choose(5), max_per = c.choose(8) == 0 ? 0 : 1 + c.choose(6);
  bool far = c.chance(1, 25);
  int scores = 1 + (int)c.choose(6);
  bool alike = c.chance(1, 3);   // several features of one name
  Specs specs;
  for (unsigned i = 0; i < n; ++i) {
    Spec s; s.name = "f" + std::to_string(i);
    s.located = !c.chance(1, 15); s.shape = c.choose(5) ? 0 : 1 + (int)c.choose(2);
    s.lat = coord(c, true, c.choose(4) ? style : 0); s.lon = coord(c, false, c.choose(4) ? style : 0);
    if (far && c.choose(4) == 0) { s.lat = 190 + c.choose(50); far = false; s.shape = 0; s.located = true; s.score = 0; s.name += "far"; }
    s.score = (s.shape == 0 || c.choose(2)) ? (int)c.choose(scores) - scores / 3 : 0;
    if (s.score && c.chance(1, 12)) { static const int kBig[] = {32767, 32768, 40000, 65536, 70000, 100000000, 2147483647, -32769, -65536, -2147483647}; s.score = kBig[c.choose(10)]; }
    s.alike = alike && c.choose(3) != 0;
    if (i && c.chance(1, 12) && specs[i - 1].name.find("far") == std::string::npos && s.name.find("far") == std::string::npos) { s.lat = specs[i - 1].lat; s.lon = specs[i - 1].lon; if (c.choose(2)) s.score = specs[i - 1].score; }   // at the same place
    if (c.chance(1, 20) && s.name.find("far") == std::string::npos) { s.lat = 0; if (c.choose(4)) s.lon = 0; }
    if (s.shape != 0 && s.located && (fabs(s.lat) > 85 || fabs(s.lon) > 170)) s.shape = 0;
    specs.push_back(s);
  }
  bool out_of_world = false;
  for (size_t i = 0; i < specs.size(); ++i) if (specs[i].located && specs[i].lat > 180) out_of_world = true;
  std::string source;   // the features as part of a parsed document
  bool from_document = c.chance(1, 3);
  if (from_document) source = "<Folder>";
  for (size_t i = 0; i < specs.size(); ++i) { std::string x = SerializeRaw(make(specs[i])); specs[i].canon = canon_of(c, x, "a feature"); source += x; }
  source += "</Folder>";
  ElementPtr parsed = from_document ? Parse(source, NULL) : ElementPtr();
  if (from_document && !parsed) c.fail("parse", "the features do not parse");
  std::vector<FeaturePtr> features;
  for (size_t i = 0; i < specs.size(); ++i) features.push_back(from_document ? AsFolder(parsed)->get_feature_array_at(i) : make(specs[i]));
  bool own = c.choose(5) == 0;
  if (own) max_per = 10;   // the handler's own limit
  c.log("%u features, %u per file, placement %u%s%s", n, max_per, style, from_document ? ", part of a document" : "", own ? ", own handler" : "");
  std::map<std::string, std::string> reference; bool have_reference = false;
  unsigned attempts = 1 + c.choose(3);
  for (unsigned a = 0; a < attempts; ++a) {
    std::string dirname = "/r" + std::to_string(a), root_name = "1.kml";
    simfs::mkdir(dirname);
    kmlconvenience::FeatureList list;
    for (size_t i = 0; i < features.size(); ++i) list.PushBack(features[i]);
    Monitor m; m.c = &c;
    unsigned mode = c.choose(4);   // 0 healthy, 1 stop, 2 faults, 3 healthy with monitor
    if (own && mode == 1) mode = 0;
    if (mode == 1) { m.stop_at = (long)c.choose(c.choose(2) ? 3 : 14); m.throws = c.chance(1, 4); }
    simfs::no_faults();
    if (mode == 2) {
      simfs::Faults& f = simfs::faults();
      switch (c.choose(4)) { case 0: f.open_fail = 50; break; case 1: f.write_err = 60; f.write_short = 60; break; case 2: f.capacity = (int64_t)c.choose(6000); break; default: f.close_err = 50; f.write_short = 80; f.eintr = 40; }
      if (c.choose(2)) f.max_faults = 1;
    } else if (c.choose(3) == 0) { simfs::faults().write_short = 128; }
    simfs::mark(); simfs::journal_on(true);
    bool ok = false, threw = false;
    bool aligned = !own; kmlengine::Bbox whole; list.ComputeBoundingBox(&whole);
    if (own) {
      list.Sort();
      kmlengine::Bbox bb; list.ComputeBoundingBox(&bb);
      Own h(c, &list);
      RegionPtr r = kmlconvenience::CreateRegion2d(bb.get_north(), bb.get_south(), bb.get_east(), bb.get_west(), 128, -1);
      if (c.choose(2)) { aligned = true; ok = kmlregionator::Regionator::RegionateAligned(h, r, dirname.c_str()); }
      else { kmlregionator::Regionator reg(h, r); if (c.choose(2)) { root_name = "root.kml"; reg.SetRootFilename("root.kml"); } ok = reg.Regionate(dirname.c_str()); }
      std::set<std::string> once(h.saved.begin(), h.saved.end());
      if (once.size() != h.saved.size()) c.fail("saved-twice", "a file was saved twice");
      if (out_of_world && !ok) {}
    } else {
      try { ok = kmlregionator::FeatureListRegionator<Monitor>::Regionate(&list, max_per, mode == 0 ? NULL : &m, dirname.c_str()); }
      catch (StopIt&) { threw = true; }
    }
    simfs::Counters k = simfs::counters();
    std::vector<simfs::Op> journal = simfs::journal();
    simfs::journal_on(false);
    simfs::no_faults();
    c.log("attempt %u mode %u -> %s, %u hard faults", a, mode, threw ? "exception" : ok ? "true" : "false", k.hard);
    if (simfs::open_handles()) c.fail("descriptor", "files were left open");
    std::map<std::string, std::string> disk = simfs::snapshot(), mine;
    for (std::map<std::string, std::string>::iterator i = disk.begin(); i != disk.end(); ++i) if (i->first.compare(0, dirname.size() + 1, dirname + "/") == 0) mine[i->first.substr(dirname.size() + 1)] = i->second; else if (i->first[1] != 'r') c.fail("elsewhere", "%s was written outside the output directory", i->first.c_str());
    if (list.Size() != features.size()) c.fail("list", "the caller's list now has %zu features instead of %zu", list.Size(), features.size());
    if (m.odd) c.fail("progress", "progress reports do not make sense (%u of %u)", m.last, m.total);
    if (m.late) c.fail("not-stopped", "the monitor asked to stop and further regions were processed");
    if (out_of_world) {
      if (!own && ok) c.fail("out-of-world", "a feature lies outside the world and the call succeeded");
      if (!own && !mine.empty()) c.fail("out-of-world", "the call failed and wrote files");
      c.probe("features outside the world");
      return;
    }
    if (mode == 2 && k.hard + k.soft) {
      // Compare with what a healthy disk would hold.
      if (!have_reference) {
        kmlconvenience::FeatureList l2; ElementPtr again = from_document ? Parse(source, NULL) : ElementPtr();
        for (size_t i = 0; i < specs.size(); ++i) l2.PushBack(from_document ? AsFolder(again)->get_feature_array_at(i) : make(specs[i]));
        simfs::mkdir("/ref");
        if (own) { continue; }
        kmlregionator::FeatureListRegionator<>::Regionate(&l2, max_per, NULL, "/ref");
        disk = simfs::snapshot();
        for (std::map<std::string, std::string>::iterator i = disk.begin(); i != disk.end(); ++i) if (i->first.compare(0, 5, "/ref/") == 0) reference[i->first.substr(5)] = i->second;
        have_reference = true;
      }
      if (own) continue;
      unsigned bad = 0;
      for (std::map<std::string, std::string>::iterator i = reference.begin(); i != reference.end(); ++i) if (!mine.count(i->first) || mine[i->first] != i->second) ++bad;
      for (std::map<std::string, std::string>::iterator i = mine.begin(); i != mine.end(); ++i) if (!reference.count(i->first)) c.fail("extra", "%s was written only because of a fault", i->first.c_str());
      if (bad && ok) c.fail("unreported", "%u of %zu files were not written in full and the call succeeded", bad, reference.size());
      if (!bad && !ok && !k.hard && !k.soft) c.fail("refused", "every file was written and the call failed");
      if (bad > k.hard + k.soft) c.fail("spread", "%u faults spoilt %u files", k.hard + k.soft, bad);
      if (bad) c.probe("a file was not written in full");
      ++c.nontrivial;
      continue;
    }
    bool stopped = m.stopped;
    if (!stopped && !ok) c.fail("refused", "a healthy regionation failed");
    Box natural = {whole.get_north(), whole.get_south(), whole.get_east(), whole.get_west()};
    Tree t = check(c, dirname + "/", disk, specs, max_per, !stopped, root_name, own ? 128 : 256, aligned ? &natural : NULL);
    if (stopped && m.stop_at == 0 && !mine.empty()) c.fail("not-stopped", "the monitor stopped at the first region and files were written");
    // At every instant, each finished file links only to files finished before it.
    std::set<std::string> done;
    for (size_t i = 0; i < journal.size(); ++i) if (journal[i].kind == simfs::Op::kClose) {
      std::string f = journal[i].path.substr(std::min(journal[i].path.size(), dirname.size() + 1));
      if (!t.files.count(f)) continue;
      for (size_t j = 0; j < t.files[f].links.size(); ++j) if (!done.count(t.files[f].links[j])) c.fail("crash", "%s was finished before %s, to which it links", f.c_str(), t.files[f].links[j].c_str());
      done.insert(f);
    }
    if (!stopped && !own) { if (have_reference && reference != mine) c.fail("retry", "regionating the same features again gives another result"); reference = mine; have_reference = true; }
    if (!mine.empty()) ++c.nontrivial;
    c.log("%zu files", mine.size());
    c.state(hash_str(format("%zu %u %u %d %d", mine.size(), max_per, style, stopped, a)));
  }
}
SIM_PROP(C17, run);
