// C09: links are fetched from the right place, through KMZ files, despite faults.
#include <map>
#include <memory>
#include "../core.h"
#include "../simfs.h"
#include "../simnet.h"
#include "../kmlnet.h"
#include "../uriutil.h"
#include "../ziputil.h"
#include "kml/dom.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/link_util.h"
#include "kml/engine/kmz_cache.h"
#include "kml/engine/kmz_file.h"
using namespace sim;
using kmlengine::KmlFilePtr;
using namespace kmlnet;

static std::string kml_body(Ctx& c) { return "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Placemark><name>d" + std::to_string(c.choose(1000000)) + "</name></Placemark></kml>"; }
static std::string any_body(Ctx& c, const std::string& name) {
  if (name.find(".kml") != std::string::npos) return kml_body(c);
  return "img" + c.blob(1 + c.choose(40));
}
static std::string kmz_body(Ctx& c, int depth = 0) {
  static const char* kNames[] = {"doc.kml", "a.kml", "s/b.kml", "i.jpg", "s/i.jpg", "s/t/c.kml", "x.kmz", "z.kml", "A.kml", "doc.kml.txt"};
  std::vector<ziputil::Entry> es; Entries stored; std::set<std::string> seen;
  unsigned n = 1 + c.choose(5);
  for (unsigned i = 0; i < n; ++i) {
    ziputil::Entry e; e.name = kNames[c.choose(10)];
    if (!seen.insert(e.name).second) continue;
    if (e.name == "x.kmz") { if (depth) continue; e.data = kmz_body(c, depth + 1); }
    else e.data = any_body(c, e.name);
    e.deflate = c.choose(2);
    es.push_back(e); stored.push_back(std::make_pair(e.name, e.data));
  }
  if (es.empty()) { ziputil::Entry e; e.name = "doc.kml"; e.data = kml_body(c); es.push_back(e); stored.push_back(std::make_pair(e.name, e.data)); }
  std::string z = ziputil::build(es);
  g_intact[z] = stored;
  return z;
}

static kmldom::NetworkLinkPtr network_link(const std::string& href) {
  kmldom::KmlFactory* f = kmldom::KmlFactory::GetFactory();
  kmldom::NetworkLinkPtr n = f->CreateNetworkLink(); n->set_link(f->CreateLink()); n->get_link()->set_href(href);
  return n;
}
static kmldom::OverlayPtr overlay(Ctx& c, const std::string& href) {
  kmldom::KmlFactory* f = kmldom::KmlFactory::GetFactory(); kmldom::OverlayPtr o;
  switch (c.choose(3)) { case 0: o = f->CreateGroundOverlay(); break; case 1: o = f->CreateScreenOverlay(); break; default: o = f->CreatePhotoOverlay(); }
  o->set_icon(f->CreateIcon()); o->get_icon()->set_href(href);
  return o;
}

static void run(Ctx& c) {
  simfs::activate(true);
  g_intact.clear();
  SimNet net(c);
  static const size_t kMax[] = {100, 1, 2, 3, 100, 0};
  size_t max = kMax[c.choose(6)];
  bool roomy = max == 100;
  // The resources of the network.
  static const char* kPaths[] = {"http://h/d/a.kmz", "http://h/d/b.kmz", "http://h/c.kmz", "http://h/d/a.kml", "http://h/d/doc.kml", "http://h/d/i.jpg", "http://h/i.jpg",
                                 "http://h/a.kml", "http://h/d/s/b.kml", "http://h/s/b.kml", "http://h/d/s/i.jpg", "http://g:81/d/a.kmz", "http://g:81/d/z.kml",
                                 "http://h/d/get?f=a.kml", "http://h/d/get?f=a.kmz", "http://h/x.kmz", "http://h/d/x.kmz", "http://h/d/z.kml", "http://h/d/d/a.kmz"};
  std::vector<std::string> have;
  unsigned n = 1 + c.choose(14);
  for (unsigned i = 0; i < n; ++i) {
    std::string u = kPaths[c.choose(19)];
    if (net.has(u)) continue;
    have.push_back(u);
    net.put(u, ends_with(u, ".kmz") ? (c.chance(1, 12) ? kml_body(c) : kmz_body(c)) : any_body(c, u));
  }
  bool wild = c.chance(1, 20);     // a server that answers every archive request
  if (wild) { std::string z = kmz_body(c); for (int i = 0; i < 3; ++i) { net.put(std::string("http://h/d/") + (i > 1 ? "d/d/" : i ? "d/" : "") + "w.kmz", z); } }
  kmlengine::KmlCache cache(&net, max);
  kmlengine::KmzCache archives(&net, max);
  Model m(c, net, roomy);
  struct Held { KmlFilePtr f; std::string text, url; };
  std::vector<Held> held;
  std::map<std::string, KmlFilePtr> parsed;                        // roomy: url -> the one document
  std::map<std::string, std::set<const void*> > known;
  std::map<std::string, std::set<std::string> > texts;
  static const char* kTargets[] = {"a.kml", "doc.kml", "i.jpg", "s/b.kml", "../i.jpg", "../a.kml", "s/../a.kml", "./z.kml", "b.kmz", "a.kmz", "../c.kmz", "x.kmz", "x.kmz/doc.kml", "b.kmz/a.kml",
                                   "a.kmz/nowhere.kml", "d/a.kmz/nowhere.kml", "/i.jpg", "/c.kmz", "/c.kmz/s/b.kml", "", "#f", "?q", "get?f=a.kml", "get?f=a.kmz", "../../../a.kml", "s/i.jpg", "s/t/c.kml", "../s/b.kml",
                                   "http://h/d/a.kmz/nowhere.kml", "http://g:81/d/a.kmz", "//g:81/d/z.kml", "a.kml#frag", "b.kmz#frag", "a b.kml", "%zz", "[x", "w.kmz/none", "d/w.kmz/none", "A.kml"};
  unsigned ops = 1 + c.choose(c.chance(1, 5) ? 60 : 14);
  c.log("cache %zu, %zu resources, %u operations", max, have.size(), ops);
  for (unsigned k = 0; k <= ops; ++k) {
    c.step();
    bool last = k == ops;
    if (last) net.heal();
    else if (c.chance(1, 5)) { if (c.choose(2)) net.heal(); else { net.rates.fail = c.choose(3) * 50; net.rates.damage = c.choose(3) * 50; net.rates.stale = c.choose(2) * 60; } }
    if (!last && !have.empty() && c.chance(1, 12)) { const std::string& u = c.pick(have); net.put(u, ends_with(u, ".kmz") ? kmz_body(c) : any_body(c, u)); c.log("%s changes", u.c_str()); }
    std::string base, target; unsigned op = c.choose(c.chance(1, 3) ? 6 : 5); KmlFilePtr via;
    if (op == 0) { base = target = have.empty() || c.chance(1, 8) ? std::string(kPaths[c.choose(19)]) : c.pick(have); if (ends_with(target, ".kmz") && c.choose(3) == 0) { target += "/" + std::string(kTargets[c.choose(3)]); base = target; } }
    else {
      target = kTargets[c.choose(39)];
      if (!held.empty() && c.choose(4)) { Held& h = held[c.choose((uint32_t)held.size())]; base = h.url; if (c.choose(2)) via = h.f; }
      else { static const char* kBases[] = {"http://h/d/a.kmz/doc.kml", "http://h/d/a.kmz/s/b.kml", "http://h/d/m.kml", "http://h/c.kmz/doc.kml", "http://g:81/d/a.kmz/s/t/c.kml", "http://h/d/a.kmz", "not absolute"}; base = kBases[c.choose(7)]; }
    }
    net.log.clear(); m.next = 0;
    if (via && c.chance(1, 10)) {   // nothing to follow
      kmldom::NetworkLinkPtr l = network_link(target); kmldom::OverlayPtr g = overlay(c, target); std::string data = "untouched";
      if (c.choose(2)) { l->clear_link(); g->clear_icon(); } else { l->get_link()->clear_href(); g->get_icon()->clear_href(); }
      if (kmlengine::FetchLink(via, l) || kmlengine::FetchIcon(via, g, &data) || data != "untouched" || !net.log.empty()) c.fail("from-nowhere", "a link without an address was followed from %s", base.c_str());
    }
    std::string content, final_url, got_text, url0;
    bool valid = uriutil::resolve(base, target, &url0);
    if (op == 5) {   // the archives alone
      std::unique_ptr<kmlengine::KmlUri> u(kmlengine::KmlUri::CreateRelative(base, target));
      std::string data = "untouched", found = "untouched", again = "untouched";
      if (!u) { if (archives.DoFetchAndReturnUrl(NULL, &data, &found) || archives.FetchFromCache(NULL, &data)) c.fail("from-nowhere", "nothing was fetched from nowhere"); continue; }
      if (u->is_kmz()) {
        kmlengine::KmzFilePtr z = archives.LookUp(u->get_kmz_url()); std::string want = "untouched";
        std::string in = u->get_path_in_kmz();
        bool there = z && (in.empty() ? z->ReadKml(&want) : z->ReadFile(in.c_str(), &want));
        bool ok = archives.FetchFromCache(u.get(), &data);
        if (ok != there || (ok && data != want)) c.fail("archive-cache", "%s is %s; looking it up in the cache %s", u->get_url().c_str(), there ? "within a cached archive" : "in no cached archive", ok ? "yields content" : "yields nothing");
        if (!net.log.empty()) c.fail("requests", "a look-up in the cache made a request");
        u.reset(kmlengine::KmlUri::CreateRelative(base, target));
        if (c.chance(1, 6)) { bool was = z != NULL; if (archives.Delete(u->get_kmz_url()) != was || archives.LookUp(u->get_kmz_url()) || archives.FetchFromCache(u.get(), &data)) c.fail("archive-cache", "%s is found after its deletion", u->get_url().c_str()); u.reset(kmlengine::KmlUri::CreateRelative(base, target)); }
      }
      data = "untouched";
      bool ok = archives.DoFetchAndReturnUrl(u.get(), &data, &found);
      c.log("archive %s + %s -> %d %s", base.c_str(), quote(target).c_str(), ok, ok ? found.c_str() : "");
      if (!ok) { if (found != "untouched") c.fail("archive-cache", "a failed fetch of %s + %s names %s as its place", base.c_str(), target.c_str(), found.c_str()); continue; }
      u.reset(kmlengine::KmlUri::CreateRelative(found, found)); net.log.clear();
      if (!u) continue;   // the name of a damaged archive's entry
      if (max && u->is_kmz()) {
        if (!archives.FetchFromCache(u.get(), &again) || again != data) c.fail("archive-cache", "%s was just obtained from an archive, which is not cached", found.c_str());
        if (!net.log.empty()) c.fail("requests", "a look-up in the cache made a request");
      }
      continue;
    }
    if (op == 4) {
      std::string data = "untouched";
      bool ok = via ? kmlengine::FetchIcon(via, overlay(c, target), &data) : cache.FetchDataRelative(base, target, &data);
      c.log("data %s + %s -> %d", base.c_str(), quote(target).c_str(), ok);
      bool want = m.fetch(base, target, &content, &final_url);
      if (m.next != net.log.size()) c.fail("requests", "%s + %s: %zu requests were made, %zu were needed, the next is %s", base.c_str(), target.c_str(), net.log.size(), m.next, net.log[m.next].url.c_str());
      if (ok != want) c.fail(ok ? "from-nowhere" : "lost", "fetching data %s + %s %s", base.c_str(), target.c_str(), ok ? "succeeded although it is nowhere" : "failed although it is there");
      if (ok && data != content) c.fail("content", "fetching data %s + %s returned other bytes than %s holds", base.c_str(), target.c_str(), final_url.c_str());
    } else {
      KmlFilePtr f = op == 0 ? cache.FetchKmlAbsolute(target) : via ? kmlengine::FetchLink(via, network_link(target)) : cache.FetchKmlRelative(base, target);
      c.log("%s + %s -> %s", base.c_str(), quote(target).c_str(), f ? f->get_url().c_str() : "nothing");
      if (f) got_text = kmldom::SerializeRaw(f->get_root());
      if (!valid && f) c.fail("from-nowhere", "%s + %s is no valid URL but yields a document", base.c_str(), target.c_str());
      if (valid && net.log.empty() && f && known[url0].count(f.get())) {
        c.probe("document from the cache"); c.nontrivial++;        // the document obtained before
      } else {
        if (roomy && valid && parsed.count(url0)) c.fail("reparsed", "%s was obtained before; fetching it again %s", url0.c_str(), f ? "gave another document" : "failed");
        bool want = m.fetch(base, target, &content, &final_url); std::string text;
        if (m.next != net.log.size()) c.fail("requests", "%s + %s: %zu requests were made, %zu were needed, the next is %s", base.c_str(), target.c_str(), net.log.size(), m.next, net.log[m.next].url.c_str());
        bool readable = want && parses(content, &text);
        bool again = f && !final_url.empty() && known[final_url].count(f.get());
        if (roomy && want && parsed.count(final_url)) {
          if (f != parsed[final_url]) c.fail("reparsed", "%s was obtained before; fetching it as %s + %s %s", final_url.c_str(), base.c_str(), target.c_str(), f ? "gave another document" : "failed");
        } else if (!again) {
          if (!readable && f) c.fail("from-nowhere", "%s + %s yields a document although %s", base.c_str(), target.c_str(), want ? "the content is unusable" : "it is nowhere");
          if (readable && !f) c.fail("lost", "%s + %s yields nothing although %s holds it", base.c_str(), target.c_str(), final_url.c_str());
          if (f && got_text != text) c.fail("content", "%s + %s returned another document than %s holds", base.c_str(), target.c_str(), final_url.c_str());
        }
        if (f) {
          if (f->get_url() != final_url) c.fail("url", "%s + %s was found at %s but is recorded as %s", base.c_str(), target.c_str(), final_url.c_str(), f->get_url().c_str());
          if (f->get_kml_cache() != &cache) c.fail("cache", "the document of %s is not tied to its cache", final_url.c_str());
          if (!again) { Held h; h.f = f; h.text = got_text; h.url = final_url; held.push_back(h); }
          known[final_url].insert(f.get());
          if (roomy) parsed[final_url] = f;
          if (final_url != url0) c.probe(final_url.find(url0) == 0 ? "default KML of an archive" : "found beside the archive");
        } else if (want) c.probe("content not KML");
      }
    }
    if (net.log.size()) c.nontrivial++;
    c.state(hash_str(format("%zu %u %s %s %zu", max, op, base.c_str(), target.c_str(), net.log.size())));
  }
  for (size_t i = 0; i < held.size(); ++i) {
    if (kmldom::SerializeRaw(held[i].f->get_root()) != held[i].text || held[i].f->get_url() != held[i].url) c.fail("harmed", "the document of %s changed after it was obtained", held[i].url.c_str());
  }
}
SIM_PROP(C09, run);
