// C08: the bounded fetch cache is a bounded, oldest-first, fetch-once cache.
#include <list>
#include "../core.h"
#include "../gen.h"
#include "../simnet.h"
#include "../simfs.h"
#include "../ziputil.h"
#include "kml/base/memory_file.h"
#include "kml/base/net_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
#include "kml/dom.h"
using namespace sim;

// Item types: content and how the library makes one from delivered bytes.
static std::string content_of(const boost::intrusive_ptr<kmlbase::MemoryFile>& p) { return p->get_content(); }
static std::string content_of(const boost::intrusive_ptr<kmlengine::KmlFile>& p) { return p->get_root() ? kmldom::SerializeRaw(p->get_root()) : "(no root)"; }
static std::string content_of(const boost::intrusive_ptr<kmlengine::KmzFile>& p) { std::string s; p->SaveToString(&s); return s; }
// The content an item made of these bytes must have; false if none can be made.
static bool expected(const std::string& b, kmlbase::MemoryFile*, std::string* out) { *out = b; return true; }
static bool expected(const std::string& b, kmlengine::KmlFile*, std::string* out) {
  boost::intrusive_ptr<kmlengine::KmlFile> p = kmlengine::KmlFile::CreateFromParse(b, NULL);
  if (!p) return false;
  *out = content_of(p); return true;
}
static bool expected(const std::string& b, kmlengine::KmzFile*, std::string* out) { *out = b; return kmlengine::KmzFilePtr(kmlengine::KmzFile::OpenFromString(b)) != NULL; }
static std::string body(Ctx& c, kmlbase::MemoryFile*) { return c.blob(c.size_upto(300)); }
static std::string body(Ctx& c, kmlengine::KmlFile*) {
  return "<Placemark><name>" + std::to_string(c.choose(100000)) + "</name></Placemark>";
}
static std::string body(Ctx& c, kmlengine::KmzFile*) {
  std::vector<ziputil::Entry> es(1); es[0].name = "doc.kml"; es[0].data = "<Placemark><name>" + std::to_string(c.choose(100000)) + "</name></Placemark>";
  return ziputil::build(es);
}

template <class T> struct Model {
  typedef boost::intrusive_ptr<T> Ptr;
  struct E { std::string url; Ptr item; std::string content; };
  std::list<E> order;      // oldest stored first
  size_t max;
  E* find(const std::string& u) { for (typename std::list<E>::iterator i = order.begin(); i != order.end(); ++i) if (i->url == u) return &*i; return NULL; }
  void store(const std::string& u, const Ptr& p, const std::string& content) {
    if (max == 0) return;
    while (order.size() >= max) order.pop_front();
    E e; e.url = u; e.item = p; e.content = content; order.push_back(e);
  }
};

template <class T> static void history(Ctx& c, const char* type) {
  typedef boost::intrusive_ptr<T> Ptr;
  T* tag = NULL;
  SimNet net(c);
  static const size_t kMax[] = {1, 2, 3, 4, 7, 16, 100, 0};
  size_t max = kMax[c.choose(8)];
  kmlbase::NetCache<T> cache(&net, max);
  Model<T> m; m.max = max;
  std::vector<std::string> urls;
  unsigned nu = 1 + c.choose((uint32_t)std::min<size_t>(max + 4, 20));
  for (unsigned i = 0; i < nu; ++i) {
    // Names whose order differs from the order of first use.
    std::string u = "http://h/" + std::string(1, (char)('a' + (i * 7 + 3) % 26)) + std::to_string(i);
    if (i && c.chance(1, 8)) u = c.choose(2) ? urls[c.choose(i)] + "#f" + std::to_string(i) : urls[c.choose(i)] + "/";
    if (c.chance(1, 30)) u = i ? u : "";
    urls.push_back(u);
    net.put(u, body(c, tag));
  }
  unsigned ops = 1 + c.choose(c.chance(1, 6) ? 160 : 24);
  std::vector<std::pair<Ptr, std::string> > held;      // outlive their cache entries
  c.log("%s cache of %zu, %u urls, %u operations", type, max, nu, ops);
  for (unsigned k = 0; k < ops; ++k) {
    c.step();
    const std::string& u = c.pick(urls);
    if (c.chance(1, 6)) {   // the weather changes
      if (c.choose(2)) net.heal();
      else { net.rates.fail = c.choose(3) * 60; net.rates.damage = c.choose(3) * 60; net.rates.stale = c.choose(2) * 80; net.rates.throws = c.choose(3) == 2 ? 40 : 0; }
    }
    if (c.chance(1, 10)) { net.put(u, body(c, tag)); c.log("resource %s changes", u.c_str()); }
    unsigned op = c.choose(12);
    net.log.clear();
    if (op <= 6) {
      typename Model<T>::E* had = m.find(u);
      Ptr got; bool threw = false;
      try { got = cache.Fetch(u); } catch (std::runtime_error&) { threw = true; }
      c.log("fetch %s -> %s", u.c_str(), threw ? "exception" : got ? "item" : "nothing");
      if (had) {
        if (!net.log.empty()) c.fail("refetched", "%s is cached but was requested again", u.c_str());
        if (got != had->item) c.fail("wrong-item", "a fetch of %s, which is cached, returned %s", u.c_str(), got ? "another item" : "nothing");
        c.nontrivial++;
      } else {
        if (net.log.size() != 1 || net.log[0].url != u) c.fail("requests", "fetching %s made %zu requests, the first for %s", u.c_str(), net.log.size(), net.log.empty() ? "" : net.log[0].url.c_str());
        std::string want; InHarness ih;
        bool able = net.log[0].ok && expected(net.log[0].body, tag, &want);
        if (!able && got) c.fail("item-from-nothing", "a fetch of %s returned an item although %s", u.c_str(), net.log[0].ok ? "the content is unusable" : "the request failed");
        if (able && !got) c.fail("lost", "a fetch of %s returned nothing although the network delivered it (cache size %zu)", u.c_str(), max);
        if (able) {
          std::string have = content_of(got);
          if (have != want) c.fail("content", "a fetch of %s returned other content than was delivered", u.c_str());
          m.store(u, got, want);
          if (c.chance(1, 4)) held.push_back(std::make_pair(got, want));
        } else c.probe("fetch left the cache alone");
      }
    } else if (op == 7) {
      bool empty = c.chance(1, 6);
      Ptr item = empty ? Ptr() : Ptr(T::CreateFromString(body(c, tag)));
      bool had = m.find(u) != NULL;
      bool ok = cache.Save(u, item);
      c.log("save %s -> %d", u.c_str(), ok);
      if (had && ok) c.fail("overwrite", "saving over the cached %s is reported as done", u.c_str());
      if (!had && !empty && max && !ok) c.fail("save", "saving %s is refused", u.c_str());
      if (!had && !empty) m.store(u, item, content_of(item));
    } else if (op == 8) {
      bool had = m.find(u) != NULL, ok = cache.Delete(u);
      c.log("delete %s -> %d", u.c_str(), ok);
      if (ok != had) c.fail("delete", "deleting %s returned %d, it was %scached", u.c_str(), ok, had ? "" : "not ");
      if (had) { for (typename std::list<typename Model<T>::E>::iterator i = m.order.begin(); i != m.order.end(); ++i) if (i->url == u) { m.order.erase(i); break; } }
    } else if (op == 9 && c.choose(3) == 0) {
      bool had = !m.order.empty(), ok = cache.RemoveOldest();
      c.log("remove oldest -> %d", ok);
      if (ok != had) c.fail("delete", "removing the oldest of %zu items returned %d", m.order.size(), ok);
      if (had) m.order.pop_front();
    }
    // The whole cache agrees with the model after every operation.
    if (cache.Size() > max) c.fail("bound", "the cache holds %zu items, its limit is %zu", cache.Size(), max);
    if (cache.Size() != m.order.size()) c.fail("size", "the cache counts %zu items, %zu are expected", cache.Size(), m.order.size());
    for (size_t i = 0; i < urls.size(); ++i) {
      typename Model<T>::E* e = m.find(urls[i]);
      Ptr have = cache.LookUp(urls[i]);
      if (!e && have) c.fail("extra", "%s is cached and should not be", urls[i].c_str());
      if (e && !have) c.fail("evicted", "%s is no longer cached (%zu of %zu)", urls[i].c_str(), m.order.size(), max);
      if (e && have != e->item) c.fail("wrong-item", "another item is cached for %s", urls[i].c_str());
    }
    c.state(hash_str(format("%s %zu %u %zu %d", type, max, op, m.order.size(), (int)net.log.size())));
  }
  for (typename std::list<typename Model<T>::E>::iterator i = m.order.begin(); i != m.order.end(); ++i) if (content_of(i->item) != i->content) c.fail("content", "the cached content of %s changed", i->url.c_str());
  for (size_t i = 0; i < held.size(); ++i) if (content_of(held[i].first) != held[i].second) c.fail("content", "an item obtained earlier changed");
  // Recovery: with the network well, everything can be fetched.
  net.heal();
  for (size_t i = 0; i < urls.size(); ++i) {
    Ptr p = cache.Fetch(urls[i]);
    if (!p) c.fail("recovery", "%s cannot be fetched after the network recovered", urls[i].c_str());
  }
}

// Many more stores than any counter of a careless implementation holds.
static void churn(Ctx& c) {
  struct Plain : public kmlbase::NetFetcher {
    mutable size_t n = 0;
    bool FetchUrl(const std::string& u, std::string* d) const override { ++n; *d = u; return true; }
  } net;
  size_t max = 2 + c.choose(6);
  kmlbase::NetCache<kmlbase::MemoryFile> cache(&net, max);
  size_t total = c.choose(4) == 3 ? 70000 : 300 + c.choose(600);
  c.log("churn of %zu through a cache of %zu", total, max);
  for (size_t i = 0; i < total; ++i) {
    std::string u = std::to_string(i);
    if (!cache.Fetch(u)) c.fail("lost", "fetch %zu returned nothing", i);
    if (cache.Size() != std::min(max, i + 1)) c.fail("bound", "%zu items after %zu stores, limit %zu", cache.Size(), i + 1, max);
    if (i >= max && cache.LookUp(std::to_string(i - max))) c.fail("extra", "item %zu was not discarded as the oldest", i - max);
    if (i + 1 >= max && !cache.LookUp(std::to_string(i + 1 - max))) c.fail("evicted", "item %zu was discarded before an older one", i + 1 - max);
  }
  if (net.n != total) c.fail("requests", "%zu requests for %zu fetches", net.n, total);
  c.nontrivial++;
}

static void run(Ctx& c) {
  simfs::activate(true);
  if (c.chance(1, 400)) { churn(c); return; }
  switch (c.choose(4)) {
    case 0: case 1: history<kmlbase::MemoryFile>(c, "file"); break;
    case 2: history<kmlengine::KmlFile>(c, "kml"); break;
    default: history<kmlengine::KmzFile>(c, "kmz");
  }
}
SIM_PROP(C08, run);
