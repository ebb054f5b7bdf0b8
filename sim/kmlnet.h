// Model of fetching KML and KMZ resources through a KmlCache, driven by the
// log of the simulated network.
#ifndef SIM_KMLNET_H
#define SIM_KMLNET_H
#include <map>
#include <set>
#include <string>
#include <vector>
#include "core.h"
#include "simnet.h"
#include "uriutil.h"
#include "ziputil.h"
#include "kml/dom.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kmz_file.h"
namespace kmlnet {
using namespace sim;
typedef std::vector<std::pair<std::string, std::string> > Entries;
extern std::map<std::string, Entries> g_intact;   // archive bytes -> what was stored

// --- the reference model ------------------------------------------------------
inline bool ends_with(const std::string& s, const std::string& t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
inline bool zip_opens(const std::string& b) { if (g_intact.count(b)) return true; return kmlengine::KmzFilePtr(kmlengine::KmzFile::OpenFromString(b)) != NULL; }
// An entry of an archive; "" names the default KML file, whose name is returned.
inline bool zip_entry(const std::string& b, std::string* name, std::string* out) {
  std::map<std::string, Entries>::iterator i = g_intact.find(b);
  if (i != g_intact.end()) {
    for (size_t k = 0; k < i->second.size(); ++k)
      if (name->empty() ? ends_with(i->second[k].first, ".kml") : i->second[k].first == *name) { *name = i->second[k].first; *out = i->second[k].second; return true; }
    return false;
  }
  // A damaged archive: what the library makes of exactly these bytes (its integrity is C04).
  kmlengine::KmzFilePtr k = kmlengine::KmzFile::OpenFromString(b);
  if (!k) return false;
  if (name->empty()) return k->ReadKmlAndGetPath(out, name);
  return k->ReadFile(name->c_str(), out);
}
inline bool parses(const std::string& b, std::string* canon) {
  kmlengine::KmlFilePtr k = kmlengine::KmlFile::CreateFromParse(b, NULL);
  if (!k) return false;
  *canon = kmldom::SerializeRaw(k->get_root());
  return true;
}

struct Model {
  Ctx& c; SimNet& net; bool roomy; size_t next = 0;
  std::map<std::string, std::string> good;        // url -> last usable body delivered
  explicit Model(Ctx& cc, SimNet& n, bool r) : c(cc), net(n), roomy(r) {}
  // Where the real code needed the raw bytes of url: a request or the cache.
  bool raw(const std::string& url, bool archive, std::string* out) {
    std::string key = (archive ? "z " : "f ") + url;
    if (next < net.log.size() && net.log[next].url == url && !(roomy && good.count(key))) {
      const SimNet::Request& r = net.log[next++];
      if (!r.ok || (archive && !zip_opens(r.body))) return false;
      good[key] = r.body; *out = r.body;
      return true;
    }
    if (next < net.log.size() && net.log[next].url == url) c.fail("refetched", "%s is cached but was requested again", url.c_str());
    if (!good.count(key)) c.fail("no-request", "%s was needed and not requested; %zu requests, next is %s", url.c_str(), net.log.size(), next < net.log.size() ? net.log[next].url.c_str() : "none");
    *out = good[key];
    return true;
  }
  bool direct(const std::string& url, std::string* content, std::string* final_url, bool* archive_there) {
    std::string fetchable = uriutil::without_query(url);
    size_t p = fetchable.find(".kmz");
    *archive_there = true;
    if (p == std::string::npos) { *final_url = url; return raw(url, false, content); }
    std::string kmz = fetchable.substr(0, p + 4), path = fetchable.size() > p + 5 ? fetchable.substr(p + 5) : "", zip;
    if (!raw(kmz, true, &zip)) { *archive_there = false; return false; }
    bool bare = path.empty();
    if (!zip_entry(zip, &path, content)) return false;
    *final_url = bare ? kmz + "/" + path : url;
    return true;
  }
  bool fetch(const std::string& base, const std::string& target, std::string* content, std::string* final_url) {
    std::string url;
    if (!uriutil::resolve(base, target, &url)) return false;
    bool there;
    if (direct(url, content, final_url, &there)) return true;
    std::string fetchable = uriutil::without_query(url);
    size_t p = fetchable.find(".kmz");
    if (p == std::string::npos || !there) return false;
    // Not inside the archive: beside it.
    std::string url2;
    if (!uriutil::resolve(fetchable.substr(0, p + 4), target, &url2)) return false;
    return direct(url2, content, final_url, &there);
  }
};

}  // namespace kmlnet
#endif
