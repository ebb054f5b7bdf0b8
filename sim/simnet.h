// The simulated network behind kmlbase::NetFetcher: versioned resources and a
// seeded fault per request.
#ifndef SIM_SIMNET_H
#define SIM_SIMNET_H
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include "core.h"
#include "kml/base/net_cache.h"

namespace sim {

// Damages the bytes of a response.
inline std::string damage_body(Ctx& c, std::string s, const char** kind) {
  switch (c.choose(5)) {
    case 0: *kind = "truncated response"; s.resize(c.choose((uint32_t)s.size() + 1)); break;
    case 1: *kind = "corrupted response"; { unsigned k = 1 + c.choose(4); for (unsigned i = 0; i < k && !s.empty(); ++i) s[c.choose((uint32_t)s.size())] ^= (char)(1 + c.choose(255)); } break;
    case 2: *kind = "empty response"; s.clear(); break;
    case 3: *kind = "error page as response"; s = "<html><body>503 Service Unavailable</body></html>"; break;
    default: *kind = "lost block in response"; if (!s.empty()) { size_t a = c.choose((uint32_t)s.size()); s.erase(a, 1 + c.choose(512)); }
  }
  return s;
}

class SimNet : public kmlbase::NetFetcher {
 public:
  explicit SimNet(Ctx& c) : c_(c) {}
  struct Rates { unsigned fail = 0, damage = 0, stale = 0, swap = 0, throws = 0; } rates;  // of 256
  struct Request { std::string url; bool ok; std::string body; bool damaged; };
  mutable std::vector<Request> log;
  std::map<std::string, std::vector<std::string> > res;   // versions, oldest first
  uint64_t latency_us = 20000;

  void put(const std::string& url, const std::string& body) { res[url].push_back(body); }
  bool has(const std::string& url) const { return res.count(url) && !res.find(url)->second.empty(); }
  void heal() { rates = Rates(); }

  bool FetchUrl(const std::string& url, std::string* data) const override {
    InHarness ih;
    c_.step();
    c_.tick(1000 + c_.choose(1 + (uint32_t)latency_us));
    Request r; r.url = url; r.ok = false; r.damaged = false;
    if (hit(rates.throws)) { c_.fault("fetcher exception"); log.push_back(r); throw std::runtime_error("simulated network exception"); }
    if (hit(rates.fail)) {
      c_.fault("request failed");
      // A failed transfer may have delivered some bytes already.
      std::map<std::string, std::vector<std::string> >::const_iterator i = res.find(url.substr(0, url.find('#')));
      if (i != res.end() && !i->second.empty() && c_.choose(2)) *data = i->second.back().substr(0, c_.choose((uint32_t)i->second.back().size() + 1));
      log.push_back(r);
      return false;
    }
    std::map<std::string, std::vector<std::string> >::const_iterator i = res.find(url.substr(0, url.find('#')));   // fragments stay with the client
    if (i == res.end() || i->second.empty()) { log.push_back(r); c_.log("net: no such resource %s", quote(url, 200).c_str()); return false; }
    std::string body = i->second.back();
    if (i->second.size() > 1 && hit(rates.stale)) { c_.fault("stale response"); body = i->second[c_.choose((uint32_t)i->second.size() - 1)]; r.damaged = true; }
    if (hit(rates.damage)) { const char* k; body = damage_body(c_, body, &k); c_.fault(k); r.damaged = true; }
    *data = body;
    r.ok = true; r.body = body;
    log.push_back(r);
    c_.log("net: %s -> %s", quote(url, 200).c_str(), digest(body).c_str());
    return true;
  }
 private:
  bool hit(unsigned rate) const { return rate && c_.choose(256) >= 256 - rate; }
  Ctx& c_;
};

}  // namespace sim
#endif
