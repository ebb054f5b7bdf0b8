// C11: web-service clients report exactly what the service acknowledged.
#include <stdlib.h>
#include <functional>
#include <memory>
#include "../core.h"
#include "../gen.h"
#include "../simfs.h"
#include "../simnet.h"
#include "kml/base/mimetypes.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/http_client.h"
#include "kml/dom.h"
#include "kml/engine.h"
using namespace sim;
using namespace kmlconvenience;
using gen::Node;

struct Sent {
  int who; HttpMethodEnum method; std::string uri; StringPairVector session, extra; bool has_body; std::string body;
  bool wanted_response, delivered, whole; std::string response;
};
struct Service {
  Ctx& c;
  std::vector<Sent> log;
  std::map<std::string, std::string> pages;
  unsigned refuse = 0, drop = 0, damage = 0;       // of 256
  std::string login_answer;
  bool hit(unsigned r) { return r && c.choose(256) >= 256 - r; }
};
class SimHttp : public HttpClient {
 public:
  SimHttp(const std::string& app, Service* s, int who) : HttpClient(app), s_(s), who_(who) {}
  bool SendRequest(HttpMethodEnum m, const std::string& uri, const StringPairVector* h, const std::string* data, std::string* response) const override {
    InHarness ih;
    Ctx& c = s_->c;
    c.step(); c.tick(1000 + c.choose(50000));
    Sent r; r.who = who_; r.method = m; r.uri = uri; r.session = get_headers(); if (h) r.extra = *h;
    r.has_body = data != NULL; if (data) r.body = *data; r.wanted_response = response != NULL; r.delivered = false; r.whole = false;
    std::string body;
    bool known = true;
    if (m == HTTP_POST && uri.find("ClientLogin") != std::string::npos) body = s_->login_answer;
    else if (m == HTTP_POST) body = "<entry xmlns=\"http://www.w3.org/2005/Atom\"><title>t" + std::to_string(s_->log.size()) + "</title>" + (c.chance(1, 6) ? "<summary>" + std::string(1 + c.choose(9000), 's') + "</summary>" : "") + "</entry>";
    else if (s_->pages.count(uri)) body = s_->pages[uri];
    else { body = "<html><body>404</body></html>"; known = false; }
    if (s_->hit(s_->refuse)) { c.fault("connection refused"); s_->log.push_back(r); c.log("%d: %d %s refused", who_, m, quote(uri, 160).c_str()); return false; }
    if (s_->hit(s_->drop)) {
      c.fault("connection lost after the request");
      if (response) *response = body.substr(0, c.choose((uint32_t)body.size() + 1));
      s_->log.push_back(r); c.log("%d: %d %s lost", who_, m, quote(uri, 160).c_str()); return false;
    }
    r.whole = known;
    if (s_->hit(s_->damage)) { const char* k; std::string d = damage_body(c, body, &k); c.fault(k); if (d != body) r.whole = false; body = d; }
    if (response) *response = body;
    r.delivered = true; r.response = body;
    s_->log.push_back(r);
    c.log("%d: %d %s body %s -> %s", who_, m, quote(uri, 160).c_str(), digest(r.body).c_str(), digest(body).c_str());
    return true;
  }
 private:
  Service* s_; int who_;
};

static Node leaf(const std::string& n, const std::string& t) { Node x; x.name = n; x.text = t; return x; }
// Elements of namespaces the Atom parser does not know keep the raw name.
static void drop_foreign(Node* n) {
  for (size_t i = 0; i < n->kids.size();) if (n->kids[i].name.compare(0, 4, "xal:") == 0) n->kids.erase(n->kids.begin() + i); else drop_foreign(&n->kids[i++]);
}
static Node feature(Ctx& c, const std::string& tag, bool rich) {
  static const char* kKinds[] = {"Placemark", "Placemark", "Folder", "Document", "NetworkLink", "GroundOverlay"};
  const char* kind = kKinds[c.choose(6)];
  if (rich) {
    gen::Opts o; o.budget = 2 + c.choose(14); o.unknown = false; o.gx = false; o.ids = c.choose(2); o.id_prefix = tag; o.feature_only = true;
    Node n = gen::element(c, o, kind); drop_foreign(&n); return n;
  }
  Node n; n.name = kind;
  n.kids.push_back(leaf("name", tag));
  if (n.name == "Placemark" && c.choose(2)) { Node p; p.name = "Point"; p.kids.push_back(leaf("coordinates", "1,2,3")); n.kids.push_back(p); }
  return n;
}
struct Page { std::vector<Node> features; std::string next; std::vector<std::string> self; std::vector<bool> has; };

static Node entry_node(const std::string& title) { Node e; e.name = "entry"; e.kids.push_back(leaf("title", title)); return e; }
static void prefix_atom(Node* n, bool in_content) {
  static const char* kAtom[] = {"feed", "entry", "title", "summary", "content", "link", "category", "author", "id"};
  if (!in_content) for (const char* a : kAtom) if (n->name == a) { n->name = "atom:" + n->name; break; }
  bool content = n->name == "atom:content";
  for (size_t i = 0; i < n->kids.size(); ++i) prefix_atom(&n->kids[i], in_content || content);
}
// A page of a feed of features.
static std::string page_xml(Ctx& c, const std::string& tag, Page* p, const std::string& next) {
  Node f; f.name = "feed";
  f.kids.push_back(leaf("title", tag));
  unsigned others = c.choose(3);
  static const char* kRels[] = {"self", "http://schemas.google.com/g/2005#post", "nextish", "alternate", "next-not"};
  for (unsigned i = 0; i < others; ++i) { Node l; l.name = "link"; l.attrs.push_back(std::make_pair("rel", kRels[c.choose(5)])); l.attrs.push_back(std::make_pair("href", "http://m/other")); f.kids.push_back(l); }
  if (!next.empty()) {
    Node l; l.name = "link"; l.attrs.push_back(std::make_pair("rel", c.choose(2) ? "next" : "http://schemas.google.com/g/2005#next")); l.attrs.push_back(std::make_pair("href", next));
    f.kids.insert(f.kids.begin() + c.choose((uint32_t)f.kids.size() + 1), l);
    p->next = next;
  }
  bool rich = c.choose(3) == 0;
  bool prefixed = c.choose(2);
  unsigned n = c.choose(5);
  if (c.chance(1, 40)) n = 10 + c.choose(30);
  for (unsigned i = 0; i < n; ++i) {
    Node e = entry_node(tag + "e" + std::to_string(i));
    std::string self;
    if (c.chance(1, 10)) { Node l; l.name = "link"; l.attrs.push_back(std::make_pair("rel", "self")); e.kids.push_back(l); }   // a link to nowhere
    if (c.choose(4) == 0) { self = "http://m/self/" + tag + std::to_string(i); Node l; l.name = "link"; l.attrs.push_back(std::make_pair("rel", "self")); l.attrs.push_back(std::make_pair("href", self)); e.kids.push_back(l); }
    unsigned kind = c.choose(8);
    bool has = false;
    if (kind) {
      Node ct; ct.name = "content";
      ct.attrs.push_back(std::make_pair("type", "application/vnd.google-earth.kml+xml"));
      if (kind > 1) { Node ft = feature(c, tag + "f" + std::to_string(i), rich); p->features.push_back(ft); has = true; if (!prefixed) ft.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2")); ct.kids.push_back(ft);
        if (c.chance(1, 8)) { Node extra = feature(c, tag + "x" + std::to_string(i), false); if (!prefixed) extra.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2")); ct.kids.push_back(extra); }   // an entry stands for its first feature
      }
      else ct.attrs.push_back(std::make_pair("src", "http://m/src"));
      e.kids.push_back(ct);
    }
    p->has.push_back(has); p->self.push_back(self);
    f.kids.push_back(e);
  }
  if (prefixed) {
    prefix_atom(&f, false);
    f.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom"));
    f.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2"));
  } else {
    f.attrs.push_back(std::make_pair("xmlns", "http://www.w3.org/2005/Atom"));
    f.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom"));
  }
  f.attrs.push_back(std::make_pair("xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"));
  return gen::write_plain(f);
}

static void strip_ns(Node* n) {
  for (size_t i = 0; i < n->attrs.size();) if (n->attrs[i].first.compare(0, 5, "xmlns") == 0) n->attrs.erase(n->attrs.begin() + i); else ++i;
  for (size_t i = 0; i < n->kids.size(); ++i) strip_ns(&n->kids[i]);
}
static std::string ncanon(Node n) { strip_ns(&n); return gen::canon(n); }
static Node reread(Ctx& c, const std::string& xml, const char* what) {
  Node n; std::string why;
  if (!gen::parse(xml, &n, &why)) c.fail("ill-formed", "%s is not well-formed XML: %s: %s", what, why.c_str(), quote(xml, 300).c_str());
  return n;
}
// A damaged feed can name namespaces the Atom parser does not know, whose elements cannot be written as XML.
static std::string loose(const kmldom::FeaturePtr& f) {
  std::string xml = kmldom::SerializeRaw(f), why; Node n;
  return gen::parse(xml, &n, &why) ? ncanon(n) : "text " + xml;
}
static void geometries(const Node& n, std::vector<const Node*>* out) {
  static const char* kG[] = {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "gx:Track", "gx:MultiTrack"};
  for (size_t i = 0; i < n.kids.size(); ++i) {
    const Node& k = n.kids[i];
    if (k.name == "Placemark") { bool g = false; for (size_t j = 0; j < k.kids.size(); ++j) for (const char* q : kG) g |= k.kids[j].name == q; if (g) out->push_back(&k); }
    else geometries(k, out);
  }
}

// What one client is expected to send with every request.
struct Session { std::string app, version, token; StringPairVector added; std::string scope; };

struct World {
  Ctx& c; Service s; std::vector<Session> ses;
  size_t mark = 0;
  void begin() { mark = s.log.size(); }
  size_t sent() { return s.log.size() - mark; }
  void check_session(const Sent& r) {
    const Session& e = ses[r.who];
    StringPairVector want;
    unsigned ua = 0, ver = 0, auth = 0;
    std::string token;
    for (size_t i = 0; i < r.session.size(); ++i) {
      if (r.session[i].first == "User-Agent") { ++ua; if (r.session[i].second.compare(0, e.app.size(), e.app)) c.fail("session", "User-Agent is %s", r.session[i].second.c_str()); }
      if (r.session[i].first == "GData-Version") { ++ver; if (r.session[i].second != e.version) c.fail("session", "GData-Version is %s, not %s", r.session[i].second.c_str(), e.version.c_str()); }
      if (r.session[i].first == "Authorization") { ++auth; token = r.session[i].second; }
    }
    if (ua != 1 || ver != 1) c.fail("session", "%u User-Agent and %u GData-Version headers", ua, ver);
    if (e.token.empty() ? auth != 0 : (auth != 1 || token != "GoogleLogin auth=" + e.token))
      c.fail("session", "%u Authorization headers (%s) for the token %s", auth, token.c_str(), e.token.c_str());
    for (size_t i = 0; i < e.added.size(); ++i) { bool f = false; for (size_t j = 0; j < r.session.size(); ++j) f |= r.session[j] == e.added[i]; if (!f) c.fail("session", "header %s is missing", e.added[i].first.c_str()); }
  }
  const Sent& one(int who, HttpMethodEnum m, const std::string& uri, const char* type, bool body) {
    if (sent() != 1) c.fail("requests", "%zu requests instead of one to %s", sent(), uri.c_str());
    return nth(0, who, m, uri, type, body);
  }
  const Sent& nth(size_t i, int who, HttpMethodEnum m, const std::string& uri, const char* type, bool body) {
    if (sent() <= i) c.fail("requests", "request %zu (%s) was not made", i, uri.c_str());
    const Sent& r = s.log[mark + i];
    if (r.who != who || r.method != m || r.uri != uri || r.has_body != body) c.fail("request", "request %zu is method %d %s (body %d), expected method %d %s (body %d)", i, r.method, r.uri.c_str(), r.has_body, m, uri.c_str(), body);
    check_session(r);
    unsigned types = 0;
    for (size_t j = 0; j < r.extra.size(); ++j) if (r.extra[j].first == "Content-Type") { ++types; if (!type || r.extra[j].second != type) c.fail("request", "Content-Type %s", r.extra[j].second.c_str()); }
    if (type && types != 1) c.fail("request", "%u Content-Type headers on a post", types);
    return r;
  }
  void flag(const Sent& r, bool ok, const char* what) { if (ok != r.delivered) c.fail("acknowledged", "%s reported %s, the transport %s", what, ok ? "success" : "failure", r.delivered ? "succeeded" : "failed"); }
};
static bool parses_feed(const std::string& s) { kmldom::AtomFeedPtr f = kmldom::AsAtomFeed(kmldom::ParseAtom(s, NULL)); return f != NULL; }
static bool parses_entry(const std::string& s) { kmldom::AtomEntryPtr f = kmldom::AsAtomEntry(kmldom::ParseAtom(s, NULL)); return f != NULL; }

static void check_entry_post(World& w, const Sent& r, const Node& feat, const char* what) {
  Ctx& c = w.c;
  Node e = reread(c, r.body, what);
  if (e.name != "atom:entry") c.fail("body", "%s: the body is a %s", what, e.name.c_str());
  const Node *t = e.kid("atom:title"), *s = e.kid("atom:summary"), *ct = e.kid("atom:content");
  const Node *n = feat.kid("name"), *d = feat.kid("description");
  if ((t ? t->text : "") != (n ? n->text : "")) c.fail("body", "%s: the title is %s, the name %s", what, t ? quote(t->text).c_str() : "missing", n ? quote(n->text).c_str() : "missing");
  if ((s ? s->text : "") != (d ? d->text : "")) c.fail("body", "%s: the summary is %s, the description %s", what, s ? quote(s->text).c_str() : "missing", d ? quote(d->text).c_str() : "missing");
  if (!ct || ct->kids.size() != 1 || !ct->attr("type") || *ct->attr("type") != kmlbase::kKmlMimeType) c.fail("body", "%s: content of the wrong type or with %zu elements", what, ct ? ct->kids.size() : 0);
  std::string a = ncanon(feat), b = ncanon(ct->kids[0]);
  if (a != b) c.fail("body", "%s: the posted feature differs: %s", what, gen::diff(a, b).c_str());
}

static void run(Ctx& c) {
  simfs::activate(true);
  c.max_steps = 20000;
  World w = {c, {c}, {}};
  Service& s = w.s;
  static const char* kEnv[] = {"GOOGLE_MAPS_DATA_SCOPE", "GOOGLE_DOC_LIST_SCOPE", "GOOGLE_SPREADSHEETS_DATA_SCOPE", "GOOGLE_PICASA_WEB_SCOPE"};
  static const char* kScopes[] = {"http://maps.google.com", "http://docs.google.com", "http://spreadsheets.google.com", "http://picasaweb.google.com"};
  static const char* kVersions[] = {"2.0", "3.0", "3.0", "2"};
  static const char* kMeta[] = {"/maps/feeds/maps/default/full", "/feeds/default/private/full", "/feeds/spreadsheets/private/full", "/data/feed/api/user/default"};
  bool env = c.chance(1, 4);
  SimHttp* http[4];
  for (int i = 0; i < 4; ++i) {
    Session e; e.app = "app" + std::to_string(i); e.version = kVersions[i]; e.scope = kScopes[i];
    if (env) { e.scope = "http://alt" + std::to_string(i) + ":80"; setenv(kEnv[i], e.scope.c_str(), 1); } else unsetenv(kEnv[i]);
    w.ses.push_back(e);
    http[i] = new SimHttp(e.app, &s, i);
  }
  std::unique_ptr<GoogleMapsData> maps(GoogleMapsData::Create(http[0]));
  std::unique_ptr<GoogleDocList> docs(GoogleDocList::Create(http[1]));
  std::unique_ptr<GoogleSpreadsheets> sheets(GoogleSpreadsheets::Create(http[2]));
  std::unique_ptr<GooglePicasaWeb> picasa(GooglePicasaWeb::Create(http[3]));
  for (int i = 0; i < 4; ++i) unsetenv(kEnv[i]);
  if (!s.log.empty()) c.fail("requests", "creating a client sent %zu requests", s.log.size());
  // Meta feeds and feature feeds (some in several pages, some in circles).
  Page meta[4];
  for (int i = 0; i < 4; ++i) s.pages[w.ses[i].scope + kMeta[i]] = page_xml(c, "m" + std::to_string(i), &meta[i], "");
  unsigned npages = 1 + c.choose(5);
  if (c.chance(1, 30)) npages = 8 + c.choose(12);
  bool same_path = c.choose(3) == 0;   // the pages differ in the query only
  std::vector<Page> pages(npages);
  std::vector<std::string> urls;
  for (unsigned i = 0; i < npages; ++i) urls.push_back(same_path ? "http://m/ff/p?start=" + std::to_string(i) : "http://m/ff/p" + std::to_string(i) + (c.choose(2) ? "?x=1&start=" + std::to_string(i) : ""));
  bool circle = c.chance(1, 8);
  for (unsigned i = 0; i < npages; ++i) {
    std::string next = i + 1 < npages ? urls[i + 1] : circle ? urls[c.choose(npages)] : c.chance(1, 6) ? "http://m/nowhere" : "";
    s.pages[urls[i]] = page_xml(c, "p" + std::to_string(i), &pages[i], next);
  }
  std::map<std::string, const Page*> by_body;
  for (unsigned i = 0; i < npages; ++i) by_body[s.pages[urls[i]]] = &pages[i];
  unsigned ops = 1 + c.choose(10);
  for (unsigned k = 0; k < ops; ++k) {
    c.step();
    s.refuse = s.drop = s.damage = 0;
    unsigned weather = c.choose(4);
    if (weather == 1) s.refuse = 30 + c.choose(100);
    if (weather == 2) s.drop = 30 + c.choose(100);
    if (weather == 3) s.damage = 30 + c.choose(150);
    int who = (int)c.choose(4);
    w.begin();
    unsigned op = c.choose(15);
    c.log("op %u client %d weather %u", op, who, weather);
    switch (op) {
      case 0: {  // login
        std::string tok = c.choose(8) ? "DQ" + std::to_string(c.choose(1000000)) : std::string(1, 'x');
        if (c.chance(1, 6)) tok += std::string(1 + c.choose(400), 't');
        std::string ans = "SID=DQAAAGgA\nLSID=DQAAAGsA\nAuth=" + tok + "\n";
        if (c.chance(1, 6)) ans = "Error=BadAuthentication\n";
        else if (c.chance(1, 8)) ans = "SID=DQ\nAuth=\n";   // granted to nobody
        if (c.chance(1, 8)) ans += "Expiry=never\n";
        s.login_answer = ans;
        bool ok = http[who]->Login("svc", "u@h", "pw" + std::to_string(k));
        if (w.sent() != 1) c.fail("requests", "%zu requests for one login", w.sent());
        const Sent& r = w.nth(0, who, HTTP_POST, "https://www.google.com/accounts/ClientLogin", NULL, true);
        std::string want = "Email=u@h&Passwd=pw" + std::to_string(k) + "&accountType=HOSTED_OR_GOOGLE&source=" + w.ses[who].app + "&service=svc";
        if (r.body != want) c.fail("body", "the login posted %s", quote(r.body, 300).c_str());
        size_t a = r.response.find("Auth="), e = a == std::string::npos ? a : r.response.find('\n', a);
        bool granted = r.delivered && e != std::string::npos && e > a + 5;
        if (granted != ok) c.fail("login", "login reported %d for the answer %s", ok, r.delivered ? quote(r.response, 200).c_str() : "(none)");
        if (ok) w.ses[who].token = r.response.substr(a + 5, e - a - 5);
        if (http[who]->get_auth_token() != w.ses[who].token) c.fail("login", "the token is %s instead of %s", quote(http[who]->get_auth_token()).c_str(), quote(w.ses[who].token).c_str());
        if (ok) c.probe("logged in");
        break;
      }
      case 1: {
        std::pair<std::string, std::string> h("X-H" + std::to_string(k), "v");
        http[who]->AddHeader(h.first, h.second); w.ses[who].added.push_back(h);
        break;
      }
      case 2: case 3: {  // meta feed
        std::string uri = w.ses[who].scope + kMeta[who];
        if (op == 2) {
          std::string got = c.choose(2) ? "old" : "";
          bool ok = who == 0 ? maps->GetMetaFeedXml(&got) : who == 1 ? docs->GetMetaFeedXml(&got) : who == 2 ? sheets->GetMetaFeedXml(&got) : picasa->GetMetaFeedXml(&got);
          const Sent& r = w.one(who, HTTP_GET, uri, NULL, false);
          w.flag(r, ok, "the meta feed");
          if (ok && got != r.response) c.fail("content", "the meta feed differs from what the service sent");
        } else {
          kmldom::AtomFeedPtr f = who == 0 ? maps->GetMetaFeed() : who == 1 ? docs->GetMetaFeed() : who == 2 ? sheets->GetMetaFeed() : picasa->GetMetaFeed();
          const Sent& r = w.one(who, HTTP_GET, uri, NULL, false);
          bool want = r.delivered && parses_feed(r.response);
          if (r.whole && !want) c.fail("feed", "an intact feed does not parse: %s", quote(r.response, 300).c_str());
          if ((f != NULL) != want) c.fail("feed", "the meta feed is %s, but it %s", f ? "present" : "absent", want ? "arrived" : "did not arrive");
          if (f && r.whole && f->get_entry_array_size() != meta[who].has.size()) c.fail("feed", "%zu entries of %zu", f->get_entry_array_size(), meta[who].has.size());
        }
        break;
      }
      case 4: {  // feature feed
        std::string uri = c.choose(6) ? urls[c.choose(npages)] : "http://m/none";
        if (c.choose(2)) {
          std::string got;
          bool ok = maps->GetFeatureFeedXml(uri, &got);
          const Sent& r = w.one(0, HTTP_GET, uri, NULL, false);
          w.flag(r, ok, "the feature feed");
          if (ok && got != r.response) c.fail("content", "the feature feed differs from what the service sent");
        } else {
          kmldom::AtomFeedPtr f = maps->GetFeatureFeedByUri(uri);
          const Sent& r = w.one(0, HTTP_GET, uri, NULL, false);
          if ((f != NULL) != (r.delivered && parses_feed(r.response))) c.fail("feed", "the feature feed is %s", f ? "present" : "absent");
        }
        break;
      }
      case 5: case 6: {  // collect all pages
        Page first; const Page* p;
        std::string xml; std::set<std::string> visited;
        unsigned start = c.choose(npages);
        kmldom::AtomFeedPtr f = kmldom::AsAtomFeed(kmldom::ParseAtom(s.pages[urls[start]], NULL));
        if (!f) c.fail("feed", "an intact feed does not parse: %s", quote(s.pages[urls[start]], 300).c_str());
        p = &pages[start];
        std::string before = kmldom::SerializeRaw(f);
        kmldom::DocumentPtr d = maps->CreateDocumentOfMapFeatures(f);
        if (!d) c.fail("pages", "no document from a feed");
        std::vector<std::string> want; bool exact = true;
        size_t i = 0;
        std::string next = p->next;
        for (size_t j = 0; j < p->features.size(); ++j) want.push_back(ncanon(p->features[j]));
        while (!next.empty() && visited.insert(next).second) {
          const Sent& r = w.nth(i++, 0, HTTP_GET, next, NULL, false);
          if (!r.delivered) { c.probe("page not obtained"); break; }
          kmldom::AtomFeedPtr g = kmldom::AsAtomFeed(kmldom::ParseAtom(r.response, NULL));
          if (!g) { c.probe("page not readable"); break; }
          if (by_body.count(r.response)) {
            const Page* q = by_body[r.response];
            for (size_t j = 0; j < q->features.size(); ++j) want.push_back(ncanon(q->features[j]));
            next = q->next;
          } else {   // a damaged page that still parses: believe the parser for its content
            exact = false;
            next.clear();
            for (size_t j = 0; j < g->get_entry_array_size(); ++j) { kmldom::FeaturePtr ft = AtomUtil::GetEntryFeature(g->get_entry_array_at(j)); if (ft) want.push_back(loose(ft)); }
            for (size_t j = 0; j < g->get_link_array_size(); ++j) { kmldom::AtomLinkPtr l = g->get_link_array_at(j); std::string rel = l->get_rel(); if (l->has_href() && rel.size() >= 4 && rel.compare(rel.size() - 4, 4, "next") == 0) { next = l->get_href(); break; } }
          }
          if (visited.count(next)) c.probe("pages in a circle");
        }
        if (w.sent() != i) c.fail("pages", "%zu pages were requested instead of %zu", w.sent(), i);
        if (d->get_feature_array_size() != want.size()) c.fail("pages", "%zu features instead of %zu from %zu pages", d->get_feature_array_size(), want.size(), i + 1);
        for (size_t j = 0; j < want.size(); ++j) {
          std::string h = loose(d->get_feature_array_at(j));
          if (h != want[j]) c.fail("pages", "feature %zu differs: %s", j, gen::diff(want[j], h).c_str());
        }
        if (kmldom::SerializeRaw(f) != before) c.fail("altered", "collecting the features changed the feed");
        c.state(hash_bytes("pages", 5, i * 31 + want.size()) + exact);
        c.nontrivial += i != 0;
        break;
      }
      case 7: {  // features of one feed, into a container
        unsigned n = c.choose(npages);
        kmldom::AtomFeedPtr f = kmldom::AsAtomFeed(kmldom::ParseAtom(s.pages[urls[n]], NULL));
        if (!f) c.fail("feed", "an intact feed does not parse");
        for (int rep = 0; rep < 2; ++rep) {
          bool mine = c.choose(2);
          kmldom::FolderPtr folder = kmldom::KmlFactory::GetFactory()->CreateFolder();
          if (mine) { int cnt = GoogleMapsData::GetMapKml(f, folder); if (cnt != (int)pages[n].features.size()) c.fail("features", "GetMapKml counts %d of %zu", cnt, pages[n].features.size()); }
          else AtomUtil::GetFeedFeatures(f, folder);
          if (folder->get_feature_array_size() != pages[n].features.size()) c.fail("features", "%zu of %zu features of a feed (pass %d)", folder->get_feature_array_size(), pages[n].features.size(), rep);
          for (size_t j = 0; j < pages[n].features.size(); ++j) {
            kmldom::FeaturePtr got = folder->get_feature_array_at(j);
            const Node* nm = pages[n].features[j].kid("name");
            if (got->get_name() != (nm ? nm->text : "")) c.fail("features", "feature %zu is %s", j, quote(got->get_name()).c_str());
          }
          if (!mine) for (size_t e = 0, j = 0; e < pages[n].has.size(); ++e) if (pages[n].has[e]) {   // where each came from
            kmldom::FeaturePtr got = folder->get_feature_array_at(j++);
            if (!pages[n].self[e].empty() && (!got->has_atomlink() || got->get_atomlink()->get_href() != pages[n].self[e])) c.fail("features", "the feature of %s is linked to %s", pages[n].self[e].c_str(), got->has_atomlink() ? quote(got->get_atomlink()->get_href()).c_str() : "nothing");
          }
        }
        for (size_t e = 0; e < f->get_entry_array_size(); ++e) {
          std::string t = f->get_entry_array_at(e)->get_title();
          if (c.chance(1, 4)) t += "x"; else if (c.chance(1, 4)) t.resize(t.size() - 1);
          kmldom::AtomEntryPtr want; for (size_t k = f->get_entry_array_size(); k-- > 0;) if (f->get_entry_array_at(k)->get_title() == t) want = f->get_entry_array_at(k);
          if (AtomUtil::FindEntryByTitle(f, t) != want) c.fail("title", "looking for the entry titled %s finds %s", quote(t).c_str(), want ? "another or none" : "one");
        }
        static const char* kRel[] = {"self", "next", "post", "http://schemas.google.com/g/2005#post", "alternate", "ish", "not", "edit"};
        static const char* kType[] = {"", "text/html", "text/htm", "application/atom+xml", "application/atom+xml;type=entry"};
        kmldom::AtomEntryPtr holder = kmldom::KmlFactory::GetFactory()->CreateAtomEntry();
        std::vector<kmldom::AtomLinkPtr> links; unsigned nl = c.choose(6);
        for (unsigned q = 0; q < nl; ++q) { kmldom::AtomLinkPtr l = AtomUtil::CreateBasicLink("http://m/l" + std::to_string(q) + (c.choose(2) ? "?msid=7" : ""), kRel[c.choose(8)], kType[c.choose(5)]); if (c.chance(1, 4)) l->clear_href(); holder->add_link(l); links.push_back(l); }
        for (int q = 0; q < 4; ++q) {
          std::string rel = kRel[c.choose(8)], ty = kType[c.choose(5)];
          kmldom::AtomLinkPtr want; std::string url = "unset", got = "unset"; bool has = false;
          for (size_t z = 0; z < links.size(); ++z) {
            std::string have = links[z]->get_rel();
            if (have.size() < rel.size() || have.compare(have.size() - rel.size(), rel.size(), rel)) continue;
            if (!want && links[z]->get_type() == ty) want = links[z];
            if (!has && links[z]->has_href()) { has = true; url = links[z]->get_href(); }
          }
          if (AtomUtil::FindLink(*holder, rel, ty) != want) c.fail("link", "the link of relation %s and type %s is not found or another one is", rel.c_str(), ty.c_str());
          if (AtomUtil::FindRelUrl(*holder, rel, &got) != has || got != url) c.fail("link", "the relation %s leads to %s instead of %s", rel.c_str(), got.c_str(), url.c_str());
        }
        { std::string alt, uri = "unset"; bool has = false;   // where the map can be had as KML
          for (size_t z = 0; z < links.size() && !has; ++z) if (links[z]->get_rel() == "alternate" && links[z]->has_href()) { has = true; alt = links[z]->get_href(); }
          bool ok = GoogleMapsData::GetKmlUri(holder, &uri);
          if (ok != has) c.fail("kml-uri", "a map entry %s an alternate address gives %s", has ? "with" : "without", ok ? uri.c_str() : "nothing");
          if (!ok && uri != "unset") c.fail("kml-uri", "nothing was found and %s stored", quote(uri).c_str());
          if (ok && (alt.find('?') != std::string::npos ? uri != alt + "&output=kml" : uri.compare(0, alt.size(), alt) || uri.size() != alt.size() + 11 || uri.compare(alt.size() + 1, 10, "output=kml"))) c.fail("kml-uri", "the map %s is had as KML from %s", alt.c_str(), uri.c_str());
        }
        { Node fn = feature(c, "made", true); std::string e2;
          kmldom::FeaturePtr ft = kmldom::AsFeature(kmldom::Parse(gen::write_plain(fn), &e2));
          if (ft) {
            Node held = reread(c, kmldom::SerializeRaw(ft), "a feature");
            kmldom::AtomEntryPtr en = AtomUtil::CreateEntryForFeature(ft);
            if (!en || AtomUtil::GetEntryFeature(en) != ft || GoogleMapsData::GetEntryFeature(en) != ft) c.fail("entry", "the entry made for a feature does not hold it");
            const Node *nm = held.kid("name"), *ds = held.kid("description");
            if (en->get_title() != (nm ? nm->text : "") || en->get_summary() != (ds ? ds->text : "")) c.fail("entry", "the entry is titled %s, %s", quote(en->get_title()).c_str(), quote(en->get_summary()).c_str());
            std::string now = ncanon(reread(c, kmldom::SerializeRaw(ft), "a feature"));
            if (now != ncanon(held)) c.fail("altered", "making an entry changed the feature: %s", gen::diff(ncanon(held), now).c_str());
          } }
        if (w.sent()) c.fail("requests", "reading a feed sent requests");
        break;
      }
      case 8: {  // create a map
        std::string title = gen::text(c, true), sum = gen::text(c, true), entry;
        bool ok = maps->CreateMap(title, sum, &entry);
        const Sent& r = w.one(0, HTTP_POST, w.ses[0].scope + kMeta[0], kmlbase::kAtomMimeType, true);
        w.flag(r, ok, "creating a map");
        if (ok && entry != r.response) c.fail("content", "the new map's entry differs from what the service sent");
        Node e = reread(c, r.body, "the posted entry");
        const Node *t = e.kid("atom:title"), *su = e.kid("atom:summary");
        if (e.name != "atom:entry" || !t || t->text != title || (su ? su->text : "") != sum) c.fail("body", "the posted entry is %s", quote(r.body, 300).c_str());
        break;
      }
      case 9: case 10: {  // post features
        bool dup = c.chance(1, 10);
        gen::Opts o; o.budget = 4 + c.choose(30); o.unknown = c.choose(2); o.gx = c.choose(2); o.feature_only = true; o.ids = true;
        Node root;
        if (c.choose(2)) { root.name = c.choose(2) ? "Folder" : "Document"; unsigned n = c.choose(7); for (unsigned i = 0; i < n; ++i) { if (c.chance(1, 4)) { Node sub; sub.name = "Folder"; sub.kids.push_back(feature(c, "s" + std::to_string(i), false)); root.kids.push_back(sub); } else root.kids.push_back(feature(c, "f" + std::to_string(i), false)); } }
        else root = gen::element(c, o, c.choose(3) ? "Document" : "Placemark");
        if (c.chance(1, 4)) for (size_t i = 0; i < root.kids.size(); ++i) if (root.kids[i].name == "Placemark" && !root.kids[i].attr("id") && c.choose(2)) { Node t = root.kids[i]; bool ids = false; for (const Node& x : t.kids) ids |= x.attr("id") != NULL || !x.kids.empty() && x.name != "Point"; if (!ids) { root.kids.insert(root.kids.begin() + i, t); ++i; c.probe("two equal placemarks"); } }
        if (dup) for (size_t i = 0; i < root.kids.size(); ++i) if (root.kids[i].name == "Placemark" && root.kids[i].kid("Point")) {
          Node& p = root.kids[i];
          for (size_t j = 0; j < p.kids.size(); ++j) if (p.kids[j].name == "Point" && !p.attr("id") && !p.kids[j].attr("id")) { p.attrs.push_back(std::make_pair("id", "same")); p.kids[j].attrs.push_back(std::make_pair("id", "same")); c.probe("placemark with an id used twice"); break; }
        }
        std::string err, xml = gen::write_plain(root);
        Node kml; kml.name = "kml";
        kml.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2")); kml.attrs.push_back(std::make_pair("xmlns:gx", "http://www.google.com/kml/ext/2.2")); kml.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom")); kml.attrs.push_back(std::make_pair("xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0")); kml.attrs.push_back(std::make_pair("xmlns:ext", "http://ext.example/"));
        kml.kids.push_back(root);
        kmldom::KmlPtr k2 = kmldom::AsKml(kmldom::Parse(gen::write_plain(kml), &err));
        if (!k2 || !k2->has_feature()) c.fail("model", "the generated document is refused: %s", err.c_str());
        kmldom::FeaturePtr ft = k2->get_feature();
        // What the library holds, in its own order of children.
        Node held = reread(c, kmldom::SerializeRaw(ft), "the document");
        const std::string uri = "http://m/post?x=" + std::to_string(k);
        if (op == 9) {
          std::string entry;
          bool ok = maps->AddFeature(uri, ft, &entry);
          const Sent& r = w.one(0, HTTP_POST, uri, kmlbase::kAtomMimeType, true);
          w.flag(r, ok, "adding a feature");
          if (ok && entry != r.response) c.fail("content", "the new feature's entry differs from what the service sent");
          check_entry_post(w, r, held, "adding a feature");
        } else {
          std::vector<const Node*> want;
          if (held.name == "Placemark") want.push_back(&held); else geometries(held, &want);
          int n = maps->PostPlacemarks(ft, uri);
          if (w.sent() != want.size()) c.fail("posts", "%zu posts for %zu placemarks", w.sent(), want.size());
          int acc = 0;
          for (size_t i = 0; i < want.size(); ++i) {
            const Sent& r = w.nth(i, 0, HTTP_POST, uri, kmlbase::kAtomMimeType, true);
            acc += r.delivered;
            check_entry_post(w, r, *want[i], "posting placemarks");
          }
          if (acc != n) c.fail("acknowledged", "%d placemarks reported as posted, the service accepted %d of %zu", n, acc, want.size());
          if (acc != (int)want.size()) c.probe("some placemarks not accepted");
          c.nontrivial += want.size() > 1;
          c.state(hash_bytes("post", 4, want.size() * 131 + acc));
        }
        std::string after = ncanon(reread(c, kmldom::SerializeRaw(ft), "the document")), was = ncanon(held);
        if (after != was) c.fail("altered", "posting changed the caller's document: %s", gen::diff(was, after).c_str());
        break;
      }
      case 11: {  // search
        static const char* kNum[] = {"1.5", "-20", "0.25", "45", "-179.5", "90", "12.125", "0"};
        std::string q[4]; double v[4];
        for (int i = 0; i < 4; ++i) { q[i] = kNum[c.choose(8)]; v[i] = strtod(q[i].c_str(), NULL); }
        kmldom::KmlFactory* kf = kmldom::KmlFactory::GetFactory();
        kmldom::AtomEntryPtr e = kf->CreateAtomEntry();
        bool has = c.choose(5) != 0, slash = c.chance(1, 5);
        if (has) { kmldom::AtomContentPtr ct = kf->CreateAtomContent(); ct->set_src(slash ? "http://m/ff/" : "http://m/ff/full"); e->set_content(ct); }
        std::string uri = "http://m/ff/snippet?box=" + q[3] + "," + q[1] + "," + q[2] + "," + q[0];
        s.pages[uri] = s.pages[urls[0]];
        kmlengine::Bbox b(v[0], v[1], v[2], v[3]);
        kmldom::AtomFeedPtr f = maps->SearchMapByBbox(e, b);
        if (!has) { if (f || w.sent()) c.fail("search", "a map without a feature feed was searched"); break; }
        const Sent& r = w.one(0, HTTP_GET, uri, NULL, false);
        if ((f != NULL) != (r.delivered && parses_feed(r.response))) c.fail("search", "the result is %s", f ? "present" : "absent");
        break;
      }
      case 12: {  // post media
        std::string data = c.blob(c.chance(1, 20) ? c.choose(40000) : c.choose(300)), title = "t" + std::to_string(k), errs = "none";
        bool csv = c.choose(2);
        kmldom::AtomEntryPtr e = csv ? maps->PostCsv(title, data, &errs) : maps->PostKml(title, data);
        const Sent& r = w.one(0, HTTP_POST, w.ses[0].scope + kMeta[0], csv ? kmlbase::kCsvMimeType : kmlbase::kKmlMimeType, true);
        if (r.body != data) c.fail("body", "the posted data differs");
        std::string slug; if (!HttpClient::FindHeader("Slug", r.extra, &slug) || slug != title) c.fail("request", "Slug is %s", slug.c_str());
        if ((e != NULL) != (r.delivered && parses_entry(r.response))) c.fail("acknowledged", "the new map is %s", e ? "present" : "absent");
        if (csv && r.delivered && errs != r.response) c.fail("content", "the answer to a posted file was not passed on");
        break;
      }
      case 13: {  // documents and spreadsheets
        std::string data = c.blob(c.chance(1, 20) ? c.choose(40000) : c.choose(300)), got;
        if (c.choose(2)) {
          bool ok = docs->UploadSpreadsheet(data, "text/csv", &got);
          const Sent& r = w.one(1, HTTP_POST, w.ses[1].scope + kMeta[1], "text/csv", true);
          if (r.body != data) c.fail("body", "the uploaded data differs");
          w.flag(r, ok, "the upload");
          if (ok && got != r.response) c.fail("content", "the answer to an upload differs");
        } else {
          bool has = c.choose(4) != 0;
          std::string id = "spreadsheet:" + std::to_string(c.choose(1000000));
          std::string xml = "<entry xmlns=\"http://www.w3.org/2005/Atom\" xmlns:gd=\"http://schemas.google.com/g/2005\"><title>x</title>" + std::string(c.choose(2) ? "<gd:other>zzz</gd:other>" : "") + (c.choose(4) == 0 ? "<gd:resourceIdent>no</gd:resourceIdent>" : "") + (c.choose(4) == 0 ? "<gd:resource>no</gd:resource>" : "") + (has ? "<gd:resourceId>" + id + "</gd:resourceId>" : "") + "</entry>";
          kmldom::AtomEntryPtr e = kmldom::AsAtomEntry(kmldom::ParseAtom(xml, NULL));
          if (!e) c.fail("feed", "an intact entry does not parse");
          std::string uri = w.ses[2].scope + "/feeds/download/spreadsheets/Export?key=" + id + "&exportFormat=csv";
          s.pages[uri] = data;
          bool ok = sheets->DownloadSpreadsheet(e, "csv", &got);
          if (!has) { if (ok || w.sent()) c.fail("download", "an entry without an id was downloaded"); break; }
          const Sent& r = w.one(2, HTTP_GET, uri, NULL, false);
          w.flag(r, ok, "the download");
          if (ok && got != r.response) c.fail("content", "the downloaded data differs");
        }
        break;
      }
      default: {  // plain fetches through a client
        std::string uri = urls[c.choose(npages)], got;
        if (c.choose(2)) {
          bool ok = http[who]->FetchUrl(uri, &got);
          const Sent& r = w.one(who, HTTP_GET, uri, NULL, false);
          w.flag(r, ok, "a fetch");
          if (ok && got != r.response) c.fail("content", "the fetched data differs");
        } else {
          kmldom::AtomFeedPtr f = AtomUtil::GetAndParseFeed(uri, *http[who]);
          const Sent& r = w.one(who, HTTP_GET, uri, NULL, false);
          if ((f != NULL) != (r.delivered && parses_feed(r.response))) c.fail("feed", "the feed is %s", f ? "present" : "absent");
        }
      }
    }
    c.nontrivial += w.sent() != 0;
    c.state(hash_bytes(&op, 4, who * 1000 + weather * 100 + w.sent()));
  }
}
SIM_PROP(C11, run);
