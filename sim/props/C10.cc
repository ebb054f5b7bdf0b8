// C10: resolving styles across the network terminates and only drops what failed.
#include <algorithm>
#include <map>
#include "../core.h"
#include "../gen.h"
#include "../kmlnet.h"
#include "../simfs.h"
#include "../simnet.h"
#include "kml/dom.h"
#include "kml/engine/find.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_merger.h"
using namespace sim;
using namespace kmlnet;
using gen::Node;

static const int kLimit = 5;    // references followed per resolution (documented internal maximum)

static std::string tag(const std::string& n, const std::string& v) { return "<" + n + ">" + v + "</" + n + ">"; }
static std::string color(Ctx& c) { static const char* k[] = {"ffffffff", "ff0000ff", "80123456", "00000000", "ff000000", "7f00ff00"}; return k[c.choose(6)]; }
static std::string num(Ctx& c) { static const char* k[] = {"1", "0", "0.5", "2", "1.25", "-3"}; return k[c.choose(6)]; }
static std::string style(Ctx& c, const std::string& id) {
  std::string s = id.empty() ? "<Style>" : "<Style id=\"" + id + "\">";
  unsigned n = 1 + c.choose(3), from = c.choose(6);
  for (unsigned i = 0; i < n; ++i) switch ((from + i) % 6) {
    case 0: s += "<IconStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(4) == 0 ? tag("colorMode", c.choose(2) ? "random" : "normal") : "") + (c.choose(2) ? tag("scale", num(c)) : "") + (c.choose(3) == 0 ? tag("heading", num(c)) : "") +
                   (c.choose(2) ? "<Icon>" + (c.choose(3) ? tag("href", "i" + std::to_string(c.choose(9)) + ".png") : "") + "</Icon>" : "") + (c.choose(3) == 0 ? "<hotSpot x=\"" + num(c) + "\" y=\"" + num(c) + "\" xunits=\"pixels\"/>" : "") + "</IconStyle>"; break;
    case 1: s += "<LabelStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(2) ? tag("scale", num(c)) : "") + "</LabelStyle>"; break;
    case 2: s += "<LineStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(3) == 0 ? tag("colorMode", c.choose(2) ? "random" : "normal") : "") + (c.choose(2) ? tag("width", num(c)) : "") + "</LineStyle>"; break;
    case 3: s += "<PolyStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(2) ? tag("fill", c.choose(2) ? "0" : "1") : "") + (c.choose(2) ? tag("outline", c.choose(2) ? "0" : "1") : "") + "</PolyStyle>"; break;
    case 4: s += "<BalloonStyle>" + (c.choose(2) ? tag("bgColor", color(c)) : "") + (c.choose(2) ? tag("textColor", color(c)) : "") + (c.choose(2) ? tag("text", "t" + std::to_string(c.choose(50))) : "") + (c.choose(3) == 0 ? tag("displayMode", c.choose(2) ? "hide" : "default") : "") + "</BalloonStyle>"; break;
    default: s += "<ListStyle>" + (c.choose(2) ? tag("listItemType", c.choose(2) ? "check" : "radioFolder") : "") + (c.choose(2) ? tag("bgColor", color(c)) : "") + (c.choose(2) ? "<ItemIcon>" + tag("state", c.choose(2) ? "open" : "error") + tag("href", "l" + std::to_string(c.choose(9))) + "</ItemIcon>" : "") + (c.choose(3) == 0 ? tag("maxSnippetLines", std::to_string(c.choose(5))) : "") + "</ListStyle>";
  }
  return s + "</Style>";
}
static std::string ref(Ctx& c) {
  static const char* kDocs[] = {"", "", "", "b.kml", "d/c.kml", "../b.kml", "z.kmz", "z.kmz/s/doc.kml", "http://h/b.kml", "http://h/z.kmz", "none.kml", "http://h/d/c.kml", "../z.kmz", "doc.kml", "c.kml"};
  std::string d = kDocs[c.choose(15)];
  static const char* kIds[] = {"s0", "s1", "s2", "s3", "s4", "p", "nowhere"};
  switch (c.choose(14)) { case 13: return d; case 12: return "not a uri #s0"; default: return d + "#" + kIds[c.choose(7)]; }
}
static std::string selector(Ctx& c, const std::string& id, int depth) {
  if (c.choose(2) || depth > 2) return style(c, id);
  std::string s = id.empty() ? "<StyleMap>" : "<StyleMap id=\"" + id + "\">";
  unsigned n = c.choose(4);
  for (unsigned i = 0; i < n; ++i) {
    s += "<Pair>";
    switch (c.choose(4)) { case 0: s += tag("key", "normal"); break; case 1: s += tag("key", "highlight"); break; case 2: s += tag("key", i % 2 ? "highlight" : "normal"); break; }
    if (c.choose(4)) s += tag("styleUrl", ref(c));
    if (c.choose(3) == 0) s += selector(c, c.chance(1, 4) ? "s9" : "", depth + 1);
    s += "</Pair>";
  }
  return s + "</StyleMap>";
}
static std::string document(Ctx& c) {
  std::string s = "<kml xmlns=\"http://www.opengis.net/kml/2.2\"><Document id=\"doc\">";
  if (c.choose(4) == 0) s += tag("styleUrl", ref(c));
  unsigned n = c.choose(6);
  for (unsigned i = 0; i < n; ++i) s += selector(c, "s" + std::to_string(c.chance(1, 8) ? c.choose(5) : i), 0);
  unsigned f = 1 + c.choose(3);
  for (unsigned i = 0; i < f; ++i) {
    s += "<Placemark id=\"f" + std::to_string(i) + "\">";
    if (c.choose(4)) s += tag("styleUrl", ref(c));
    if (c.choose(2)) s += selector(c, c.choose(3) == 0 ? "p" : "", 0);
    s += "</Placemark>";
  }
  return s + "</Document></kml>";
}

// --- model -----------------------------------------------------------------------
struct Doc { Node root; std::string url; std::map<std::string, Node> shared; };
static void collect(const Node& n, std::map<std::string, Node>* out) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    const Node& k = n.kids[i];
    if (n.name == "Document" && (k.name == "Style" || k.name == "StyleMap")) (*out)[k.attr("id") ? *k.attr("id") : ""] = k;
    collect(k, out);
  }
}
static bool load(const std::string& text, const std::string& url, Doc* d) {
  std::string why;
  if (!gen::parse(text, &d->root, &why)) return false;
  d->url = url; d->shared.clear();
  collect(d->root, &d->shared);
  return true;
}
static bool complex(const std::string& n) {
  static const std::set<std::string> k = {"IconStyle", "LabelStyle", "LineStyle", "PolyStyle", "BalloonStyle", "ListStyle", "Icon", "hotSpot", "ItemIcon"};
  return k.count(n) > 0;
}
static void merge(const Node& src, Node* dst) {
  for (size_t i = 0; i < src.attrs.size(); ++i) {
    bool found = false;
    for (size_t k = 0; k < dst->attrs.size(); ++k) if (dst->attrs[k].first == src.attrs[i].first) { dst->attrs[k].second = src.attrs[i].second; found = true; }
    if (!found) dst->attrs.push_back(src.attrs[i]);
  }
  for (size_t i = 0; i < src.kids.size(); ++i) {
    const Node& k = src.kids[i];
    Node* at = NULL;
    for (size_t j = 0; j < dst->kids.size(); ++j) if (dst->kids[j].name == k.name) { at = &dst->kids[j]; break; }
    if (!at) dst->kids.push_back(k);
    else if (complex(k.name)) merge(k, at);
    else at->text = k.text;
  }
}
static void sort_kids(Node* n) {
  for (size_t i = 0; i < n->kids.size(); ++i) sort_kids(&n->kids[i]);
  std::sort(n->kids.begin(), n->kids.end(), [](const Node& a, const Node& b) { return a.name < b.name; });
}
struct Resolver {
  Ctx& c; Model* net; std::map<std::string, std::string>* docs;  // url -> text of the document in the cache
  std::string state; int left; Node out; bool simple = true;
  void url(const std::string& u, const Doc& in) {
    if (--left < 0) { c.probe("limit reached"); return; }
    if (u.empty() || !uriutil::valid(u)) return;
    size_t h = u.find('#');
    if (h == std::string::npos || h + 1 == u.size()) return;
    std::string id = u.substr(h + 1);
    if (h == 0) {
      std::map<std::string, Node>::const_iterator i = in.shared.find(id);
      if (i != in.shared.end()) selector(i->second, in);
      return;
    }
    if (!net) return;
    std::string full, content, final_url, text;
    if (!uriutil::resolve(in.url, u, &full)) return;
    if (!docs->count(full)) {
      if (!net->fetch(in.url, u, &content, &final_url)) return;
      full = final_url;
      if (!docs->count(full)) { if (!parses(content, &text)) return; (*docs)[full] = text; }
    }
    Doc d;
    if (!load((*docs)[full], full, &d)) c.fail("model", "the model cannot read %s", full.c_str());
    std::map<std::string, Node>::iterator i = d.shared.find(id);
    if (i == d.shared.end()) return;
    c.probe("style from another document");
    selector(i->second, d);
  }
  void both(const Node& n, const Doc& in) {
    const Node* u = n.kid("styleUrl");
    url(u ? u->text : "", in);
    if (n.name == "Document") return;      // its selectors are shared styles
    for (size_t i = n.kids.size(); i-- > 0;) if (n.kids[i].name == "Style" || n.kids[i].name == "StyleMap") { selector(n.kids[i], in); break; }
  }
  void selector(const Node& s, const Doc& in) {
    if (s.name == "Style") { merge(s, &out); return; }
    for (size_t i = 0; i < s.kids.size(); ++i) {
      if (s.kids[i].name != "Pair") continue;
      const Node* k = s.kids[i].kid("key");
      if ((k ? k->text : "normal") == state) both(s.kids[i], in);
    }
  }
};
static const Node* find_feature(const Node& n, const std::string& id) {
  if ((n.name == "Placemark" || n.name == "Document") && n.attr("id") && *n.attr("id") == id) return &n;
  for (size_t i = 0; i < n.kids.size(); ++i) if (const Node* r = find_feature(n.kids[i], id)) return r;
  return NULL;
}

static void run(Ctx& c) {
  simfs::activate(true);
  g_intact.clear();
  SimNet net(c);
  static const char* kUrls[] = {"http://h/a.kml", "http://h/b.kml", "http://h/d/c.kml", "http://h/z.kmz", "http://h/c.kml"};
  for (int i = 0; i < 5; ++i) {
    if (i && c.choose(5) == 0) continue;
    if (i == 3) {
      std::vector<ziputil::Entry> es(2); es[0].name = "doc.kml"; es[0].data = document(c); es[1].name = "s/doc.kml"; es[1].data = document(c);
      if (c.choose(3) == 0) std::swap(es[0], es[1]);
      Entries st; st.push_back(std::make_pair(es[0].name, es[0].data)); st.push_back(std::make_pair(es[1].name, es[1].data));
      std::string z = ziputil::build(es); g_intact[z] = st; net.put(kUrls[i], z);
    } else net.put(kUrls[i], document(c));
  }
  kmlengine::KmlCache cache(&net, 100);
  Model m(c, net, true);
  std::map<std::string, std::string> docs;
  static const char* kRoots[] = {"http://h/a.kml", "http://h/b.kml", "http://h/z.kmz", "http://h/d/c.kml", "http://h/z.kmz/s/doc.kml"};
  unsigned ops = 1 + c.choose(6);
  for (unsigned k = 0; k < ops; ++k) {
    c.step();
    net.heal(); net.log.clear(); m.next = 0;
    // Obtain a document on a healthy network.
    std::string root = kRoots[c.choose(5)], content, final_url;
    kmlengine::KmlFilePtr f = cache.FetchKmlAbsolute(root);
    if (!docs.count(root)) {
      std::string text;
      if (m.fetch(root, root, &content, &final_url) && !docs.count(final_url) && parses(content, &text)) docs[final_url] = text;
    }
    if (!f) continue;
    Doc d; std::string whole = kmldom::SerializeRaw(f->get_root());
    if (!load(whole, f->get_url(), &d)) c.fail("model", "the model cannot read %s", root.c_str());
    std::string id = c.choose(5) == 0 ? "doc" : "f" + std::to_string(c.choose(3));
    const Node* fn = find_feature(d.root, id);
    kmldom::FeaturePtr feature = kmldom::AsFeature(f->GetObjectById(id));
    if (!fn || !feature) { c.log("%s has no %s", root.c_str(), id.c_str()); continue; }
    bool highlight = c.choose(2);
    kmldom::StyleStateEnum st = highlight ? kmldom::STYLESTATE_HIGHLIGHT : kmldom::STYLESTATE_NORMAL;
    net.rates.fail = c.choose(4) * 50; net.rates.damage = c.choose(4) * 40;
    net.log.clear(); m.next = 0;
    unsigned api = c.choose(4);
    kmldom::StylePtr got; int limit = kLimit;
    if (api == 0) {       // without a network
      kmlengine::SharedStyleMap none;
      got = kmlengine::StyleResolver::CreateResolvedStyle(feature->get_styleurl(), feature->get_styleselector(), f->get_shared_style_map(), f->get_url(), NULL, st);
    } else if (api == 1) { // with another limit
      limit = (int)c.choose(12);
      kmlengine::StyleMerger sm(f->get_shared_style_map(), f->get_kml_cache(), f->get_url(), st, (unsigned)limit);
      sm.MergeStyle(feature->get_styleurl(), feature->get_styleselector());
      got = sm.GetResolvedStyle();
    } else got = kmlengine::CreateResolvedStyle(feature, f, st);
    c.log("%s %s of %s, api %u -> %zu requests", highlight ? "highlight" : "normal", id.c_str(), f->get_url().c_str(), api, net.log.size());
    if (!got) c.fail("null", "no style was returned");
    Resolver r = {c, api == 0 ? NULL : &m, &docs, highlight ? "highlight" : "normal", limit, Node()};
    r.out.name = "Style";
    r.both(*fn, d);
    if (m.next != net.log.size()) c.fail("requests", "resolving %s of %s made %zu requests, %zu were needed; the next is %s", id.c_str(), f->get_url().c_str(), net.log.size(), m.next, net.log[m.next].url.c_str());
    if ((int)net.log.size() > 2 * limit) c.fail("unbounded", "%zu requests for one resolution", net.log.size());
    Node have; std::string why;
    if (!gen::parse(kmldom::SerializeRaw(got), &have, &why)) c.fail("ill-formed", "the resolved style is not well formed: %s", why.c_str());
    sort_kids(&have); sort_kids(&r.out);
    std::string a = gen::canon(r.out), b = gen::canon(have);
    if (a != b) c.fail("style", "%s style of %s in %s: %s", highlight ? "highlight" : "normal", id.c_str(), f->get_url().c_str(), gen::diff(a, b).c_str());
    if (kmldom::SerializeRaw(f->get_root()) != whole) c.fail("altered", "resolving changed the document");
    if (limit - r.left > 1) c.nontrivial++;
    c.state(hash_str(format("%u %d %zu %d", api, limit - r.left, net.log.size(), (int)have.kids.size())));
  }
}
SIM_PROP(C10, run);
