// C24: rewriting a document while it streams keeps its meaning.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "../core.h"
#include "../gen.h"
#include "../simstream.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/dom.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_inliner_internal.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/style_splitter_internal.h"
using namespace sim;
using gen::Node;

static const int kLimit = 5;
static const char* kHead = "<kml xmlns=\"http://www.opengis.net/kml/2.2\" xmlns:gx=\"http://www.google.com/kml/ext/2.2\">";
static std::string tag(const std::string& n, const std::string& v) { return "<" + n + ">" + v + "</" + n + ">"; }
static std::string color(Ctx& c) { static const char* k[] = {"ffffffff", "ff0000ff", "80123456", "00000000", "ff000000", "7f00ff00"}; return k[c.choose(6)]; }
static std::string num(Ctx& c) { static const char* k[] = {"1", "0", "0.5", "2", "1.25", "-3"}; return k[c.choose(6)]; }

struct Writer {
  Ctx& c; int mode; unsigned left, serial = 0; std::vector<std::string> shared;
  Writer(Ctx& c_, int m) : c(c_), mode(m), left(4 + c_.choose(24)) {}
  std::string id(const char* p) { return format(" id=\"%s%u\"", p, serial++); }
  // References to shared styles: for inlining only to ones already seen.
  std::string ref(bool pair = false) {
    unsigned k = c.choose(8);
    if (k == 0) return "#nowhere";
    if (k == 1 && !(mode == 1 && pair)) return "http://h/other.kml#s0";
    if (k == 3 && mode != 1) return format("#s%u", c.choose(6));
    if (shared.empty()) return "#nowhere";
    return "#" + c.pick(shared);
  }
  std::string style(const std::string& a) {
    std::string s = "<Style" + a + ">";
    unsigned which = c.choose(16);
    for (unsigned i = 0; i < 4; ++i) if (which >> i & 1) switch (i) {
      case 0: s += "<IconStyle" + (c.chance(1, 4) ? id("sub") : std::string()) + ">" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(2) ? tag("scale", num(c)) : "") + (c.choose(2) ? "<Icon>" + tag("href", "i" + std::to_string(c.choose(9)) + ".png") + "</Icon>" : "") + "</IconStyle>"; break;
      case 1: s += "<LineStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(2) ? tag("width", num(c)) : "") + "</LineStyle>"; break;
      case 2: s += "<PolyStyle>" + (c.choose(2) ? tag("color", color(c)) : "") + (c.choose(2) ? tag("fill", c.choose(2) ? "0" : "1") : "") + "</PolyStyle>"; break;
      default: s += "<BalloonStyle>" + (c.choose(2) ? tag("bgColor", color(c)) : "") + (c.choose(2) ? tag("text", "a &amp; &lt;b>" + std::to_string(c.choose(50))) : "") + "</BalloonStyle>";
    }
    return s + "</Style>";
  }
  std::string selector(const std::string& a, int depth, bool inl = false) {
    if (c.choose(3) || depth > 1) return style(a);
    std::string s = "<StyleMap" + a + ">";
    unsigned n = c.choose(4);
    for (unsigned i = 0; i < n; ++i) {
      s += "<Pair>";
      if (c.choose(5)) s += tag("key", i % 2 ? "highlight" : "normal");
      unsigned what = c.choose(4);
      if (what != 1 && !(mode == 1 && inl)) s += tag("styleUrl", ref(true));
      if (what == 1 || what == 2 || (mode == 1 && inl)) s += style("");
      s += "</Pair>";
    }
    return s + "</StyleMap>";
  }
  std::string feature(int depth, bool update) {
    static const char* kLeaf[] = {"Placemark", "Placemark", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "NetworkLink", "gx:Tour"};
    if (left) --left;
    bool container = depth < 5 && left && c.choose(3) == 0, doc = container && c.choose(2);
    std::string n = doc ? "Document" : container ? "Folder" : kLeaf[c.choose(7)];
    std::string s = "<" + n + (c.choose(2) ? id("f") : std::string()) + ">" + (c.choose(2) ? tag("name", "n" + std::to_string(serial++)) : "");
    bool u = c.choose(2), in = c.choose(2);
    if (mode == 1 && doc) u = false;
    if (mode != 1 && doc && c.choose(2)) u = false;
    if (u) s += tag("styleUrl", mode == 2 && c.choose(4) == 0 ? "#a" : ref());
    if (doc) s += styles(update, false);
    else if (in) s += selector(c.choose(3) == 0 ? id("in") : "", 0, true);
    if (n == "Placemark" && c.choose(2)) s += "<Point><coordinates>1,2,3</coordinates></Point>";
    if (n == "gx:Tour" && !update && c.choose(2)) s += "<gx:Playlist><gx:AnimatedUpdate>" + this->update() + "</gx:AnimatedUpdate></gx:Playlist>";
    if (container) { unsigned k = c.choose(5); for (unsigned i = 0; i < k && left; ++i) s += feature(depth + 1, update); }
    return s + "</" + n + ">";
  }
  std::string styles(bool update, bool top) {
    std::string s; unsigned n = c.choose(4);
    for (unsigned i = 0; i < n; ++i) {
      std::string sid = (top || update) && c.choose(4) == 0 ? format("_%u", c.choose(3)) : format("s%u", c.choose(6));
      if (mode == 2 && c.choose(4) == 0) sid = "a";
      bool anon = c.choose(6) == 0;
      s += selector(anon ? "" : " id=\"" + sid + "\"", 0);
      if (!anon && !update) shared.push_back(sid);
    }
    return s;
  }
  std::string update() {
    std::string s = "<Update>" + tag("targetHref", "x.kml");
    unsigned n = c.choose(3);
    for (unsigned i = 0; i < n; ++i) switch (c.choose(3)) {
      case 0: s += "<Create><Folder targetId=\"f0\">" + feature(4, true) + "</Folder></Create>"; break;
      case 1: s += "<Create><Document targetId=\"f0\">" + styles(true, false) + feature(4, true) + "</Document></Create>"; break;
      default: s += "<Change><Placemark targetId=\"f0\">" + (c.choose(2) ? tag("styleUrl", ref()) : "") + (c.choose(2) ? style("") : "") + "</Placemark></Change>";
    }
    return s + "</Update>";
  }
  std::string document() {
    std::string s = kHead;
    if (c.choose(3) == 0) s += "<NetworkLinkControl>" + update() + "</NetworkLinkControl>";
    if (c.choose(5)) { s += "<Document>" + styles(false, true); unsigned k = 1 + c.choose(5); for (unsigned i = 0; i < k; ++i) s += feature(1, false); s += "</Document>"; }
    else s += feature(0, false);
    return s + "</kml>";
  }
};

// ---- model: styles within one file ------------------------------------------------
static bool is_feature(const std::string& n) { return gen::in_group("Feature", n); }
static bool is_selector(const std::string& n) { return n == "Style" || n == "StyleMap"; }
typedef std::map<std::string, Node> Shared;
static void collect(const Node& n, Shared* out) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    const Node& k = n.kids[i];
    if (k.name == "Update") continue;
    if (n.name == "Document" && is_selector(k.name) && k.attr("id")) (*out)[*k.attr("id")] = k;
    collect(k, out);
  }
}
static bool complex(const std::string& n) { static const std::set<std::string> k = {"IconStyle", "LineStyle", "PolyStyle", "BalloonStyle", "Icon"}; return k.count(n) > 0; }
static void merge(const Node& src, Node* dst) {
  for (size_t i = 0; i < src.attrs.size(); ++i) if (src.attrs[i].first != "id") dst->attrs.push_back(src.attrs[i]);
  for (size_t i = 0; i < src.kids.size(); ++i) {
    const Node& k = src.kids[i]; Node* at = NULL;
    for (size_t j = 0; j < dst->kids.size(); ++j) if (dst->kids[j].name == k.name) { at = &dst->kids[j]; break; }
    if (!at) { dst->kids.push_back(Node()); at = &dst->kids.back(); at->name = k.name; }
    if (complex(k.name)) merge(k, at); else at->text = k.text;
  }
}
struct Resolver {
  const Shared& in; std::string state; int left; Node out; std::string remote;
  void url(const std::string& u) {
    if (--left < 0 || u.empty()) return;
    if (u[0] != '#') { remote += u + " "; return; }
    Shared::const_iterator i = in.find(u.substr(1));
    if (i != in.end()) selector(i->second);
  }
  void both(const Node& n) {
    if (const Node* u = n.kid("styleUrl")) url(u->text); else url("");
    if (n.name == "Document") return;
    for (size_t i = n.kids.size(); i-- > 0;) if (is_selector(n.kids[i].name)) { selector(n.kids[i]); break; }
  }
  void selector(const Node& s) {
    if (s.name == "Style") { merge(s, &out); return; }
    for (size_t i = 0; i < s.kids.size(); ++i) {
      if (s.kids[i].name != "Pair") continue;
      const Node* k = s.kids[i].kid("key");
      if ((k ? k->text : "normal") == state) both(s.kids[i]);
    }
  }
};
static void sort_kids(Node* n) {
  for (size_t i = 0; i < n->kids.size(); ++i) sort_kids(&n->kids[i]);
  std::sort(n->kids.begin(), n->kids.end(), [](const Node& a, const Node& b) { return a.name < b.name; });
}
static std::string resolved(const Node& f, const Shared& in, int depth = kLimit) {
  std::string r;
  for (int s = 0; s < 2; ++s) {
    Resolver v = {in, s ? "highlight" : "normal", depth, Node(), ""};
    v.out.name = "Style"; v.both(f);
    sort_kids(&v.out);
    r += (s ? " highlight:" : "normal:") + gen::canon(v.out) + v.remote;
  }
  return r;
}
static void features(const Node& n, std::vector<const Node*>* out, bool updates) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    if (!updates && n.kids[i].name == "Update") continue;
    if (is_feature(n.kids[i].name)) out->push_back(&n.kids[i]);
    features(n.kids[i], out, updates);
  }
}
static void all_ids(const Node& n, std::map<std::string, int>* out) { if (is_selector(n.name)) if (const std::string* i = n.attr("id")) ++(*out)[*i]; for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name != "Update") all_ids(n.kids[i], out); }
static void every_id(const Node& n, std::map<std::string, int>* out) { if (const std::string* i = n.attr("id")) ++(*out)[*i]; for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name != "Update") every_id(n.kids[i], out); }
static unsigned anonymous(const Node& n) { unsigned r = 0; for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name != "Update") { if (n.name == "Document" && is_selector(n.kids[i].name) && !n.kids[i].attr("id")) ++r; r += anonymous(n.kids[i]); } return r; }
static void updates(const Node& n, std::string* out) { for (size_t i = 0; i < n.kids.size(); ++i) { if (n.kids[i].name == "Update") *out += gen::canon(n.kids[i]) + "\n"; else updates(n.kids[i], out); } }
// The tree without the styles of features outside updates.
static Node bare(const Node& n) {
  Node r = n; r.kids.clear();
  for (size_t i = 0; i < n.kids.size(); ++i) {
    if (n.kids[i].name == "Update") continue;
    if (is_feature(n.name) && (is_selector(n.kids[i].name) || n.kids[i].name == "styleUrl")) continue;
    r.kids.push_back(bare(n.kids[i]));
  }
  return r;
}
static Node read(Ctx& c, const std::string& xml, const char* what) { Node n; std::string why; if (!gen::parse(xml, &n, &why)) c.fail("unreadable", "%s: %s: %s", what, why.c_str(), quote(xml, 300).c_str()); return n; }

// The shared styles seen when each feature's reference is reached.
static void walk(const Node& n, Shared* so_far, std::map<const Node*, Shared>* at) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    const Node& k = n.kids[i];
    if (k.name == "Update") continue;
    if (n.name == "Document" && is_selector(k.name) && k.attr("id")) (*so_far)[*k.attr("id")] = k;
    if (is_feature(k.name)) (*at)[&k] = *so_far;
    walk(k, so_far, at);
  }
}
static void strip_updates(Node* n) { for (size_t i = n->kids.size(); i-- > 0;) { if (n->kids[i].name == "Update") n->kids.erase(n->kids.begin() + i); else strip_updates(&n->kids[i]); } }

// ---- the run ----------------------------------------------------------------------
struct Deliver {
  // Parses with the observer from a stream that may end or fail.
  static kmldom::ElementPtr stream(Ctx& c, const std::string& s, size_t p, bool error, kmldom::ParserObserver* o, std::string* err) {
    InBuf buf(c, s, p, error, c.choose(2) ? 60 : 5000);
    std::istream in(&buf);
    std::unique_ptr<kmlengine::KmlStream> ks(kmlengine::KmlStream::ParseFromIstream(&in, err, o));
    return ks ? ks->get_root() : NULL;
  }
};

static void run(Ctx& c) {
  int mode = (int)c.choose(3);
  Writer w(c, mode);
  std::string s = w.document();
  c.note("%s", s.c_str());
  Node n = read(c, s, "harness");
  Shared sh; collect(n, &sh);
  std::vector<const Node*> fs; features(n, &fs, false);
  bool stream = c.choose(3) != 0, error = false; size_t p = s.size();
  if (stream && c.choose(3) == 0) { p = c.choose((uint32_t)s.size() + 1); error = c.choose(2); if (!error) c.fault("input ends early"); }
  std::string err;
  kmldom::ElementPtr root;
  if (mode < 2) {
    kmlengine::SharedStyleMap made;
    kmlengine::StyleSplitter sp(&made);
    kmlengine::StyleInliner in;
    kmldom::ParserObserver* o = mode ? (kmldom::ParserObserver*)&in : &sp;
    if (stream) root = Deliver::stream(c, s, p, error, o, &err);
    else root = mode ? kmlengine::InlineStyles(s, &err) : kmlengine::SplitStyles(s, &err);
    bool whole = p == s.size() && !error;
    c.log("%s %s %zu of %zu bytes error=%d -> %d", mode ? "inline" : "split", stream ? "stream" : "string", p, s.size(), error, root != NULL);
    if (!root) { if (whole) c.fail("refused", "a well-formed document is refused: %s", err.c_str()); if (err.empty()) c.fail("no-message", "no error message"); return; }
    if (!whole) c.fail("partial", "input ending after %zu of %zu bytes gives a document", p, s.size());
    std::string xml = kmldom::SerializeRaw(root);
    c.note("result %s", xml.c_str());
    Node m = read(c, xml, "result");
    std::string u0, u1; updates(n, &u0); updates(m, &u1);
    if (u0 != u1) c.fail("update", "content of an update was changed: %s", gen::diff(u0, u1).c_str());
    std::string b0 = gen::canon(bare(n)), b1 = gen::canon(bare(m));
    if (b0 != b1) c.fail("content", "more than styles was changed: %s", gen::diff(b0, b1).c_str());
    Shared sm; collect(m, &sm);
    std::vector<const Node*> fm; features(m, &fm, false);
    if (fs.size() != fm.size()) c.fail("content", "%zu features became %zu", fs.size(), fm.size());
    if (mode == 0) {
      std::map<std::string, int> i0, i1; all_ids(n, &i0); all_ids(m, &i1);
      for (std::map<std::string, int>::iterator i = i1.begin(); i != i1.end(); ++i) if (i->second > 1 && i->second > i0[i->first]) c.fail("duplicate-id", "splitting gave the id %s to a second style", i->first.c_str());
      bool own = false; for (std::map<std::string, int>::iterator i = i0.begin(); i != i0.end(); ++i) if (i->first[0] == '_') own = true;
      bool doc = false; unsigned moved = 0;
      for (size_t i = 0; i < fs.size(); ++i) {
        const Node& a = *fs[i]; const Node& b = *fm[i];
        bool inl = a.kid("Style") || a.kid("StyleMap");
        if (a.name == "Document") doc = true;
        else if (!a.kid("styleUrl") && inl && doc && !own) { ++moved; if (b.kid("Style") || b.kid("StyleMap") || !b.kid("styleUrl")) c.fail("not-split", "the inline style of feature %zu (%s) was not moved", i, a.name.c_str()); }
        else if (a.kid("styleUrl") && (!b.kid("styleUrl") || b.kid("styleUrl")->text != a.kid("styleUrl")->text)) c.fail("reference", "the reference of feature %zu changed", i);
        std::string x = resolved(a, sh), y = resolved(b, sm);
        if (x != y) c.fail("appearance", "feature %zu (%s) no longer looks the same: %s", i, a.name.c_str(), gen::diff(x, y).c_str());
      }
      if (moved) { c.nontrivial = 1; c.probe("styles moved"); }
      c.state(hash_str(format("s %zu %u %zu %zu", fs.size(), moved, sh.size(), sm.size())));
    } else {
      std::map<const Node*, Shared> seen; Shared so_far; walk(n, &so_far, &seen);
      Shared none; unsigned moved = 0;
      std::map<std::string, int> i0, i1; every_id(n, &i0); every_id(m, &i1);
      for (std::map<std::string, int>::iterator i = i1.begin(); i != i1.end(); ++i) if (i->second > 1 && i->second > i0[i->first]) c.fail("duplicate-id", "inlining gave the id %s to a second element", i->first.c_str());
      if (anonymous(n) != anonymous(m)) c.fail("content", "%u styles without id in documents became %u", anonymous(n), anonymous(m));
      for (Shared::iterator i = sm.begin(); i != sm.end(); ++i) c.fail("kept", "shared style %s is still there", i->first.c_str());
      for (size_t i = 0; i < fs.size(); ++i) {
        const Node& a = *fs[i]; const Node& b = *fm[i];
        if (a.name == "Document") continue;
        const Node* u = a.kid("styleUrl");
        bool known = u && u->text[0] == '#' && seen[&a].count(u->text.substr(1));
        if (known) ++moved;
        if (known ? b.kid("styleUrl") != NULL : u && (!b.kid("styleUrl") || b.kid("styleUrl")->text != u->text)) c.fail("reference", "feature %zu (%s): %s", i, a.name.c_str(), known ? "a reference was not inlined" : "a reference that could not be inlined changed");
        std::string x = resolved(a, seen[&a]), y = resolved(b, none);
        if (x != y) c.fail("appearance", "feature %zu (%s) no longer looks the same: %s", i, a.name.c_str(), gen::diff(x, y).c_str());
      }
      if (moved) { c.nontrivial = 1; c.probe("styles inlined"); }
      c.state(hash_str(format("i %zu %u %zu", fs.size(), moved, sh.size())));
    }
    return;
  }
  // Collecting features and styles.
  kmlconvenience::FeatureList list; kmlengine::SharedStyleMap map;
  bool with_map = c.choose(3) != 0, with_base = c.choose(2);
  kmlconvenience::KmlFeatureListSaver saver(&list, with_map ? &map : NULL, with_base ? "styles.kml" : NULL);
  if (stream) root = Deliver::stream(c, s, p, error, &saver, &err);
  else { kmldom::Parser q; q.AddObserver(&saver); root = q.Parse(s, &err); }
  bool whole = p == s.size() && !error;
  if ((root != NULL) != whole) c.fail("outcome", "%zu of %zu bytes, error=%d: %s", p, s.size(), error, root ? "a document" : err.c_str());
  std::vector<const Node*> want;
  for (size_t i = 0; i < fs.size(); ++i) if (fs[i]->name != "Folder" && fs[i]->name != "Document") want.push_back(fs[i]);
  kmldom::DocumentPtr d = kmldom::KmlFactory::GetFactory()->CreateDocument();
  size_t got = list.Size();
  c.log("save map=%d base=%d %zu of %zu bytes error=%d -> %zu of %zu features", with_map, with_base, p, s.size(), error, got, want.size());
  list.Save(d);
  if (d->get_feature_array_size() != got) c.fail("count", "the list of %zu features saves %zu", got, d->get_feature_array_size());
  if (whole ? got != want.size() : got > want.size()) c.fail("count", "%zu features collected from a document with %zu (%zu of %zu bytes)", got, want.size(), p, s.size());
  for (size_t i = 0; i < got; ++i) {
    Node f = read(c, kmldom::SerializeRaw(d->get_feature_array_at(i)), "collected feature"), e = *want[i];
    for (size_t k = 0; k < e.kids.size(); ++k) if (with_base && e.kids[k].name == "styleUrl" && e.kids[k].text[0] == '#') e.kids[k].text = "styles.kml" + e.kids[k].text;
    strip_updates(&f); strip_updates(&e);
    std::string x = gen::canon(e), y = gen::canon(f);
    if (x != y) c.fail("feature", "feature %zu was collected altered: %s", i, gen::diff(x, y).c_str());
  }
  Node done; if (with_map) for (kmlengine::SharedStyleMap::iterator i = map.begin(); i != map.end(); ++i) {
    Node f = read(c, kmldom::SerializeRaw(i->second), "collected style");
    if (!sh.count(i->first) || (whole && gen::canon(sh[i->first]) != gen::canon(f))) c.fail("style", "style %s was collected altered", i->first.c_str());
  }
  if (whole && with_map && map.size() != sh.size()) c.fail("style", "%zu of %zu shared styles collected", map.size(), sh.size());
  if (root) {
    Node m = read(c, kmldom::SerializeRaw(root), "rest");
    std::vector<const Node*> fm; features(m, &fm, false);
    for (size_t i = 0; i < fm.size(); ++i) if (fm[i]->name != "Folder" && fm[i]->name != "Document") c.fail("rest", "a collected feature (%s) is still in the document", fm[i]->name.c_str());
    Shared sm; collect(m, &sm);
    if (with_map ? !sm.empty() : sm.size() != sh.size()) c.fail("rest", "%zu of %zu shared styles remain in the document", sm.size(), sh.size());
  }
  if (got) c.nontrivial = 1;
  c.state(hash_str(format("c %d %d %zu %zu %d", with_map, with_base, got, map.size(), whole)));
}
SIM_PROP(C24, run);
