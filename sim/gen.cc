#include "gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
using namespace sim;

namespace gen {

// Grammar: one line per element, children in the order the schema prescribes.
// Slot syntax: name:type with type s string, b bool, d number, i integer,
// c colour, u reference, t time, e=a|b|c enumeration; "Name" a child element;
// "%Group" one of a substitution group; a trailing * repeats.
#define FEATURE1 "name:s visibility:b open:b atom:author atom:link address:s phoneNumber:s xal:AddressDetails Snippet description:s %View %Time styleUrl:u "
#define FEATURE2 "Region ExtendedData gx:balloonVisibility:b "
#define FEATURE FEATURE1 "%Style " FEATURE2
#define ALT "altitudeMode:e=clampToGround|relativeToGround|absolute gx:altitudeMode:e=clampToSeaFloor|relativeToSeaFloor "
#define COLORSTYLE "color:c colorMode:e=normal|random "
#define LINK "href:u refreshMode:e=onChange|onInterval|onExpire refreshInterval:d viewRefreshMode:e=never|onRequest|onStop|onRegion viewRefreshTime:d viewBoundScale:d viewFormat:s httpQuery:s "
struct Rule { const char* name; const char* slots; };
static const Rule kRules[] = {
  {"Document", FEATURE1 "%Style* " FEATURE2 "Schema* %Feature*"},
  {"Folder", FEATURE "%Feature*"},
  {"Placemark", FEATURE "%Geometry"},
  {"NetworkLink", FEATURE "refreshVisibility:b flyToView:b %NLink"},
  {"Url", LINK},
  {"GroundOverlay", FEATURE "color:c drawOrder:i Icon altitude:d " ALT "LatLonBox gx:LatLonQuad"},
  {"ScreenOverlay", FEATURE "color:c drawOrder:i Icon overlayXY screenXY rotationXY size rotation:d"},
  {"PhotoOverlay", FEATURE "color:c drawOrder:i Icon rotation:d ViewVolume ImagePyramid Point shape:e=rectangle|cylinder|sphere"},
  {"gx:Tour", FEATURE "gx:Playlist"},
  {"gx:Playlist", "%Tour*"},
  {"gx:FlyTo", "gx:duration:d gx:flyToMode:e=bounce|smooth %View"},
  {"gx:Wait", "gx:duration:d"},
  {"gx:AnimatedUpdate", "gx:duration:d Update"},
  {"gx:SoundCue", "href:u"},
  {"gx:TourControl", "gx:playMode:e=pause"},
  {"Point", "extrude:b " ALT "coordinates:p"},
  {"LineString", "extrude:b tessellate:b " ALT "coordinates:l"},
  {"LinearRing", "extrude:b tessellate:b " ALT "coordinates:l"},
  {"Polygon", "extrude:b tessellate:b " ALT "outerBoundaryIs innerBoundaryIs*"},
  {"outerBoundaryIs", "LinearRing"},
  {"innerBoundaryIs", "LinearRing"},
  {"MultiGeometry", "%Geometry*"},
  {"Model", ALT "Location Orientation Scale Link ResourceMap"},
  {"gx:Track", ALT "when:t* gx:coord:v* gx:angles:v* Model ExtendedData"},
  {"gx:MultiTrack", "gx:interpolate:b gx:Track*"},
  {"Location", "longitude:d latitude:d altitude:d"},
  {"Orientation", "heading:d tilt:d roll:d"},
  {"Scale", "x:d y:d z:d"},
  {"ResourceMap", "Alias*"},
  {"Alias", "targetHref:u sourceHref:u"},
  {"LookAt", "%GxTime longitude:d latitude:d altitude:d heading:d tilt:d range:d " ALT},
  {"Camera", "%GxTime longitude:d latitude:d altitude:d heading:d tilt:d roll:d " ALT},
  {"TimeStamp", "when:t"},
  {"TimeSpan", "begin:t end:t"},
  {"gx:TimeStamp", "when:t"},
  {"gx:TimeSpan", "begin:t end:t"},
  {"Region", "LatLonAltBox Lod"},
  {"LatLonAltBox", "north:d south:d east:d west:d minAltitude:d maxAltitude:d " ALT},
  {"LatLonBox", "north:d south:d east:d west:d rotation:d"},
  {"gx:LatLonQuad", "coordinates:l"},
  {"Lod", "minLodPixels:d maxLodPixels:d minFadeExtent:d maxFadeExtent:d"},
  {"Link", LINK},
  {"Icon", LINK},
  {"Style", "IconStyle LabelStyle LineStyle PolyStyle BalloonStyle ListStyle"},
  {"StyleMap", "Pair*"},
  {"Pair", "key:e=normal|highlight styleUrl:u %Style"},
  {"IconStyle", COLORSTYLE "scale:d heading:d IconStyleIcon hotSpot"},
  {"IconStyleIcon", "href:u gx:x:d gx:y:d gx:w:d gx:h:d"},
  {"LabelStyle", COLORSTYLE "scale:d"},
  {"LineStyle", COLORSTYLE "width:d"},
  {"PolyStyle", COLORSTYLE "fill:b outline:b"},
  {"BalloonStyle", "bgColor:c textColor:c text:s displayMode:e=default|hide"},
  {"ListStyle", "listItemType:e=check|radioFolder|checkOffOnly|checkHideChildren bgColor:c ItemIcon* maxSnippetLines:i"},
  {"ItemIcon", "state:L=open|closed|error|fetching0|fetching1|fetching2 href:u"},
  {"ExtendedData", "Data* SchemaData*"},
  {"Data", "displayName:s value:s"},
  {"SchemaData", "SimpleData* gx:SimpleArrayData*"},
  {"gx:SimpleArrayData", "gx:value:s*"},
  {"Schema", "SimpleField* gx:SimpleArrayField*"},
  {"gx:SimpleArrayField", "displayName:s"},
  {"SimpleField", "displayName:s"},
  {"atom:author", "atom:name:s atom:uri:s atom:email:s"},
  {"xal:AddressDetails", "xal:Country"},
  {"xal:Country", "xal:CountryNameCode:s xal:AdministrativeArea"},
  {"xal:AdministrativeArea", "xal:AdministrativeAreaName:s xal:Locality xal:SubAdministrativeArea"},
  {"xal:SubAdministrativeArea", "xal:SubAdministrativeAreaName:s xal:Locality"},
  {"xal:Locality", "xal:LocalityName:s xal:Thoroughfare xal:PostalCode"},
  {"xal:Thoroughfare", "xal:ThoroughfareNumber:s xal:ThoroughfareName:s"},
  {"xal:PostalCode", "xal:PostalCodeNumber:s"},
  {"ViewVolume", "leftFov:d rightFov:d bottomFov:d topFov:d near:d"},
  {"ImagePyramid", "tileSize:i maxWidth:i maxHeight:i gridOrigin:e=lowerLeft|upperLeft"},
  {"NetworkLinkControl", "minRefreshPeriod:d maxSessionLength:d cookie:s message:s linkName:s linkDescription:s linkSnippet expires:t Update %View"},
  {"Update", "targetHref:u %Operation*"},
  {"Create", "%Container*"},
  {"Change", "%Feature*"},
  {"Delete", "%Feature*"},
};
static const std::map<std::string, std::vector<std::string> >& groups() {
  static std::map<std::string, std::vector<std::string> >* g = NULL;
  if (!g) {
    g = new std::map<std::string, std::vector<std::string> >;
    (*g)["Feature"] = {"Placemark", "Folder", "Placemark", "Document", "NetworkLink", "GroundOverlay", "ScreenOverlay", "PhotoOverlay", "gx:Tour"};
    (*g)["Container"] = {"Folder", "Document"};
    (*g)["Geometry"] = {"Point", "LineString", "Polygon", "MultiGeometry", "LinearRing", "Model", "gx:Track", "gx:MultiTrack"};
    (*g)["View"] = {"LookAt", "Camera"};
    (*g)["Time"] = {"TimeStamp", "TimeSpan"};
    (*g)["GxTime"] = {"gx:TimeStamp", "gx:TimeSpan"};
    (*g)["Style"] = {"Style", "StyleMap"};
    (*g)["Tour"] = {"gx:FlyTo", "gx:Wait", "gx:SoundCue", "gx:TourControl", "gx:AnimatedUpdate"};
    (*g)["NLink"] = {"Link", "Link", "Url"};
    (*g)["Operation"] = {"Create", "Change", "Delete"};
  }
  return *g;
}
struct Slot { std::string name, type, arg; bool group, repeat; };
static const std::vector<Slot>* slots(const std::string& name) {
  static std::map<std::string, std::vector<Slot> >* m = NULL;
  if (!m) {
    m = new std::map<std::string, std::vector<Slot> >;
    for (size_t i = 0; i < sizeof kRules / sizeof kRules[0]; ++i) {
      std::vector<Slot>& v = (*m)[kRules[i].name];
      std::string s = kRules[i].slots; size_t p = 0;
      while (p < s.size()) {
        size_t e = s.find(' ', p); if (e == std::string::npos) e = s.size();
        std::string w = s.substr(p, e - p); p = e + 1;
        if (w.empty()) continue;
        Slot t; t.group = w[0] == '%'; t.repeat = w[w.size() - 1] == '*';
        if (t.group) w = w.substr(1);
        if (t.repeat) w.resize(w.size() - 1);
        size_t eq = w.find('='); if (eq != std::string::npos) { t.arg = w.substr(eq + 1); w = w.substr(0, eq); }
        // The type is a single character after the last colon.
        if (w.size() > 2 && w[w.size() - 2] == ':') { t.type = w.substr(w.size() - 1); w.resize(w.size() - 2); }
        t.name = w;
        v.push_back(t);
      }
    }
  }
  std::map<std::string, std::vector<Slot> >::const_iterator i = m->find(name);
  return i == m->end() ? NULL : &i->second;
}

std::string number(Ctx& c) {
  char b[64];
  switch (c.choose(7)) {
    case 6: { static const char* const e[] = {"0", "1", "-1", "0.5", "4", "90", "-90", "180", "-180", "128", "256", "360"}; return e[c.choose(3) ? c.choose(2) : c.choose(12)]; }
    case 0: return std::to_string((int)c.choose(360) - 180);
    case 1: snprintf(b, sizeof b, "%d.%d", (int)c.choose(180), 1 + 2 * (int)c.choose(5)); return b;
    case 2: snprintf(b, sizeof b, "-%d.%03d1", (int)c.choose(180), (int)c.choose(1000)); return b;
    case 3: snprintf(b, sizeof b, "%d.%09d%d", 1 + (int)c.choose(99999), (int)c.choose(1000000000), 1 + (int)c.choose(9)); b[15] = 0; if (b[14] == '0') b[14] = '7'; return b;
    case 4: { static const char* const e[] = {"0", "1e-05", "1.5e-07", "1e+20", "-1e-300", "123456789012345", "0.1", "-0.0001", "1.23456789012345e+100"}; return e[c.choose(9)]; }
    default: return std::to_string(c.choose(100));
  }
}

std::string text(Ctx& c, bool hard) {
  static const char* const words[] = {"name", "hello world", "x", "Z\xc3\xbcrich", "\xe6\xbc\xa2\xe5\xad\x97", "\xf0\x9f\x8c\x8d", "0", "true", "a,b", "  padded  ", "line\nbreak", "tab\there", "\nfirst line empty", "last line\n"};
  static const char* const hards[] = {"a & b", "<b>bold</b>", "a < b > c", "say \"hi\" & 'bye'", "]]>", "x]]>y]]>z", "<![CDATA[z]]>", "a &amp; b", "&lt;", "cr\rhere", "]]", "&&&", "<br/>", "\xc2\xa0", "$[name]", "%", "--", "a\r\nb"};
  switch (c.choose(hard ? 4 : 3)) {
    case 0: return words[c.choose(14)];
    case 1: if (hard && c.chance(1, 8)) return "<description>in</description>"; return "t" + std::to_string(c.choose(1000));
    case 2: {
      std::string s; uint32_t n = c.size_upto(hard ? 9000 : 200); uint64_t seed = c.seed64(); Rng r(seed);
      while (s.size() < n) { s += words[r.next() % 14]; if (hard && r.next() % 4 == 0) s += hards[r.next() % 18]; }
      return s.empty() ? "t" : s;
    }
    default: return hards[c.choose(18)];
  }
}

static std::string short_text(Ctx& c) {
  static const char* const t[] = {"plain", "a & b", "<x>", "q\"q", "a'b", "tab\there", "new\nline", "cr\rx", "\xc3\xa9", "]]>", "", "&amp;"};
  return t[c.choose(12)];
}

struct Gen {
  Ctx& c; Opts o; unsigned used = 0, next_id = 0; std::vector<std::string> ids;
  Gen(Ctx& c_, const Opts& o_) : c(c_), o(o_) {}
  std::string newid() { std::string s = o.id_prefix + std::to_string(next_id++); ids.push_back(s); return s; }
  std::string ref() {
    switch (c.choose(5)) {
      case 0: return ids.empty() ? "#none" : "#" + c.pick(ids);
      case 1: return "other.kml#s" + std::to_string(c.choose(3));
      case 2: return "http://host.com/p.kml?a=1&b=2#f";
      case 3: return "images/i" + std::to_string(c.choose(5)) + ".png";
      default: return "#" + o.id_prefix + std::to_string(c.choose(10));
    }
  }
  std::string vec(char sep) { std::string a = number(c), b = number(c), d = number(c); return a + sep + b + sep + d; }
  std::string leaf(const Slot& s) {
    switch (s.type[0]) {
      case 's': return c.chance(1, 12) ? std::string() : text(c, o.hard_text);
      case 'b': return c.choose(2) ? "1" : "0";
      case 'd': return number(c);
      case 'i': {
        static const int e[] = {0, 1, -1, 2, 4, 128, 256, 2147483647};
        return std::to_string(c.choose(3) ? (int)c.choose(2000) - 100 : e[c.choose(2) ? c.choose(2) : c.choose(8)]);
      }
      case 'c': {
        static const char* const e[] = {"ffffffff", "00000000", "00ffffff", "ff000000"};
        if (!c.choose(3)) return e[c.choose(4)];
      char b[16]; snprintf(b, sizeof b, "%08x", (unsigned)c.seed64()); return b; }
      case 'u': return ref();
      case 't': { static const char* const t[] = {"1997", "1997-07", "1997-07-16", "1997-07-16T07:30:15Z", "2008-10-05T16:00:00+03:00"}; return t[c.choose(5)]; }
      case 'L': { Slot one = s; one.type = "e"; std::string v = leaf(one); if (c.choose(3) == 0) for (unsigned i = 1 + c.choose(3); i > 0; --i) v += " " + leaf(one); return v; }
      case 'e': {
        std::vector<std::string> v; size_t p = 0;
        while (p <= s.arg.size()) { size_t e = s.arg.find('|', p); if (e == std::string::npos) e = s.arg.size(); v.push_back(s.arg.substr(p, e - p)); p = e + 1; }
        return c.pick(v);
      }
      case 'p': return vec(',');
      case 'l': { std::string r; unsigned n = c.choose(6); if (c.chance(1, 30)) n = 200; for (unsigned i = 0; i < n; ++i) r += (i ? " " : "") + vec(','); return r; }
      case 'v': return vec(' ');
    }
    return "";
  }
  Node unknown_node() {
    Node n; n.unknown = true; static const char* const names[] = {"unk", "ext:thing", "Foo", "x-y.z"}; n.name = names[c.choose(4)];
    if (c.chance(1, 2)) n.attrs.push_back(std::make_pair("q", o.hard_text ? (c.chance(1, 2) ? "a&b<c\"" : "v") : "v"));
    if (c.chance(1, 6)) for (unsigned i = 1 + c.choose(7); i > 0; --i) n.attrs.push_back(std::make_pair("r" + std::to_string(i), std::to_string(i)));
    if (c.chance(1, 2)) n.text = text(c, o.hard_text);
    else { unsigned k = c.choose(3); for (unsigned i = 0; i < k && used < o.budget; ++i) { ++used; Node m; m.unknown = true; static const char* const subs[] = {"sub", "sub", "description", "name", "Placemark", "Schema", "coordinates"}; m.name = subs[c.choose(7)]; m.text = c.chance(1, 2) ? text(c, o.hard_text) : ""; n.kids.push_back(m); } }
    return n;
  }
  static bool in_any(const std::string& g, const std::string& n) { const std::vector<std::string>& v = groups().find(g)->second; return std::find(v.begin(), v.end(), n) != v.end(); }
  static bool is_object(const std::string& n) {
    static const char* const no[] = {"ExtendedData", "SimpleField", "SimpleData", "Create", "Change", "Delete", "Update", "NetworkLinkControl", "outerBoundaryIs", "innerBoundaryIs", "atom:author", "atom:link", "xal:", "gx:SimpleArrayData", "gx:SimpleArrayField", "gx:Playlist", "hotSpot", "overlayXY", "screenXY", "rotationXY", "size", "Snippet", "linkSnippet", "Schema", "SchemaData", "Data"};
    for (size_t i = 0; i < sizeof no / sizeof no[0]; ++i) if (n == no[i] || (strcmp(no[i], "xal:") == 0 && n.compare(0, 4, "xal:") == 0)) return false;
    return true;
  }
  Node make(const std::string& name, unsigned depth) {
    ++used;
    Node n; n.name = name;
    // Elements with attributes or text of their own.
    if (name == "Snippet" || name == "linkSnippet") { if (c.choose(2)) n.attrs.push_back(std::make_pair("maxLines", std::to_string(c.choose(9)))); n.text = text(c, o.hard_text); return n; }
    if (name == "SimpleData") { n.attrs.push_back(std::make_pair("name", "f" + std::to_string(c.choose(5)))); n.text = text(c, o.hard_text); return n; }
    if (name == "atom:link") { n.attrs.push_back(std::make_pair("href", o.hard_text && c.choose(2) ? "http://h/?a=1&b=2" : "http://h/")); if (c.choose(2)) n.attrs.push_back(std::make_pair("rel", "self")); return n; }
    if (name == "hotSpot" || name == "overlayXY" || name == "screenXY" || name == "rotationXY" || name == "size") {
      if (c.choose(4)) n.attrs.push_back(std::make_pair("x", number(c))); if (c.choose(4)) n.attrs.push_back(std::make_pair("y", number(c)));
      static const char* const u[] = {"fraction", "pixels", "insetPixels"};
      if (c.choose(2)) n.attrs.push_back(std::make_pair("xunits", u[c.choose(3)])); if (c.choose(2)) n.attrs.push_back(std::make_pair("yunits", u[c.choose(3)]));
      return n;
    }
    if (name == "Data" || name == "gx:SimpleArrayData") n.attrs.push_back(std::make_pair("name", o.hard_text && c.chance(1, 4) ? short_text(c) : "d" + std::to_string(c.choose(6))));
    if (name == "SchemaData") n.attrs.push_back(std::make_pair("schemaUrl", ref()));
    if (name == "Schema") { n.attrs.push_back(std::make_pair("name", "schema" + std::to_string(c.choose(3)))); if (o.ids && c.choose(2)) n.attrs.push_back(std::make_pair("id", newid())); }
    if (name == "SimpleField" || name == "gx:SimpleArrayField") { n.attrs.push_back(std::make_pair("type", "int")); n.attrs.push_back(std::make_pair("name", "f" + std::to_string(c.choose(5)))); }
    if (o.ids && is_object(name) && c.choose(3) != 0) n.attrs.push_back(std::make_pair("id", newid()));
    if (is_object(name) && c.chance(1, 20)) n.attrs.push_back(std::make_pair("targetId", "tgt" + std::to_string(c.choose(5))));
    if (o.unknown && c.chance(1, 16)) {
      static const char* const names[] = {"zz-unknown", "zz-unknown", "Id", "xmlnsish", "ext:a", "idx"};
      unsigned w = c.choose(6);
      for (unsigned i = c.choose(4) ? 1 : 2 + c.choose(3); i > 0 && w < 6; --i, ++w) if (!n.attr(names[w])) n.attrs.push_back(std::make_pair(names[w], o.hard_text ? short_text(c) : "v"));
      if (o.bulk && c.chance(1, 12)) for (unsigned i = 6 + c.choose(30); i > 0; --i) n.attrs.push_back(std::make_pair("un" + std::to_string(i), std::to_string(i)));
    }
    const std::vector<Slot>* sl = slots(name == "Icon" && false ? "" : name);
    if (!sl || sl->empty()) return n;
    // Choose which slots to fill.
    std::vector<unsigned> count(sl->size(), 0);
    unsigned fill = depth == 0 ? 2 + c.choose(4) : c.choose(5);
    if (c.chance(1, 12)) fill += 8;
    for (unsigned i = 0; i < fill; ++i) {
      // Favour the last slots of containers and placemarks: the substance.
      unsigned k = c.choose(3) == 0 ? (unsigned)sl->size() - 1 : c.choose((uint32_t)sl->size());
      if (count[k] == 0 || (*sl)[k].repeat) count[k] += (*sl)[k].repeat ? 1 + c.choose(2) : 1;
    }
    for (unsigned k = 0; k < sl->size(); ++k) {
      const Slot& s = (*sl)[k];
      if (!o.gx && (s.name.compare(0, 3, "gx:") == 0 || s.name == "GxTime" || s.name == "Tour")) continue;
      for (unsigned i = 0; i < count[k]; ++i) {
        if (used >= o.budget) break;
        if (!s.type.empty()) { ++used; Node f; f.name = s.name; f.text = leaf(s); n.kids.push_back(f); continue; }
        if (depth + 1 > o.max_depth) continue;
        std::string kid = s.name;
        if (s.group) { const std::vector<std::string>& g = groups().find(s.name)->second; kid = c.pick(g); if (!o.gx && kid.compare(0, 3, "gx:") == 0) kid = g[0]; if (!o.animated && kid == "gx:AnimatedUpdate") kid = "gx:Wait"; }
        n.kids.push_back(make(kid, depth + 1));
      }
    }
    if (o.misplaced && c.chance(1, 10) && used + 2 < o.budget) {   // known elements where they do not belong are kept after the others
      static const char* const kWrong[] = {"Lod", "Scale", "BalloonStyle", "tilt", "listItemType", "Point", "Region", "Metadata", "snippet"};
      for (unsigned i = c.chance(1, 10) ? 6 + c.choose(20) : 1 + c.choose(2); i > 0; --i) {
        std::string w = kWrong[c.choose(9)]; bool fits = name == w || (name == "Change" && w != "tilt" && w != "listItemType" && w != "Metadata" && w != "snippet");   // a Change takes any object
       
        for (size_t k = 0; k < sl->size(); ++k) { const Slot& s = (*sl)[k]; if (s.group ? in_any(s.name, w) : s.name == w) fits = true; }
        if (fits) continue;
        if (w == "Metadata") { ++used; Node f; f.name = w; if (c.choose(3)) f.kids.push_back(unknown_node()); n.kids.push_back(f); continue; }
        if (w == "tilt" || w == "listItemType" || w == "snippet") { ++used; Node f; f.name = w; f.text = w == "tilt" ? "12.5" : w == "snippet" ? "<b>in short" : "radioFolder"; n.kids.push_back(f); continue; }
        Opts keep = o; o.ids = false; o.unknown = false; o.misplaced = false; n.kids.push_back(make(w, depth + 1)); o = keep;
      }
    }
    if (o.unknown && c.chance(1, 10) && used < o.budget) { ++used; n.kids.push_back(unknown_node()); if (c.choose(3) == 0) { ++used; n.kids.push_back(unknown_node()); } else if (o.bulk && c.chance(1, 12)) for (unsigned i = 6 + c.choose(30); i > 0; --i) { Node u; u.unknown = true; u.name = "unk"; u.text = std::to_string(i); n.kids.push_back(u); } }
    return n;
  }
};

bool takes_id(const std::string& name) { return Gen::is_object(name); }
bool in_group(const std::string& group, const std::string& name) { const std::vector<std::string>& g = groups().find(group)->second; return std::find(g.begin(), g.end(), name) != g.end(); }
bool slot_of(const std::string& parent, const std::string& child, SlotInfo* out) {
  const std::vector<Slot>* sl = slots(parent);
  if (!sl) return false;
  for (size_t i = 0; i < sl->size(); ++i) {
    const Slot& s = (*sl)[i];
    if (s.group ? !in_group(s.name, child) : s.name != child) continue;
    out->index = (int)i; out->repeat = s.repeat; out->simple = !s.type.empty() && s.name != "coordinates";
    return true;
  }
  return false;
}
// Equal neighbours: what is there twice has to stay there twice.
static bool has_ids(const Node& n) { if (n.attr("id")) return true; for (const Node& k : n.kids) if (has_ids(k)) return true; return false; }
static void twins(Ctx& c, Node* n, unsigned* left) {
  static const char* const feats[] = {"Placemark", "GroundOverlay", "ScreenOverlay", "NetworkLink", "Folder"};
  static const char* const geoms[] = {"Point", "LineString", "Polygon"};
  if (n->unknown) return;
  if (n->name == "coordinates" && *left && c.chance(1, 2)) {
    size_t b = n->text.find_first_not_of(" \n\t\r"), e = b == std::string::npos ? b : n->text.find_first_of(" \n\t\r", b);
    if (e != std::string::npos) { n->text = n->text.substr(b, e - b) + " " + n->text.substr(b); --*left; }
    return;
  }
  bool box = n->name == "Folder" || n->name == "Document", multi = n->name == "MultiGeometry";
  for (size_t i = 0; i < n->kids.size(); ++i) {
    twins(c, &n->kids[i], left);
    if (!*left) return;
    const std::string& k = n->kids[i].name; bool fit = false;
    if (n->kids[i].unknown) continue;
    if (box) for (const char* f : feats) fit |= k == f;
    if (multi) for (const char* f : geoms) fit |= k == f;
    if (n->name == "ExtendedData") fit |= k == "Data";
    if (n->name == "gx:Track") fit |= k == "when" || k == "gx:coord" || k == "gx:angles";
    if (fit && !has_ids(n->kids[i]) && c.chance(1, 3)) { Node t = n->kids[i]; n->kids.insert(n->kids.begin() + i, t); ++i; --*left; }
  }
}
static void maybe_twins(Ctx& c, const Opts& o, Node* n) { if (o.twins && c.chance(1, 5)) { unsigned left = 1 + c.choose(4); twins(c, n, &left); } }

Node element(Ctx& c, const Opts& o, const std::string& name) { Gen g(c, o); Node n = g.make(name, 0); maybe_twins(c, o, &n); return n; }

bool other_root(sim::Ctx& c, Node* n) {
  Node r = *n; bool any = false;
  for (unsigned depth = 1 + c.choose(3); depth > 0; --depth) {
    std::vector<size_t> v;
    for (size_t i = 0; i < r.kids.size(); ++i) { const Node& k = r.kids[i]; if (!k.unknown && isupper((unsigned char)k.name[0]) && k.name != "Metadata" && k.name != "Icon" && !k.kids.empty()) v.push_back(i); }
    if (v.empty()) break;
    Node k = r.kids[c.pick(v)];
    for (auto& a : r.attrs) if (a.first.compare(0, 5, "xmlns") == 0 && !k.attr(a.first)) k.attrs.push_back(a);
    r = k; any = true;
  }
  if (any) *n = r;
  return any;
}

Node document(Ctx& c, const Opts& o) {
  Gen g(c, o);
  Node k; k.name = "kml";
  k.attrs.push_back(std::make_pair("xmlns", "http://www.opengis.net/kml/2.2"));
  k.attrs.push_back(std::make_pair("xmlns:atom", "http://www.w3.org/2005/Atom"));
  k.attrs.push_back(std::make_pair("xmlns:ext", "http://ext.example/"));
  k.attrs.push_back(std::make_pair("xmlns:gx", "http://www.google.com/kml/ext/2.2"));
  k.attrs.push_back(std::make_pair("xmlns:xal", "urn:oasis:names:tc:ciq:xsdschema:xAL:2.0"));
  if (!o.feature_only && c.chance(1, 8)) k.attrs.push_back(std::make_pair("hint", "target=sky"));
  if (!o.feature_only && c.chance(1, 10)) k.kids.push_back(g.make("NetworkLinkControl", 1));
  unsigned w = c.choose(8);
  k.kids.push_back(g.make(w < 4 ? "Document" : w < 6 ? "Folder" : w == 6 ? "Placemark" : c.pick(groups().find("Feature")->second), 1));
  if (o.bulk && c.chance(1, 50)) {
    Node f; f.name = "Folder"; f.kids.push_back(k.kids.back()); k.kids.pop_back();
    for (unsigned i = 110 + c.choose(300); i > 0; --i) {
      Node p; p.name = "Placemark"; Node t; t.name = "name"; t.text = std::to_string(i); p.kids.push_back(t);
      if (o.unknown && i % 3) { Node u; u.unknown = true; u.name = "unk"; u.text = std::to_string(i); if (i % 2) { Node v = u; u.text = ""; u.kids.push_back(v); } p.kids.push_back(u); }
      f.kids.push_back(p);
    }
    k.kids.push_back(f);
  }
  maybe_twins(c, o, &k);
  return k;
}

Spelling spelling(Ctx& c) {
  Spelling s;
  s.decl = c.choose(2); s.bom = s.decl && c.chance(1, 8); s.pretty = c.choose(2); s.comments = c.chance(1, 4); s.cdata = c.choose(2);
  s.charrefs = c.chance(1, 3); s.single_quotes = c.chance(1, 4); s.self_close = c.choose(3) != 0; s.crlf = c.chance(1, 8);
  return s;
}
static void esc(std::string* o, const std::string& t, bool attr, char q, bool charrefs) {
  for (size_t i = 0; i < t.size(); ++i) {
    unsigned char ch = t[i];
    if (ch == '&') *o += "&amp;"; else if (ch == '<') *o += "&lt;"; else if (ch == '>') *o += "&gt;";
    else if (ch == '\r') *o += "&#13;";
    else if (attr && ch == (unsigned char)q) *o += q == '"' ? "&quot;" : "&apos;";
    else if (attr && ch == '\n') *o += "&#10;"; else if (attr && ch == '\t') *o += "&#x9;";
    else if (charrefs && ch >= 'a' && ch <= 'e') { char b[8]; snprintf(b, sizeof b, "&#x%x;", ch); *o += b; }
    else *o += (char)ch;
  }
}
static void put(Ctx* c, std::string* o, const Node& n, const Spelling& s, unsigned depth) {
  const char* nl = s.crlf ? "\r\n" : "\n";
  std::string ind = s.pretty ? nl + std::string(depth * 2, ' ') : "";
  if (depth) *o += ind;
  if (s.comments && c && c->chance(1, 10)) *o += "<!-- c <x> & -->";
  // An icon of an icon style is spelled <Icon>.
  std::string name = n.name == "IconStyleIcon" ? "Icon" : n.name;
  *o += "<" + name;
  char q = s.single_quotes ? '\'' : '"';
  for (size_t i = 0; i < n.attrs.size(); ++i) { *o += " " + n.attrs[i].first + "="; *o += q; esc(o, n.attrs[i].second, true, q, s.charrefs); *o += q; }
  if (n.kids.empty() && n.text.empty() && s.self_close) { *o += "/>"; return; }
  *o += ">";
  if (!n.text.empty()) {
    bool can = n.text.find("]]>") == std::string::npos && n.text.find('\r') == std::string::npos;
    if (n.name == "description" && !n.unknown && (n.text == "<b>bold</b>" || n.text == "<description>in</description>")) *o += n.text;  // markup needs no quoting here
    else if (s.cdata && can && n.text.find_first_of("&<>\"'") != std::string::npos) *o += "<![CDATA[" + n.text + "]]>";
    else if (n.name == "coordinates" && !n.unknown && s.pretty) {
      for (size_t i = 0, e; i < n.text.size(); i = e + 1) { e = n.text.find(' ', i); if (e == std::string::npos) e = n.text.size(); *o += ind + "  " + n.text.substr(i, e - i); }
      *o += ind;
    }
    else esc(o, n.text, false, 0, s.charrefs && n.name != "coordinates");
  }
  for (size_t i = 0; i < n.kids.size(); ++i) put(c, o, n.kids[i], s, depth + 1);
  if (!n.kids.empty()) *o += ind;
  *o += "</" + name + ">";
}
std::string write(Ctx& c, const Node& n, const Spelling& s) {
  std::string o;
  if (s.bom) o += "\xef\xbb\xbf";
  if (s.decl) o += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if (s.comments) o += "<!-- head -->";
  put(&c, &o, n, s, 0);
  if (s.pretty) o += "\n";
  if (s.comments) o += "<?pi after?>";
  return o;
}
std::string write_plain(const Node& n) { std::string o; Spelling s; put(NULL, &o, n, s, 0); return o; }

// --- independent reader ----------------------------------------------------
namespace {
struct Reader {
  const std::string& s; size_t p = 0; std::string why; int depth = 0;
  explicit Reader(const std::string& x) : s(x) {}
  bool err(const char* m) { if (why.empty()) why = sim::format("%s at byte %zu", m, p); return false; }
  bool at(const char* t) const { return s.compare(p, strlen(t), t) == 0; }
  static bool namech(unsigned char ch) { return isalnum(ch) || ch == ':' || ch == '_' || ch == '-' || ch == '.' || ch >= 0x80; }
  void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) ++p; }
  std::string name() { size_t b = p; if (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '-' || s[p] == '.')) return ""; while (p < s.size() && namech(s[p])) ++p; return s.substr(b, p - b); }
  bool ref(std::string* o) {
    size_t e = s.find(';', p); if (e == std::string::npos || e - p > 12) return err("bad reference");
    std::string r = s.substr(p + 1, e - p - 1); p = e + 1;
    if (r == "amp") *o += '&'; else if (r == "lt") *o += '<'; else if (r == "gt") *o += '>'; else if (r == "quot") *o += '"'; else if (r == "apos") *o += '\'';
    else if (r.size() > 1 && r[0] == '#') {
      char* end; unsigned long v = r[1] == 'x' ? strtoul(r.c_str() + 2, &end, 16) : strtoul(r.c_str() + 1, &end, 10);
      if (*end || v == 0 || v > 0x10ffff) return err("bad character reference");
      if (v < 0x80) *o += (char)v; else if (v < 0x800) { *o += (char)(0xc0 | v >> 6); *o += (char)(0x80 | (v & 63)); }
      else if (v < 0x10000) { *o += (char)(0xe0 | v >> 12); *o += (char)(0x80 | (v >> 6 & 63)); *o += (char)(0x80 | (v & 63)); }
      else { *o += (char)(0xf0 | v >> 18); *o += (char)(0x80 | (v >> 12 & 63)); *o += (char)(0x80 | (v >> 6 & 63)); *o += (char)(0x80 | (v & 63)); }
    } else return err("unknown entity");
    return true;
  }
  bool misc() {
    for (;;) {
      ws();
      if (at("<!--")) { size_t e = s.find("-->", p + 4); if (e == std::string::npos) return err("comment"); p = e + 3; }
      else if (at("<?")) { size_t e = s.find("?>", p); if (e == std::string::npos) return err("pi"); p = e + 2; }
      else return true;
    }
  }
  bool elem(Node* n) {
    if (++depth > 400) return err("too deep");
    if (p >= s.size() || s[p] != '<') return err("expected element");
    ++p; n->name = name(); if (n->name.empty()) return err("bad name");
    for (;;) {
      size_t b = p; ws();
      if (p >= s.size()) return err("unterminated tag");
      if (at("/>")) { p += 2; --depth; return true; }
      if (s[p] == '>') { ++p; break; }
      if (b == p) return err("attribute without space");
      std::string k = name(); if (k.empty()) return err("bad attribute");
      ws(); if (p >= s.size() || s[p] != '=') return err("expected ="); ++p; ws();
      if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) return err("expected quote");
      char q = s[p++]; std::string v;
      while (p < s.size() && s[p] != q) {
        if (s[p] == '<') return err("< in attribute");
        if (s[p] == '&') { if (!ref(&v)) return false; continue; }
        char ch = s[p++]; if (ch == '\r') { if (p < s.size() && s[p] == '\n') ++p; ch = ' '; } v += (ch == '\n' || ch == '\t') ? ' ' : ch;
      }
      if (p >= s.size()) return err("unterminated attribute");
      ++p;
      if (n->attr(k)) return err("duplicate attribute");
      n->attrs.push_back(std::make_pair(k, v));
    }
    for (;;) {
      if (p >= s.size()) return err("unterminated element");
      if (at("</")) {
        p += 2; std::string e = name(); if (e != n->name) return err("mismatched tag"); ws();
        if (p >= s.size() || s[p] != '>') return err("bad end tag"); ++p; --depth; return true;
      }
      if (at("<![CDATA[")) {
        size_t e = s.find("]]>", p + 9); if (e == std::string::npos) return err("cdata");
        for (size_t i = p + 9; i < e; ++i) { if (s[i] == '\r') { n->text += '\n'; if (i + 1 < e && s[i + 1] == '\n') ++i; } else n->text += s[i]; }
        p = e + 3; continue;
      }
      if (at("<!--")) { size_t e = s.find("-->", p + 4); if (e == std::string::npos) return err("comment"); p = e + 3; continue; }
      if (at("<?")) { size_t e = s.find("?>", p); if (e == std::string::npos) return err("pi"); p = e + 2; continue; }
      if (s[p] == '<') { n->kids.push_back(Node()); Node tmp; if (!elem(&tmp)) return false; n->kids.back() = tmp; continue; }
      if (s[p] == '&') { if (!ref(&n->text)) return false; continue; }
      if (at("]]>")) return err("]]> in text");
      char ch = s[p++];
      if (ch == '\r') { if (p < s.size() && s[p] == '\n') ++p; ch = '\n'; }
      if ((unsigned char)ch < 32 && ch != '\n' && ch != '\t') return err("control character");
      n->text += ch;
    }
  }
};
}  // namespace
bool parse(const std::string& xml, Node* out, std::string* why) {
  Reader r(xml);
  if (r.at("\xef\xbb\xbf")) r.p = 3;
  bool ok = r.misc() && r.elem(out) && r.misc() && (r.p == xml.size() || r.err("trailing data"));
  if (why) *why = r.why;
  return ok;
}

static bool blank(const std::string& s) { return s.find_first_not_of(" \t\r\n") == std::string::npos; }
static void canon_to(std::string* o, const Node& n, unsigned depth) {
  std::string ind(depth, ' ');
  *o += ind + "<" + (n.name == "IconStyleIcon" ? "Icon" : n.name);
  std::vector<std::pair<std::string, std::string> > a = n.attrs; std::sort(a.begin(), a.end());
  for (size_t i = 0; i < a.size(); ++i) *o += " " + a[i].first + "=[" + a[i].second + "]";
  *o += ">";
  std::string t = n.text;
  bool texty = n.name == "Snippet" || n.name == "linkSnippet" || n.name == "SimpleData";
  if (n.name == "coordinates" || ((!n.kids.empty() || texty) && blank(t))) {
    std::string u; bool sp = false;
    for (size_t i = 0; i < t.size(); ++i) { if (strchr(" \t\r\n", t[i])) sp = true; else { if (sp && !u.empty()) u += ' '; sp = false; u += t[i]; } }
    t = u;
  }
  *o += "[" + t + "]\n";
  for (size_t i = 0; i < n.kids.size(); ++i) canon_to(o, n.kids[i], depth + 1);
}
std::string canon(const Node& n) { std::string o; canon_to(&o, n, 0); return o; }
std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t la = a.rfind('\n', i ? i - 1 : 0); la = la == std::string::npos ? 0 : la + 1;
  size_t lb = b.rfind('\n', i ? i - 1 : 0); lb = lb == std::string::npos ? 0 : lb + 1;
  return "expected " + sim::quote(a.substr(la, a.find('\n', i) == std::string::npos ? 200 : a.find('\n', i) - la), 200) + " got " +
         sim::quote(b.substr(lb, b.find('\n', i) == std::string::npos ? 200 : b.find('\n', i) - lb), 200);
}
std::string mangle(Ctx& c, std::string s) {
  static const char* const bits[] = {"<", ">", "&", "</kml>", "<x>", "</x>", "<foo/>", "]]>", "<![CDATA[", "<!--", "-->", "&#0;", "&bogus;", "\xff\xfe", "\xc3", "\xf0\x9f", "\"", "'", "<?xml version='1.0'?>", "<coordinates>1,,2 , ,\n-,.e5</coordinates>", "<coordinates>   </coordinates>", "<description>", "</description>", "<Schema name='S' parent='Placemark'>", "</Schema>", "<Schema name='Schema' parent='p'/>", "<Schema name='kml' parent='p'/>", "<S>", "</S>", "<f0>x</f0>", "<gx:coord>1 </gx:coord>", "<Icon>", "<IconStyle><Icon/></IconStyle>", "<color>zz</color>", "<altitudeMode>none</altitudeMode>", "\r", "\0"};
  unsigned k = 1 + c.choose(3);
  for (unsigned i = 0; i < k; ++i) {
    size_t p = s.empty() ? 0 : c.choose((uint32_t)s.size() + 1);
    switch (c.choose(10)) {
      case 0: s.resize(p); break;
      case 1: if (p < s.size()) s[p] = (char)c.choose(256); break;
      case 2: { size_t n = c.choose(40); if (p < s.size()) s.erase(p, n); break; }
      case 3: { unsigned w = c.choose(sizeof bits / sizeof bits[0]); std::string b = bits[w]; if (w + 1 == sizeof bits / sizeof bits[0]) b.assign(1, 0); s.insert(p, b); break; }
      case 4: { size_t n = c.choose(200); std::string d = s.substr(p, n); s.insert(c.choose((uint32_t)s.size() + 1), d); break; }
      case 5: { unsigned d = c.chance(1, 12) ? 5000 + c.choose(25000) : 90 + c.choose(25); std::string a, b; static const char* const t[] = {"Folder", "zz", "description", "b", "MultiGeometry"}; std::string n = t[c.choose(5)]; for (unsigned j = 0; j < d; ++j) { a += "<" + n + ">"; b += "</" + n + ">"; } size_t q = s.find('>', p); if (q == std::string::npos) q = s.size(); else ++q; s.insert(q, c.choose(3) ? a + b : a + "<" + n + "/>" + b); break; }
      case 6: { static const char* const h[] = {"<!DOCTYPE kml>", "<!DOCTYPE kml [<!ENTITY e \"v\">]>", "<!DOCTYPE kml SYSTEM \"x.dtd\">", "\xef\xbb\xbf", "<?pi x?>", "<!-- c -->", " ", "junk", "<!DOCTYPE kml [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;\">]>"}; s.insert(0, h[c.choose(9)]); break; }
      case 7: { size_t q = s.find('<', p); if (q != std::string::npos && q + 1 < s.size()) { size_t e = q + 1; while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == ':')) ++e; static const char* const t[] = {"Placemark", "coordinates", "unk", "Schema", "description", "S", "kml", "Icon", "name"}; if (e > q + 1) s.replace(q + 1, e - q - 1, t[c.choose(9)]); } break; }
      default: {   // odd spellings of a value
        if (c.chance(1, 3)) { static const char* const tags[] = {"<color>", "<color>", "<coordinates>", "<gx:coord>", "<drawOrder>", "<when>", "<altitudeMode>"}; size_t f = s.find(tags[c.choose(7)]); if (f != std::string::npos) p = f; }
        size_t q = s.find('>', p), e = q == std::string::npos ? q : s.find('<', q);
        if (e == std::string::npos) break;
        if (e > q + 1 && s[q + 1] == '\n' && s.compare(e, 2, "</")) break;
        static const char* const v[] = {"", "#", "#f", "#ff", "ff", "1e999", "-1e999", "-", "+5", ".5", "1.", "1e", "nan", "inf", "0x10", "99999999999999999999", "-99999999999999999999", "1 2 3", ",", ",,,", "1,2,3,4,5", "1,2 3,4,5 6", "-,-,-", "TRUE", "true", "yes", "-0", "%s%n", "$[x]", "..", "#", "http://[", "2007-13-45T99:99:99Z", "2007", "\xd9\xa1", "relativeToGround", "magic"};
        std::string t = v[c.choose(sizeof v / sizeof v[0])];
        static const char* const sp[] = {" ", "\n", "\t"};
        std::string pad; for (unsigned j = c.choose(3) ? 0 : c.choose(40); j > 0; --j) pad += sp[c.choose(3)];
        if (c.chance(1, 12)) t.append(c.choose(600), '9');
        s.replace(q + 1, e - q - 1, pad + t + (c.choose(4) ? "" : pad));
        break;
      }
    }
  }
  return s;
}

size_t count(const Node& n) { size_t k = 1; for (size_t i = 0; i < n.kids.size(); ++i) k += count(n.kids[i]); return k; }

}  // namespace gen
