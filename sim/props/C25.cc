// C25: an edited document is exactly what the accepted edits made it.
//
// One run is a history of edits by several holders of references to elements,
// in which holders take and let go of references at any point. The model keeps
// the tree as the accepted edits made it.
#include <string.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "../core.h"
#include "../gen.h"
#include "../simmem.h"
#include "kml/base/attributes.h"
#include "kml/dom.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/engine/clone.h"
#include "kml/engine/kml_file.h"
using namespace sim;
using namespace kmldom;
using gen::Node;

namespace {
typedef ElementPtr E;
struct Rel {
  const char* name; KmlDomType ptype, ctype; bool array;
  void (*put)(const E&, const E&); size_t (*size)(const E&); E (*at)(const E&, size_t); void (*clear)(const E&); E (*del)(const E&, size_t);
};
const KmlDomType Type_OuterBoundaryIs = Type_outerBoundaryIs, Type_InnerBoundaryIs = Type_innerBoundaryIs, Type_Coordinates = Type_coordinates, Type_HotSpot = Type_hotSpot, Type_LinkSnippet = Type_linkSnippet, Type_OverlayXY = Type_overlayXY, Type_ScreenXY = Type_screenXY, Type_RotationXY = Type_rotationXY, Type_Size = Type_size, Type_Kml = Type_kml, Type_UpdateOperation = Type_Invalid;
bool isa(const E& e, KmlDomType t) { return t == Type_UpdateOperation ? e->IsA(Type_Create) || e->IsA(Type_Delete) || e->IsA(Type_Change) : t == Type_SimpleField ? e->Type() == t : e->IsA(t); }
UpdateOperationPtr AsUpdateOperation(const E& e) { if (CreatePtr a = AsCreate(e)) return a; if (DeletePtr a = AsDelete(e)) return a; if (ChangePtr a = AsChange(e)) return a; return NULL; }
#define S(P, f, C) {#P "." #f, Type_##P, Type_##C, false, [](const E& p, const E& c) { As##P(p)->set_##f(As##C(c)); }, [](const E& p) -> size_t { return As##P(p)->has_##f(); }, [](const E& p, size_t) -> E { return As##P(p)->get_##f(); }, [](const E& p) { As##P(p)->clear_##f(); }, NULL}
#define ADD(P, f, C) Type_##P, Type_##C, true, [](const E& p, const E& c) { As##P(p)->add_##f(As##C(c)); }, [](const E& p) -> size_t { return As##P(p)->get_##f##_array_size(); }, [](const E& p, size_t i) -> E { return As##P(p)->get_##f##_array_at(i); }, NULL
#define A(P, f, C) {#P "." #f, ADD(P, f, C), NULL}
#define D(P, f, C, X) {#P "." #f, ADD(P, f, C), [](const E& p, size_t i) -> E { return As##P(p)->X(i); }}
const Rel kRels[] = {
  D(Container, feature, Feature, DeleteFeatureAt), D(Document, styleselector, StyleSelector, DeleteStyleSelectorAt), D(Document, schema, Schema, DeleteSchemaAt),
  S(Placemark, geometry, Geometry), A(MultiGeometry, geometry, Geometry), S(Feature, styleselector, StyleSelector), S(Feature, abstractview, AbstractView),
  S(Feature, timeprimitive, TimePrimitive), S(Feature, region, Region), S(Feature, extendeddata, ExtendedData), S(Feature, snippet, Snippet),
  S(Kml, feature, Feature), S(Kml, networklinkcontrol, NetworkLinkControl), S(NetworkLinkControl, update, Update), S(NetworkLinkControl, abstractview, AbstractView), S(NetworkLinkControl, linksnippet, LinkSnippet),
  A(Update, updateoperation, UpdateOperation), A(Create, container, Container), A(Delete, feature, Feature), A(Change, object, Object),
  S(Point, coordinates, Coordinates), S(LineString, coordinates, Coordinates), S(LinearRing, coordinates, Coordinates), S(GxLatLonQuad, coordinates, Coordinates),
  S(Polygon, outerboundaryis, OuterBoundaryIs), A(Polygon, innerboundaryis, InnerBoundaryIs), S(OuterBoundaryIs, linearring, LinearRing), S(InnerBoundaryIs, linearring, LinearRing),
  S(Model, location, Location), S(Model, orientation, Orientation), S(Model, scale, Scale), S(Model, link, Link), S(Model, resourcemap, ResourceMap), A(ResourceMap, alias, Alias),
  S(GxTrack, model, Model), S(GxTrack, extendeddata, ExtendedData), A(GxMultiTrack, gx_track, GxTrack),
  S(Style, iconstyle, IconStyle), S(Style, labelstyle, LabelStyle), S(Style, linestyle, LineStyle), S(Style, polystyle, PolyStyle), S(Style, balloonstyle, BalloonStyle), S(Style, liststyle, ListStyle),
  S(IconStyle, icon, IconStyleIcon), S(IconStyle, hotspot, HotSpot), A(ListStyle, itemicon, ItemIcon), A(StyleMap, pair, Pair), S(Pair, styleselector, StyleSelector),
  S(Region, latlonaltbox, LatLonAltBox), S(Region, lod, Lod), S(NetworkLink, link, Link), S(Overlay, icon, Icon),
  S(GroundOverlay, latlonbox, LatLonBox), S(GroundOverlay, gx_latlonquad, GxLatLonQuad), S(ScreenOverlay, overlayxy, OverlayXY), S(ScreenOverlay, screenxy, ScreenXY), S(ScreenOverlay, rotationxy, RotationXY), S(ScreenOverlay, size, Size),
  S(PhotoOverlay, viewvolume, ViewVolume), S(PhotoOverlay, imagepyramid, ImagePyramid), S(PhotoOverlay, point, Point),
  A(ExtendedData, data, Data), A(ExtendedData, schemadata, SchemaData), A(SchemaData, simpledata, SimpleData), A(SchemaData, gx_simplearraydata, GxSimpleArrayData), A(Schema, simplefield, SimpleField), A(Schema, gx_simplearrayfield, GxSimpleArrayField),
  S(AbstractView, gx_timeprimitive, TimePrimitive), S(Feature, atomauthor, AtomAuthor), S(Feature, atomlink, AtomLink), S(Feature, xaladdressdetails, XalAddressDetails),
  A(AtomFeed, entry, AtomEntry), A(AtomFeed, link, AtomLink), A(AtomFeed, category, AtomCategory), A(AtomEntry, link, AtomLink), A(AtomEntry, category, AtomCategory), S(AtomEntry, content, AtomContent),
  S(XalAddressDetails, country, XalCountry), S(XalCountry, administrativearea, XalAdministrativeArea), S(XalAdministrativeArea, locality, XalLocality), S(XalAdministrativeArea, subadministrativearea, XalSubAdministrativeArea), S(XalSubAdministrativeArea, locality, XalLocality), S(XalLocality, thoroughfare, XalThoroughfare), S(XalLocality, postalcode, XalPostalCode),
  S(GxTour, gx_playlist, GxPlaylist), A(GxPlaylist, gx_tourprimitive, GxTourPrimitive), S(GxAnimatedUpdate, update, Update), S(GxFlyTo, abstractview, AbstractView),
};
const unsigned kRelCount = sizeof kRels / sizeof *kRels;
const KmlDomType kTypes[] = {
  Type_Folder, Type_Document, Type_Placemark, Type_Kml, Type_Folder, Type_Placemark, Type_NetworkLink, Type_GroundOverlay, Type_ScreenOverlay, Type_PhotoOverlay, Type_GxTour, Type_Point, Type_LineString, Type_LinearRing, Type_Polygon, Type_MultiGeometry, Type_Model, Type_GxTrack, Type_GxMultiTrack,
  Type_OuterBoundaryIs, Type_InnerBoundaryIs, Type_coordinates, Type_Style, Type_StyleMap, Type_Pair, Type_IconStyle, Type_LabelStyle, Type_LineStyle, Type_PolyStyle, Type_BalloonStyle, Type_ListStyle, Type_ItemIcon, Type_IconStyleIcon, Type_hotSpot,
  Type_LookAt, Type_Camera, Type_TimeStamp, Type_TimeSpan, Type_Region, Type_LatLonAltBox, Type_Lod, Type_ExtendedData, Type_Data, Type_SchemaData, Type_SimpleData, Type_GxSimpleArrayData, Type_Schema, Type_SimpleField, Type_GxSimpleArrayField, Type_Snippet, Type_linkSnippet,
  Type_NetworkLinkControl, Type_Update, Type_Create, Type_Delete, Type_Change, Type_Location, Type_Orientation, Type_Scale, Type_Link, Type_ResourceMap, Type_Alias, Type_Icon, Type_LatLonBox, Type_GxLatLonQuad, Type_overlayXY, Type_screenXY, Type_rotationXY, Type_size, Type_ViewVolume, Type_ImagePyramid,
  Type_GxPlaylist, Type_GxAnimatedUpdate, Type_GxFlyTo, Type_GxWait, Type_GxSoundCue, Type_GxTourControl,
  Type_GxTimeSpan, Type_GxTimeStamp, Type_AtomFeed, Type_AtomEntry, Type_AtomAuthor, Type_AtomLink, Type_AtomCategory, Type_AtomContent, Type_XalAddressDetails, Type_XalCountry, Type_XalAdministrativeArea, Type_XalSubAdministrativeArea, Type_XalLocality, Type_XalPostalCode, Type_XalThoroughfare,
};
const unsigned kTypeCount = sizeof kTypes / sizeof *kTypes;

// What an element can be taken for: itself and the abstract kinds it is of.
#define K(N, ...) {#N, {__VA_ARGS__}, [](const E& e) -> const Element* { return As##N(e).get(); }}
struct Kind { const char* name; int of[12]; const Element* (*as)(const E&); };
const Kind kKinds[] = {
    K(Alias, Type_Alias),
    K(BalloonStyle, Type_BalloonStyle),
    K(Camera, Type_Camera),
    K(Change, Type_Change),
    K(Coordinates, Type_coordinates),
    K(Create, Type_Create),
    K(Data, Type_Data),
    K(Delete, Type_Delete),
    K(Document, Type_Document),
    K(ExtendedData, Type_ExtendedData),
    K(Folder, Type_Folder),
    K(GroundOverlay, Type_GroundOverlay),
    K(HotSpot, Type_hotSpot),
    K(Icon, Type_Icon),
    K(IconStyle, Type_IconStyle),
    K(IconStyleIcon, Type_IconStyleIcon),
    K(ImagePyramid, Type_ImagePyramid),
    K(InnerBoundaryIs, Type_innerBoundaryIs),
    K(ItemIcon, Type_ItemIcon),
    K(Kml, Type_Kml),
    K(LabelStyle, Type_LabelStyle),
    K(LatLonAltBox, Type_LatLonAltBox),
    K(LatLonBox, Type_LatLonBox),
    K(LineString, Type_LineString),
    K(LineStyle, Type_LineStyle),
    K(LinearRing, Type_LinearRing),
    K(Link, Type_Link),
    K(LinkSnippet, Type_linkSnippet),
    K(ListStyle, Type_ListStyle),
    K(Location, Type_Location),
    K(Lod, Type_Lod),
    K(LookAt, Type_LookAt),
    K(Metadata, Type_Metadata),
    K(Model, Type_Model),
    K(MultiGeometry, Type_MultiGeometry),
    K(NetworkLink, Type_NetworkLink),
    K(NetworkLinkControl, Type_NetworkLinkControl),
    K(Orientation, Type_Orientation),
    K(OuterBoundaryIs, Type_outerBoundaryIs),
    K(OverlayXY, Type_overlayXY),
    K(Pair, Type_Pair),
    K(PhotoOverlay, Type_PhotoOverlay),
    K(Placemark, Type_Placemark),
    K(Point, Type_Point),
    K(PolyStyle, Type_PolyStyle),
    K(Polygon, Type_Polygon),
    K(Region, Type_Region),
    K(ResourceMap, Type_ResourceMap),
    K(RotationXY, Type_rotationXY),
    K(Scale, Type_Scale),
    K(Schema, Type_Schema),
    K(SchemaData, Type_SchemaData),
    K(ScreenOverlay, Type_ScreenOverlay),
    K(ScreenXY, Type_screenXY),
    K(SimpleData, Type_SimpleData),
    K(SimpleField, Type_SimpleField, Type_GxSimpleArrayField),
    K(Size, Type_size),
    K(Snippet, Type_Snippet),
    K(Style, Type_Style),
    K(StyleMap, Type_StyleMap),
    K(TimeSpan, Type_TimeSpan, Type_GxTimeSpan),
    K(TimeStamp, Type_TimeStamp, Type_GxTimeStamp),
    K(Update, Type_Update),
    K(ViewVolume, Type_ViewVolume),
    K(AtomAuthor, Type_AtomAuthor),
    K(AtomCategory, Type_AtomCategory),
    K(AtomContent, Type_AtomContent),
    K(AtomEntry, Type_AtomEntry),
    K(AtomFeed, Type_AtomFeed),
    K(AtomLink, Type_AtomLink),
    K(XalAddressDetails, Type_XalAddressDetails),
    K(XalAdministrativeArea, Type_XalAdministrativeArea),
    K(XalCountry, Type_XalCountry),
    K(XalLocality, Type_XalLocality),
    K(XalPostalCode, Type_XalPostalCode),
    K(XalSubAdministrativeArea, Type_XalSubAdministrativeArea),
    K(XalThoroughfare, Type_XalThoroughfare),
    K(GxAnimatedUpdate, Type_GxAnimatedUpdate),
    K(GxFlyTo, Type_GxFlyTo),
    K(GxLatLonQuad, Type_GxLatLonQuad),
    K(GxMultiTrack, Type_GxMultiTrack),
    K(GxPlaylist, Type_GxPlaylist),
    K(GxSimpleArrayField, Type_GxSimpleArrayField),
    K(GxSimpleArrayData, Type_GxSimpleArrayData),
    K(GxSoundCue, Type_GxSoundCue),
    K(GxTimeSpan, Type_GxTimeSpan),
    K(GxTimeStamp, Type_GxTimeStamp),
    K(GxTour, Type_GxTour),
    K(GxTourControl, Type_GxTourControl),
    K(GxTrack, Type_GxTrack),
    K(GxWait, Type_GxWait),
    K(AbstractLatLonBox, Type_LatLonAltBox, Type_LatLonBox),
    K(AbstractView, Type_Camera, Type_LookAt),
    K(ColorStyle, Type_IconStyle, Type_LabelStyle, Type_LineStyle, Type_PolyStyle),
    K(Container, Type_Document, Type_Folder),
    K(Feature, Type_Document, Type_Folder, Type_GroundOverlay, Type_NetworkLink, Type_PhotoOverlay, Type_Placemark, Type_ScreenOverlay, Type_GxTour),
    K(Geometry, Type_LineString, Type_LinearRing, Type_Model, Type_MultiGeometry, Type_Point, Type_Polygon, Type_GxTrack, Type_GxMultiTrack),
    K(Overlay, Type_GroundOverlay, Type_PhotoOverlay, Type_ScreenOverlay),
    K(StyleSelector, Type_Style, Type_StyleMap),
    K(SubStyle, Type_BalloonStyle, Type_IconStyle, Type_LabelStyle, Type_LineStyle, Type_ListStyle, Type_PolyStyle),
    K(TimePrimitive, Type_TimeSpan, Type_TimeStamp, Type_GxTimeSpan, Type_GxTimeStamp),
    K(GxTourPrimitive, Type_GxAnimatedUpdate, Type_GxFlyTo, Type_GxSoundCue, Type_GxTourControl, Type_GxWait),
};
#undef K

// Single values. kind: s text, b bool, i integer, d double, e enumeration, c colour.
struct Val { const char* name; KmlDomType type; char kind; const char* names; void (*set)(const E&, const std::string&, double); bool (*has)(const E&); std::string (*get)(const E&); void (*clear)(const E&); };
std::string num(double d) { return format("%.15g", d); }
std::string nth(const char* names, int k) { std::string s(names); size_t at = 0; for (; k > 0 && at != std::string::npos; --k) { at = s.find('|', at); if (at != std::string::npos) ++at; } if (at == std::string::npos || k < 0) return "(none)"; size_t e = s.find('|', at); return s.substr(at, e == std::string::npos ? e : e - at); }
unsigned how_many(const char* names) { return 1 + (unsigned)std::count(names, names + strlen(names), '|'); }
#define V_(P, f, x, k, n, SET, GET) {x, Type_##P, k, n, [](const E& p, const std::string& s, double d) { As##P(p)->set_##f(SET); }, [](const E& p) -> bool { return As##P(p)->has_##f(); }, [](const E& p) -> std::string { return GET; }, [](const E& p) { As##P(p)->clear_##f(); }}
#define VS(P, f, x) V_(P, f, x, 's', "", s, As##P(p)->get_##f())
#define VN(P, f, x, k) V_(P, f, x, k, "", d, num(As##P(p)->get_##f()))
#define VC(P, f, x) V_(P, f, x, 'c', "", kmlbase::Color32((uint32_t)d), format("%08x", As##P(p)->get_##f().get_color_abgr()))
#define VE(P, f, x, n) V_(P, f, x, 'e', n, (int)d, nth(n, As##P(p)->get_##f()))
#define AM "clampToGround|relativeToGround|absolute"
#define GAM "clampToSeaFloor|relativeToSeaFloor"
#define UNITS "fraction|pixels|insetPixels"
#define ALT(P) VE(P, altitudemode, "altitudeMode", AM), VE(P, gx_altitudemode, "gx:altitudeMode", GAM)
#define VIEW(P) VN(P, longitude, "longitude", 'd'), VN(P, latitude, "latitude", 'd'), VN(P, altitude, "altitude", 'd'), VN(P, heading, "heading", 'd'), VN(P, tilt, "tilt", 'd'), ALT(P)
#define VEC2(P) VN(P, x, "@x", 'd'), VN(P, y, "@y", 'd'), VE(P, xunits, "@xunits", UNITS), VE(P, yunits, "@yunits", UNITS)
#define LINK(P) VS(P, href, "href"), VE(P, refreshmode, "refreshMode", "onChange|onInterval|onExpire"), VN(P, refreshinterval, "refreshInterval", 'd'), VE(P, viewrefreshmode, "viewRefreshMode", "never|onRequest|onStop|onRegion"), VN(P, viewrefreshtime, "viewRefreshTime", 'd'), VN(P, viewboundscale, "viewBoundScale", 'd'), VS(P, viewformat, "viewFormat"), VS(P, httpquery, "httpQuery")
#define ATOM(P) VS(P, id, "atom:id"), VS(P, title, "atom:title"), VS(P, updated, "atom:updated")
const Val kVals[] = {
  VS(Object, id, "@id"), VS(Object, targetid, "@targetId"), VS(Feature, name, "name"), VS(Feature, description, "description"), VN(Feature, visibility, "visibility", 'b'), VN(Feature, open, "open", 'b'), VS(Feature, address, "address"), VS(Feature, phonenumber, "phoneNumber"), VS(Feature, styleurl, "styleUrl"), VN(Feature, gx_balloonvisibility, "gx:balloonVisibility", 'b'),
  VC(Overlay, color, "color"), VN(Overlay, draworder, "drawOrder", 'i'), VN(GroundOverlay, altitude, "altitude", 'd'), ALT(GroundOverlay), VN(ScreenOverlay, rotation, "rotation", 'd'), VN(PhotoOverlay, rotation, "rotation", 'd'), VE(PhotoOverlay, shape, "shape", "rectangle|cylinder|sphere"),
  VN(LineString, extrude, "extrude", 'b'), VN(LineString, tessellate, "tessellate", 'b'), ALT(LineString), VN(LinearRing, extrude, "extrude", 'b'), VN(LinearRing, tessellate, "tessellate", 'b'), ALT(LinearRing), VN(Polygon, extrude, "extrude", 'b'), VN(Polygon, tessellate, "tessellate", 'b'), ALT(Polygon), VN(Point, extrude, "extrude", 'b'), ALT(Point), ALT(Model), ALT(GxTrack),
  VIEW(LookAt), VN(LookAt, range, "range", 'd'), VIEW(Camera), VN(Camera, roll, "roll", 'd'), VS(TimeStamp, when, "when"), VS(TimeSpan, begin, "begin"), VS(TimeSpan, end, "end"),
  VN(AbstractLatLonBox, north, "north", 'd'), VN(AbstractLatLonBox, south, "south", 'd'), VN(AbstractLatLonBox, east, "east", 'd'), VN(AbstractLatLonBox, west, "west", 'd'), VN(LatLonAltBox, minaltitude, "minAltitude", 'd'), VN(LatLonAltBox, maxaltitude, "maxAltitude", 'd'), ALT(LatLonAltBox), VN(LatLonBox, rotation, "rotation", 'd'),
  VN(Lod, minlodpixels, "minLodPixels", 'd'), VN(Lod, maxlodpixels, "maxLodPixels", 'd'), VN(Lod, minfadeextent, "minFadeExtent", 'd'), VN(Lod, maxfadeextent, "maxFadeExtent", 'd'),
  VC(ColorStyle, color, "color"), VE(ColorStyle, colormode, "colorMode", "normal|random"), VN(IconStyle, scale, "scale", 'd'), VN(IconStyle, heading, "heading", 'd'), VN(LabelStyle, scale, "scale", 'd'), VN(LineStyle, width, "width", 'd'), VN(PolyStyle, fill, "fill", 'b'), VN(PolyStyle, outline, "outline", 'b'),
  VC(BalloonStyle, bgcolor, "bgColor"), VC(BalloonStyle, textcolor, "textColor"), VS(BalloonStyle, text, "text"), VE(BalloonStyle, displaymode, "displayMode", "default|hide"), VE(ListStyle, listitemtype, "listItemType", "check|radioFolder|checkOffOnly|checkHideChildren"), VC(ListStyle, bgcolor, "bgColor"), VN(ListStyle, maxsnippetlines, "maxSnippetLines", 'i'),
  VS(ItemIcon, href, "href"), VS(IconStyleIcon, href, "href"), VN(IconStyleIcon, gx_x, "gx:x", 'd'), VN(IconStyleIcon, gx_y, "gx:y", 'd'), VN(IconStyleIcon, gx_w, "gx:w", 'd'), VN(IconStyleIcon, gx_h, "gx:h", 'd'), VEC2(HotSpot), VEC2(OverlayXY), VEC2(ScreenXY), VEC2(RotationXY), VEC2(Size),
  VE(Pair, key, "key", "normal|highlight"), VS(Pair, styleurl, "styleUrl"), LINK(Link), LINK(Icon), VN(NetworkLink, flytoview, "flyToView", 'b'), VN(NetworkLink, refreshvisibility, "refreshVisibility", 'b'),
  VS(Data, displayname, "displayName"), VS(Data, value, "value"), VS(Data, name, "@name"), VS(SchemaData, schemaurl, "@schemaUrl"), VS(Schema, name, "@name"), VS(SimpleField, displayname, "displayName"), VS(SimpleField, type, "@type"), VS(SimpleField, name, "@name"), VS(SimpleData, name, "@name"), VS(SimpleData, text, "#"), VS(GxSimpleArrayData, name, "@name"), VS(Kml, hint, "@hint"),
  VS(Snippet, text, "#"), VN(Snippet, maxlines, "@maxLines", 'i'), VS(LinkSnippet, text, "#"), VN(LinkSnippet, maxlines, "@maxLines", 'i'),
  VN(NetworkLinkControl, minrefreshperiod, "minRefreshPeriod", 'd'), VN(NetworkLinkControl, maxsessionlength, "maxSessionLength", 'd'), VS(NetworkLinkControl, cookie, "cookie"), VS(NetworkLinkControl, message, "message"), VS(NetworkLinkControl, linkname, "linkName"), VS(NetworkLinkControl, linkdescription, "linkDescription"), VS(NetworkLinkControl, expires, "expires"), VS(Update, targethref, "targetHref"),
  VN(Location, longitude, "longitude", 'd'), VN(Location, latitude, "latitude", 'd'), VN(Location, altitude, "altitude", 'd'), VN(Orientation, heading, "heading", 'd'), VN(Orientation, tilt, "tilt", 'd'), VN(Orientation, roll, "roll", 'd'), VN(Scale, x, "x", 'd'), VN(Scale, y, "y", 'd'), VN(Scale, z, "z", 'd'), VS(Alias, targethref, "targetHref"), VS(Alias, sourcehref, "sourceHref"),
  VN(ViewVolume, leftfov, "leftFov", 'd'), VN(ViewVolume, rightfov, "rightFov", 'd'), VN(ViewVolume, bottomfov, "bottomFov", 'd'), VN(ViewVolume, topfov, "topFov", 'd'), VN(ViewVolume, near, "near", 'd'), VN(ImagePyramid, tilesize, "tileSize", 'i'), VN(ImagePyramid, maxwidth, "maxWidth", 'i'), VN(ImagePyramid, maxheight, "maxHeight", 'i'), VE(ImagePyramid, gridorigin, "gridOrigin", "lowerLeft|upperLeft"),
  VN(GxWait, gx_duration, "gx:duration", 'd'), VN(GxFlyTo, gx_duration, "gx:duration", 'd'), VE(GxFlyTo, gx_flytomode, "gx:flyToMode", "bounce|smooth"), VN(GxAnimatedUpdate, gx_duration, "gx:duration", 'd'), VS(GxSoundCue, href, "href"), VE(GxTourControl, gx_playmode, "gx:playMode", "pause"), VN(GxMultiTrack, gx_interpolate, "gx:interpolate", 'b'),
  VS(AtomAuthor, name, "atom:name"), VS(AtomAuthor, uri, "atom:uri"), VS(AtomAuthor, email, "atom:email"), VS(AtomLink, href, "@href"), VS(AtomLink, rel, "@rel"), VS(AtomLink, type, "@type"), VS(AtomLink, hreflang, "@hreflang"), VS(AtomLink, title, "@title"), VN(AtomLink, length, "@length", 'i'),
  ATOM(AtomFeed), ATOM(AtomEntry), VS(AtomEntry, summary, "atom:summary"), VS(AtomContent, src, "@src"), VS(AtomContent, type, "@type"), VS(AtomCategory, term, "@term"), VS(AtomCategory, scheme, "@scheme"), VS(AtomCategory, label, "@label"),
  VS(XalAdministrativeArea, administrativeareaname, "xal:AdministrativeAreaName"), VS(XalCountry, countrynamecode, "xal:CountryNameCode"), VS(XalLocality, localityname, "xal:LocalityName"), VS(XalPostalCode, postalcodenumber, "xal:PostalCodeNumber"), VS(XalSubAdministrativeArea, subadministrativeareaname, "xal:SubAdministrativeAreaName"), VS(XalThoroughfare, thoroughfarename, "xal:ThoroughfareName"), VS(XalThoroughfare, thoroughfarenumber, "xal:ThoroughfareNumber"),
};
const unsigned kValCount = sizeof kVals / sizeof *kVals;

// Arrays of values, which are only added to.
struct Arr { const char* name; KmlDomType type; bool vec; void (*add)(const E&, const std::string&, const kmlbase::Vec3&); size_t (*size)(const E&); std::string (*at)(const E&, size_t); };
std::string vec(const kmlbase::Vec3& v) { return num(v.get_longitude()) + " " + num(v.get_latitude()) + " " + num(v.get_altitude()); }
#define R_(P, f, x, k, ADDED, AT) {x, Type_##P, k, [](const E& p, const std::string& s, const kmlbase::Vec3& v) { As##P(p)->add_##f(ADDED); }, [](const E& p) -> size_t { return As##P(p)->get_##f##_array_size(); }, [](const E& p, size_t i) -> std::string { return AT(As##P(p)->get_##f##_array_at(i)); }}
const Arr kArrs[] = { R_(GxTrack, when, "when", false, s, ), R_(GxTrack, gx_coord, "gx:coord", true, v, vec), R_(GxTrack, gx_angles, "gx:angles", true, v, vec), R_(GxSimpleArrayData, gx_value, "gx:value", false, s, ) };
const unsigned kArrCount = sizeof kArrs / sizeof *kArrs;
const char kStates[] = "open|closed|error|fetching0|fetching1|fetching2";
bool foreign(KmlDomType t) { return (t >= Type_AtomAuthor && t <= Type_AtomLink) || (t >= Type_XalAddressDetails && t <= Type_XalThoroughfare); }   // the visitor interface knows KML elements only

struct M {
  const Element* raw; KmlDomType type; std::string label; int in; bool had;      // in: the parent holding it; had: has been given to a parent
  std::map<unsigned, std::vector<int> > kids; std::map<unsigned, std::string> vals; std::map<unsigned, std::vector<std::string> > arrs;
  std::vector<std::string> more;   // coordinates after the first, states of an icon
  bool states = false;
  M() : raw(NULL), type(Type_Unknown), in(-1), had(false) {}
};

class Meet : public Visitor {
 public:
  std::vector<const Element*> seen;
  virtual void VisitElement(const ElementPtr& e) { seen.push_back(e.get()); }
};

struct Sim {
  Ctx& c; std::vector<M> m; std::vector<E> hold; std::vector<char> alive; unsigned refused = 0, accepted = 0, clones = 0, serial = 0;
  explicit Sim(Ctx& c_) : c(c_) {}
  const char* name(int i) { return m[i].label.c_str(); }
  int fresh(const E& e, const std::string& label) { M x; x.raw = e.get(); x.type = e->Type(); x.label = label; m.push_back(x); hold.push_back(e); alive.push_back(1); return (int)m.size() - 1; }
  int held() { std::vector<int> v; for (size_t i = 0; i < hold.size(); ++i) if (hold[i]) v.push_back((int)i); return v.empty() ? -1 : c.pick(v); }
  int create(KmlDomType t) {
    E e = KmlFactory::GetFactory()->CreateElementById(t);
    if (!e) c.fail("create", "the factory makes no element of type %d", (int)t);
    if (e->Type() != t) c.fail("create", "the factory makes an element of type %d for type %d", (int)e->Type(), (int)t);
    if (c.chance(1, 8)) for (const Kind& k : kKinds) {
      bool is = std::find(k.of, k.of + 12, (int)t) != k.of + 12; const Element* x = k.as(e);
      if (x != (is ? e.get() : NULL)) c.fail("kind", "an element of type %d %s taken for a %s", (int)t, is ? "is not" : "is", k.name);
    }
    std::string l;
    if (CoordinatesPtr x = AsCoordinates(e)) { l = format("%u,%u,%u", serial, serial % 7, serial % 3); x->add_latlngalt(serial % 7, serial, serial % 3); }
    else { l = format("e%u", serial); kmlbase::Attributes* a = new kmlbase::Attributes; a->SetString("u", l); e->AddUnknownAttributes(a); }
    ++serial;
    return fresh(e, l);
  }
  bool hold_is(int i, KmlDomType t) { return m[i].type == t; }
  bool below(int a, int b) { for (int k = a; k >= 0; k = m[k].in) if (k == b) return true; return false; }   // a is b or below it
  void sweep() {       // what nobody holds is gone
    std::vector<char> l(m.size(), 0); std::vector<int> todo;
    for (size_t i = 0; i < m.size(); ++i) if (hold[i]) { l[i] = 1; todo.push_back((int)i); }
    while (!todo.empty()) { int k = todo.back(); todo.pop_back(); for (auto& s : m[k].kids) for (int j : s.second) if (!l[j]) { l[j] = 1; todo.push_back(j); } }
    for (size_t i = 0; i < m.size(); ++i) if (alive[i] && !l[i]) { alive[i] = 0; for (auto& s : m[i].kids) for (int j : s.second) m[j].in = -1; }
  }
  // Reads the children through the interface.
  void look(int i, const char* when) {
    const E& e = hold[i];
    for (unsigned r = 0; r < kRelCount; ++r) {
      if (!e->IsA(kRels[r].ptype)) continue;
      auto it = m[i].kids.find(r); size_t want = it == m[i].kids.end() ? 0 : it->second.size(), got = kRels[r].size(e);
      if (got != want) c.fail("children", "%s: %s of %s has %zu elements, the edits made %zu", when, kRels[r].name, name(i), got, want);
      for (size_t k = 0; k < want; ++k) { E x = kRels[r].at(e, k); if (x.get() != m[it->second[k]].raw) c.fail("children", "%s: element %zu in %s of %s is not %s", when, k, kRels[r].name, name(i), name(it->second[k])); if (x->GetParent().get() != e.get()) c.fail("parent", "%s: %s in %s of %s names another parent", when, name(it->second[k]), kRels[r].name, name(i)); }
    }
    arrays(i, when);
    for (unsigned v = 0; v < kValCount; ++v) {
      if (!e->IsA(kVals[v].type)) continue;
      auto it = m[i].vals.find(v); bool has = kVals[v].has(e);
      if (has != (it != m[i].vals.end())) c.fail("value", "%s: %s of %s is %s", when, kVals[v].name, name(i), has ? "set" : "not set");
      if (!has) { std::map<unsigned, std::string>& d = defaults()[m[i].type]; if (kVals[v].get(e) != d[v]) c.fail("default", "%s: %s of %s is not set and reads %s, of a new one %s", when, kVals[v].name, name(i), quote(kVals[v].get(e), 60).c_str(), quote(d[v], 60).c_str()); }
      if (has && kVals[v].get(e) != it->second) c.fail("value", "%s: %s of %s is %s, the edits made it %s", when, kVals[v].name, name(i), quote(kVals[v].get(e), 60).c_str(), quote(it->second, 60).c_str());
    }
  }
  static std::map<KmlDomType, std::map<unsigned, std::string> >& defaults() { static auto* d = new std::map<KmlDomType, std::map<unsigned, std::string> >; return *d; }
  static std::string first(const std::string& s) { std::string t = gen_trim(s); return t.substr(0, t.find_first_of(" \n\t")); }
  static std::string joined(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; }
  static std::string spaced(const std::string& s) { std::string o; for (char ch : gen_trim(s)) { bool b = ch == ' ' || ch == '\n' || ch == '\t'; if (b && !o.empty() && o.back() == ' ') continue; o += b ? ' ' : ch; } return o; }
  std::string tuples(int i) { return m[i].label + (m[i].more.empty() ? "" : " ") + joined(m[i].more); }
  void arrays(int i, const char* when) {
    const E& e = hold[i];
    for (unsigned a = 0; a < kArrCount; ++a) {
      if (!e->IsA(kArrs[a].type)) continue;
      const std::vector<std::string>& w = m[i].arrs[a];
      if (kArrs[a].size(e) != w.size()) c.fail("value", "%s: %s of %s has %zu values, the edits made %zu", when, kArrs[a].name, name(i), kArrs[a].size(e), w.size());
      for (size_t k = 0; k < w.size(); ++k) if (kArrs[a].at(e, k) != w[k]) c.fail("value", "%s: value %zu of %s of %s is %s, the edits made it %s", when, k, kArrs[a].name, name(i), quote(kArrs[a].at(e, k), 40).c_str(), quote(w[k], 40).c_str());
    }
    if (CoordinatesPtr x = AsCoordinates(e)) {
      std::string got; for (size_t k = 0; k < x->get_coordinates_array_size(); ++k) { kmlbase::Vec3 v = x->get_coordinates_array_at(k); got += (k ? " " : "") + num(v.get_longitude()) + "," + num(v.get_latitude()) + "," + num(v.get_altitude()); }
      if (got != tuples(i)) c.fail("value", "%s: the coordinates %s read %s", when, tuples(i).c_str(), got.c_str());
    }
    if (ItemIconPtr x = AsItemIcon(e)) {
      if (x->has_state() != m[i].states) c.fail("value", "%s: the state of %s is %s", when, name(i), x->has_state() ? "set" : "not set");
      std::vector<std::string> got; for (size_t k = 0; k < x->get_state_array_size(); ++k) got.push_back(nth(kStates, x->get_state_array_at(k)));
      if (m[i].states && got != m[i].more) c.fail("value", "%s: the state of %s reads %s, the edits made it %s", when, name(i), joined(got).c_str(), joined(m[i].more).c_str());
    }
  }
  void compare(const Node& n, int i, const char* when) {
    if (m[i].type == Type_coordinates) { if (spaced(n.text) != tuples(i)) c.fail("serialized", "%s: coordinates %s serialized as %s", when, tuples(i).c_str(), quote(n.text, 60).c_str()); return; }
    const std::string* u = n.attr("u");
    if (!u || *u != m[i].label) c.fail("serialized", "%s: %s serialized as <%s> %s", when, name(i), n.name.c_str(), u ? u->c_str() : "without its attribute");
    std::map<std::string, int> of; for (auto& s : m[i].kids) for (int j : s.second) of[m[j].label] = (int)s.first;
    std::map<unsigned, std::vector<const Node*> > got; std::map<std::string, std::string> vals; std::map<unsigned, std::vector<std::string> > got_arr;
    for (const Node& k : n.kids) {
      const std::string* l = k.attr("u"); std::string lab = l ? *l : k.name == "coordinates" ? first(k.text) : "";
      if (lab.empty()) { bool arr = false; for (unsigned a = 0; a < kArrCount; ++a) if (kArrs[a].name == k.name && hold_is(i, kArrs[a].type)) { got_arr[a].push_back(k.text); arr = true; } if (arr) continue; if (vals.count(k.name)) c.fail("serialized", "%s: %s has <%s> twice", when, name(i), k.name.c_str()); vals[k.name] = k.text; }
      else if (!of.count(lab)) c.fail("serialized", "%s: %s contains <%s> %s, which no edit put there", when, name(i), k.name.c_str(), lab.c_str());
      else got[of[lab]].push_back(&k);
    }
    for (auto& a : n.attrs) if (a.first != "u" && a.first.compare(0, 5, "xmlns")) vals["@" + a.first] = a.second;
    for (auto& s : m[i].kids) {
      std::vector<const Node*>& g = got[s.first];
      if (g.size() != s.second.size()) c.fail("serialized", "%s: %s has %zu elements in %s, the edits made %zu", when, name(i), g.size(), kRels[s.first].name, s.second.size());
      for (size_t k = 0; k < g.size(); ++k) compare(*g[k], s.second[k], when);
    }
    std::map<std::string, std::string> want; for (auto& v : m[i].vals) want[kVals[v.first].name] = v.second;
    if (m[i].states) want["state"] = joined(m[i].more);
    if (m[i].type == Type_SimpleData || m[i].type == Type_Snippet || m[i].type == Type_linkSnippet) { if (!gen_trim(n.text).empty()) vals["#"] = n.text; }
    for (auto& a : m[i].arrs) if (a.second != got_arr[a.first]) c.fail("serialized", "%s: %s of %s is %s, the edits made it %s", when, kArrs[a.first].name, name(i), quote(joined(got_arr[a.first]), 60).c_str(), quote(joined(a.second), 60).c_str());
    for (auto& a : got_arr) if (!a.second.empty() && !m[i].arrs.count(a.first)) c.fail("serialized", "%s: %s has %s, which no edit made", when, name(i), kArrs[a.first].name);
    for (auto& v : want) if (!vals.count(v.first) || vals[v.first] != v.second) c.fail("serialized", "%s: %s of %s is %s, the edits made it %s", when, v.first.c_str(), name(i), vals.count(v.first) ? quote(vals[v.first], 60).c_str() : "absent", quote(v.second, 60).c_str());
    for (auto& v : vals) if (!want.count(v.first)) c.fail("serialized", "%s: %s has %s, which no edit set", when, name(i), v.first.c_str());
  }
  static std::string gen_trim(const std::string& s) { size_t a = s.find_first_not_of(" \n\t"), b = s.find_last_not_of(" \n\t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
  void under(int i, std::vector<int>* out) { out->push_back(i); for (auto& s : m[i].kids) for (int j : s.second) under(j, out); }
  void check(int i, const char* when) {
    look(i, when);
    std::string xml; bool pretty = c.choose(4) == 0;
    xml = pretty ? SerializePretty(hold[i]) : SerializeRaw(hold[i]);
    Node n; std::string why;
    if (!gen::parse(xml, &n, &why)) c.fail("unreadable", "%s: %s: %s", when, why.c_str(), quote(xml, 300).c_str());
    compare(n, i, when);
    std::vector<int> all; under(i, &all);
    Meet v; bool pre = c.choose(2);
    if (pre) { SimplePreorderDriver d(&v); d.Visit(hold[i]); } else { SimplePostorderDriver d(&v); d.Visit(hold[i]); }
    std::map<const Element*, size_t> at; for (size_t k = 0; k < v.seen.size(); ++k) { if (at.count(v.seen[k])) c.fail("visited", "%s: visiting %s meets an element twice", when, name(i)); at[v.seen[k]] = k; }
    for (int j : all) if (!at.count(m[j].raw) && !foreign(m[j].type)) c.fail("visited", "%s: visiting %s does not meet %s (type %d)", when, name(i), name(j), (int)m[j].type);
    size_t kml = 0; for (int j : all) kml += !foreign(m[j].type) || at.count(m[j].raw);
    if (at.size() != kml) c.fail("visited", "%s: visiting %s meets %zu elements of %zu", when, name(i), at.size(), kml);
    for (int j : all) for (auto& s : m[j].kids) for (size_t k = 0; k < s.second.size(); ++k) {
      if (foreign(m[j].type) || foreign(m[s.second[k]].type)) continue;
      size_t p = at[m[j].raw], q = at[m[s.second[k]].raw];
      if (pre ? p > q : p < q) c.fail("visited", "%s: %s and its child %s are met in the wrong order", when, name(j), name(s.second[k]));
      if (k && at[m[s.second[k - 1]].raw] > q) c.fail("visited", "%s: children of %s are met out of order", when, name(j));
    }
  }
  // The model of a copy, checked against the copy through the interface.
  int mirror(int i, const E& e, std::set<const Element*>* taken) {
    if (!e || e->Type() != m[i].type) c.fail("clone", "the clone of %s is of another kind", name(i));
    if (!taken->insert(e.get()).second) c.fail("clone", "the clone of %s shares an element with another", name(i));
    std::string label = m[i].label; std::map<unsigned, std::string> vals = m[i].vals;
    std::vector<std::string> more = m[i].more; std::map<unsigned, std::vector<std::string> > arrs = m[i].arrs; bool states = m[i].states;
    int k = fresh(e, label); m[k].vals = vals; m[k].more = more; m[k].arrs = arrs; m[k].states = states;
    std::map<unsigned, std::vector<int> > kids = m[i].kids;
    for (auto& s : kids) {
      if (kRels[s.first].size(e) != s.second.size()) c.fail("clone", "%s of the clone of %s has %zu elements instead of %zu", kRels[s.first].name, name(i), kRels[s.first].size(e), s.second.size());
      for (size_t q = 0; q < s.second.size(); ++q) { int j = mirror(s.second[q], kRels[s.first].at(e, q), taken); m[j].in = k; m[j].had = true; hold[j] = NULL; m[k].kids[s.first].push_back(j); }
    }
    return k;
  }
  // New marks for a copy, such that edits of one that show in the other are seen.
  void mark(int k, const E& e) {
    if (m[k].type != Type_coordinates) { m[k].label = format("e%u", serial++); kmlbase::Attributes* a = new kmlbase::Attributes; a->SetString("u", m[k].label); e->AddUnknownAttributes(a); }
    for (auto& s : m[k].kids) for (size_t q = 0; q < s.second.size(); ++q) mark(s.second[q], kRels[s.first].at(e, q));
  }
  std::string text() { static const char* k[] = {"a", "", "x & y", "<b>", "two words", "ünï", "]]>", "#s", "1"}; return k[c.choose(9)] + (c.choose(2) ? std::to_string(serial++) : ""); }
  kmlbase::Vec3 place() { return kmlbase::Vec3(((int)c.choose(1440) - 720) / 4.0, ((int)c.choose(720) - 360) / 4.0, ((int)c.choose(4000) - 1000) / 8.0); }
  void grow(int i) {
    if (CoordinatesPtr x = AsCoordinates(hold[i])) {
      if (c.choose(6) == 0) { c.log("clear coordinates %s", name(i)); x->Clear(); m[i].more.clear(); m[i].label = format("%u,%u,%u", serial, serial % 7, serial % 3); x->add_latlngalt(serial % 7, serial, serial % 3); ++serial; return; }
      kmlbase::Vec3 v = place(); unsigned k = c.choose(3); std::string t = num(v.get_longitude()) + "," + num(v.get_latitude());
      if (k == 0) x->add_latlng(v.get_latitude(), v.get_longitude()); else if (k == 1) x->add_latlngalt(v.get_latitude(), v.get_longitude(), v.get_altitude()); else x->add_vec3(v);
      t += "," + (k ? num(v.get_altitude()) : "0");
      c.log("add %s to coordinates %s", t.c_str(), name(i)); m[i].more.push_back(t);
      return;
    }
    if (ItemIconPtr x = AsItemIcon(hold[i])) {       // a new icon has a state by default, which is to be cleared first
      if (!m[i].states || c.choose(4) == 0) { c.log("clear the state of %s", name(i)); x->clear_state(); m[i].states = false; m[i].more.clear(); }
      if (c.choose(5)) { unsigned k = c.choose(6); c.log("add state %s to %s", nth(kStates, k).c_str(), name(i)); x->add_state(k); m[i].states = true; m[i].more.push_back(nth(kStates, k)); }
      return;
    }
    std::vector<unsigned> as; for (unsigned a = 0; a < kArrCount; ++a) if (hold_is(i, kArrs[a].type)) as.push_back(a);
    unsigned a = c.pick(as); std::string s = text(); kmlbase::Vec3 v = place(); std::string w = kArrs[a].vec ? vec(v) : s;
    c.log("add %s to %s of %s", quote(w, 40).c_str(), kArrs[a].name, name(i)); kArrs[a].add(hold[i], s, v); m[i].arrs[a].push_back(w);
  }
  void take_out(int i) {
      std::vector<unsigned> rs; for (auto& s : m[i].kids) if (s.second.size() && (!kRels[s.first].array || kRels[s.first].del)) rs.push_back(s.first);
      if (rs.empty()) return;
      unsigned r = c.pick(rs); std::vector<int>& v = m[i].kids[r];
      if (!kRels[r].array) { c.log("clear %s of %s", kRels[r].name, name(i)); kRels[r].clear(hold[i]); m[v[0]].in = -1; v.clear(); }
      else if (r == 0 && c.choose(2)) {
        int t = c.pick(v); unsigned idv = 0; if (hold[t] && c.choose(2)) { std::string s = c.choose(3) ? "i" + std::to_string(serial++) : "same"; c.log("set @id of %s to %s", name(t), s.c_str()); AsObject(hold[t])->set_id(s); m[t].vals[idv] = s; }
        auto it = m[t].vals.find(idv); std::string id = it == m[t].vals.end() ? c.choose(2) ? "no such" : "" : it->second;
        int want = -1; size_t at = 0; for (size_t k = 0; k < v.size() && want < 0; ++k) { auto x = m[v[k]].vals.find(idv); if (x != m[v[k]].vals.end() && x->second == id) { want = v[k]; at = k; } }
        c.log("delete %s from %s by id %s", want < 0 ? "nothing" : name(want), name(i), quote(id, 30).c_str());
        FeaturePtr f = AsContainer(hold[i])->DeleteFeatureById(id);
        if (f.get() != (want < 0 ? NULL : m[want].raw)) c.fail("deleted", "deleting the feature %s returns another one", quote(id, 30).c_str());
        if (want >= 0) { v.erase(v.begin() + at); m[want].in = -1; if (c.choose(2)) hold[want] = f; }
      } else {
        size_t k = c.choose((uint32_t)v.size() + 1); int want = k < v.size() ? v[k] : -1;
        c.log("delete element %zu of %s of %s", k, kRels[r].name, name(i));
        E f = kRels[r].del(hold[i], k);
        if (f.get() != (want < 0 ? NULL : m[want].raw)) c.fail("deleted", "deleting element %zu of %s returns another one", k, kRels[r].name);
        if (want >= 0) { v.erase(v.begin() + k); m[want].in = -1; if (c.choose(2)) hold[want] = f; }
      }
      sweep(); look(i, "after a removal");
  }
  // Several children of one kind, then some of them taken out again.
  void family() {
    std::vector<unsigned> rs; bool del = c.choose(2); for (unsigned r = 0; r < kRelCount; ++r) if (kRels[r].array && (!del || kRels[r].del)) rs.push_back(r);
    unsigned r = c.pick(rs), n = 2 + c.choose(9);
    std::vector<KmlDomType> ps, ts;
    for (unsigned t = 0; t < kTypeCount; ++t) { E e = KmlFactory::GetFactory()->CreateElementById(kTypes[t]); if (e && isa(e, kRels[r].ctype)) ts.push_back(kTypes[t]); if (e && e->IsA(kRels[r].ptype)) ps.push_back(kTypes[t]); }
    if (ps.empty() || ts.empty()) c.fail("create", "no type for %s", kRels[r].name);
    int i = create(c.pick(ps));
    c.log("%u elements in %s of %s", n, kRels[r].name, name(i)); c.probe("several children");
    for (unsigned k = 0; k < n; ++k) { int j = create(c.pick(ts)); kRels[r].put(hold[i], hold[j]); m[j].had = true; m[j].in = i; m[i].kids[r].push_back(j); if (c.choose(2)) hold[j] = NULL; look(i, "after an edit"); }
    if (kRels[r].del) for (unsigned k = c.choose(n + 1); k > 0; --k) take_out(i);
    check(i, "several children");
  }
  void step() {
    unsigned op = c.choose(20); int i = held();
    if (c.chance(1, 24)) { family(); return; }
    if (c.chance(1, 200)) {                              // a deep nest
      unsigned n = 2 + c.choose(44); KmlDomType t = c.choose(3) ? Type_Folder : Type_MultiGeometry; int top = create(t), at = top; unsigned r = t == Type_Folder ? 0 : 4;
      c.log("nest %u levels below %s", n, name(top)); c.probe("deep nest");
      for (unsigned k = 0; k < n; ++k) { int j = create(t); kRels[r].put(hold[at], hold[j]); m[j].had = true; m[j].in = at; m[at].kids[r].push_back(j); if (at != top) hold[at] = NULL; at = j; }
      check(top, "nest");
      return;
    }
    if (i < 0 || op < 5) { int k = create(kTypes[c.choose(c.choose(2) ? 10 : kTypeCount)]); c.log("create %s type %d", name(k), (int)m[k].type); return; }
    if (op < 12) {                                       // put a child
      std::vector<unsigned> rs; for (unsigned r = 0; r < kRelCount; ++r) if (hold[i]->IsA(kRels[r].ptype) && !(m[i].type == Type_Document && r == 5)) rs.push_back(r);   // a Document has its styles in an array
      if (rs.empty()) return;
      unsigned r = c.pick(rs); int j = -1;
      if (c.chance(1, 24)) {                             // nothing, or an element of another kind
        E x; std::vector<int> o; for (size_t k = 0; k < hold.size(); ++k) if (hold[k] && !isa(hold[k], kRels[r].ctype)) o.push_back((int)k);
        int j = o.empty() || c.choose(2) ? -1 : c.pick(o); if (j >= 0) x = hold[j];
        c.log("%s %s into %s of %s: nothing", kRels[r].array ? "add" : "set", j < 0 ? "no element" : name(j), kRels[r].name, name(i));
        kRels[r].put(hold[i], x);
        if (!kRels[r].array && m[i].kids[r].size()) { m[m[i].kids[r][0]].in = -1; m[i].kids[r].clear(); }
        x = NULL; sweep(); look(i, "after an edit with nothing"); if (j >= 0 && hold[j]) look(j, "after it was put where it does not belong"); c.probe("nothing put");
        return;
      }
      std::vector<int> cand; for (size_t k = 0; k < hold.size(); ++k) if (hold[k] && isa(hold[k], kRels[r].ctype) && !below(i, (int)k) && !(m[k].had && m[k].in < 0)) cand.push_back((int)k);
      if (cand.empty() || c.choose(3) == 0) {
        std::vector<KmlDomType> ts; for (unsigned t = 0; t < kTypeCount; ++t) { E e = KmlFactory::GetFactory()->CreateElementById(kTypes[t]); if (e && isa(e, kRels[r].ctype)) ts.push_back(kTypes[t]); }
        if (ts.empty()) c.fail("create", "no type for %s", kRels[r].name);
        j = create(c.pick(ts));
      } else j = c.pick(cand);
      bool ok = !m[j].had;
      c.log("%s %s into %s of %s: %s", kRels[r].array ? "add" : "set", name(j), kRels[r].name, name(i), ok ? "accept" : "refuse");
      kRels[r].put(hold[i], hold[j]);
      if (ok) {
        ++accepted; m[j].had = true; m[j].in = i;
        if (!kRels[r].array && m[i].kids[r].size()) { m[m[i].kids[r][0]].in = -1; m[i].kids[r].clear(); }
        m[i].kids[r].push_back(j);
        if (c.choose(3) == 0) hold[j] = NULL;
      } else { ++refused; c.fault("element that has a parent"); int t = m[j].in; if (t >= 0 && hold[t]) look(t, "after a refused edit"); if (m[j].in >= 0) look(j, "after a refused edit"); }
      sweep(); look(i, "after an edit");
      return;
    }
    if (op < 14) {                                       // values
      if (c.choose(3) == 0 && (m[i].type == Type_coordinates || m[i].type == Type_ItemIcon || m[i].type == Type_GxTrack || m[i].type == Type_GxSimpleArrayData)) { grow(i); look(i, "after adding a value"); return; }
      std::vector<unsigned> vs; for (unsigned v = 0; v < kValCount; ++v) if (hold[i]->IsA(kVals[v].type)) vs.push_back(v);
      if (vs.empty()) return;
      for (unsigned times = 1 + c.choose(4); times; --times) {
      unsigned v = c.pick(vs);
      if (c.choose(4) == 0) { c.log("clear %s of %s", kVals[v].name, name(i)); kVals[v].clear(hold[i]); m[i].vals.erase(v); }
      else {
        char k = kVals[v].kind; std::string s = k == 's' ? text() : ""; double d = k == 'b' ? c.choose(2) : k == 'i' ? (int)c.choose(2000) - 100 : k == 'e' ? c.choose(how_many(kVals[v].names)) : k == 'c' ? c.choose(65536) * 65536.0 + c.choose(65536) : ((int)c.choose(4000) - 1000) / 8.0;
        if (kVals[v].name[0] == '#' && s.empty()) s = "t";
        std::string w = k == 's' ? s : k == 'e' ? nth(kVals[v].names, (int)d) : k == 'c' ? format("%08x", (uint32_t)d) : num(d);
        c.log("set %s of %s to %s", kVals[v].name, name(i), quote(w, 40).c_str());
        kVals[v].set(hold[i], s, d); m[i].vals[v] = w;
      }
      look(i, "after a value");
      }
      return;
    }
    if (op < 16) { take_out(i); return; }
    if (op == 16) {                                      // clone
      std::vector<int> all; under(i, &all); if (all.size() > 60 || m.size() > 300) return;
      c.log("clone %s with %zu elements", name(i), all.size());
      E e = kmlengine::Clone(hold[i]);
      std::set<const Element*> taken; for (size_t k = 0; k < m.size(); ++k) if (alive[k]) taken.insert(m[k].raw);
      int k = mirror(i, e, &taken);
      ++clones; c.probe("clone"); check(k, "clone");
      mark(k, hold[k]);
      check(k, "marked clone"); check(i, "cloned");
      return;
    }
    if (op == 17) {                                      // a holder takes a reference from the tree
      std::vector<std::pair<unsigned, size_t> > ks; for (auto& s : m[i].kids) for (size_t k = 0; k < s.second.size(); ++k) ks.push_back(std::make_pair(s.first, k));
      if (ks.empty()) return;
      auto p = c.pick(ks); int j = m[i].kids[p.first][p.second]; c.log("hold %s through %s", name(j), name(i)); hold[j] = kRels[p.first].at(hold[i], p.second);
      if (c.chance(1, 8)) { unsigned n = 1 + c.choose(400); c.log("%u more references to %s for a while", n, name(j)); std::vector<E> more(n, hold[j]); check(j, "held often"); }
      return;
    }
    if (op == 18) { c.log("let go of %s", name(i)); c.fault("holder lets go"); hold[i] = NULL; sweep(); return; }
    c.log("check %s", name(i)); check(i, "during");
  }
};
}  // namespace

// A document from outside: its clone is equal, independent and outlives it.
static void cloned(Ctx& c) {
  gen::Opts o; o.budget = 4 + c.choose(40); o.misplaced = c.choose(3) == 0;
  Node n = gen::document(c, o);
  std::string xml = gen::write_plain(n), err;
  E root = kmldom::Parse(xml, &err);
  c.log("parse %zu bytes -> %d", xml.size(), root != NULL); c.note("%s", xml.c_str());
  if (!root) c.fail("refused", "a well-formed document is refused: %s", err.c_str());
  if (c.choose(2)) { Meet all; SimplePreorderDriver d(&all); d.Visit(root); E part(const_cast<Element*>(all.seen[c.choose((uint32_t)all.seen.size())])); root = part; c.log("take a part, type %d", (int)root->Type()); }
  std::string before = SerializeRaw(root);
  E copy = kmlengine::Clone(root);
  if (!copy) c.fail("clone", "no clone");
  std::string s = SerializeRaw(copy);
  if (s != before) c.fail("clone", "a clone differs from its source: %s", gen::diff(before, s).c_str());
  if (SerializeRaw(root) != before) c.fail("clone", "cloning altered the source");
  Meet a, b; { SimplePreorderDriver d(&a); d.Visit(root); } { SimplePreorderDriver d(&b); d.Visit(copy); }
  if (a.seen.size() != b.seen.size()) c.fail("visited", "visiting meets %zu elements of a document and %zu of its clone", a.seen.size(), b.seen.size());
  std::set<const Element*> mine(a.seen.begin(), a.seen.end());
  for (const Element* e : b.seen) if (mine.count(e)) c.fail("clone", "a clone shares an element with its source");
  // Edits of the one do not show in the other.
  E victim = c.choose(2) ? copy : root, other = victim == copy ? root : copy;
  class Edit : public Visitor { public: Ctx& c; unsigned n; explicit Edit(Ctx& x) : c(x), n(0) {} virtual void VisitFeature(const FeaturePtr& f) { if (c.choose(2)) return; ++n; f->set_name("edited"); f->clear_description(); f->clear_region(); f->clear_abstractview(); f->clear_extendeddata(); } } ed(c);
  { SimplePostorderDriver d(&ed); d.Visit(victim); }
  if (SerializeRaw(other) != before) c.fail("clone", "an edit of %u features shows in the %s", ed.n, other == root ? "source" : "clone");
  victim = NULL; if (other == copy) root = NULL; else copy = NULL;
  c.log("edited %u features, let go of the %s", ed.n, root ? "clone" : "source"); c.fault("holder lets go");
  if (SerializeRaw(other) != before) c.fail("clone", "%s changed when the other was released", root ? "source" : "clone");
  ++c.nontrivial; c.probe("document cloned");
  c.state(hash_str(format("c %zu %u", before.size() / 200, ed.n)));
}

static void history(Ctx& c) {
  Sim s(c);
  unsigned n = 8 + c.choose(90);
  for (unsigned i = 0; i < n; ++i) s.step();
  for (size_t i = 0; i < s.m.size(); ++i) if (s.hold[i]) s.check((int)i, "at the end");
  if (s.accepted) c.nontrivial = 1;
  c.state(hash_str(format("%u %u %u %zu", s.accepted, s.refused, s.clones, s.m.size() / 4)));
}

static void run(Ctx& c) {
  if (c.choose(5) == 1) { cloned(c); return; }
  // Tables made on first use are not leaks.
  static bool warm = false;
  if (!warm) { warm = true; for (unsigned t = 0; t < kTypeCount; ++t) { E e = KmlFactory::GetFactory()->CreateElementById(kTypes[t]); if (e) { SerializePretty(e); kmlengine::Clone(e); for (unsigned v = 0; v < kValCount; ++v) if (e->IsA(kVals[v].type)) Sim::defaults()[kTypes[t]][v] = kVals[v].get(e); } } }
  simmem::start();
  history(c);
  simmem::stop();
  simmem::Report r = simmem::report();
  if (r.outstanding) c.fail("leak", "%zu blocks are still allocated (one of %zu bytes) though nobody holds anything", r.outstanding, simmem::an_outstanding_size());
}
SIM_PROP(C25, run);
