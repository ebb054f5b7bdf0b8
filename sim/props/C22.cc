// C22: the locale of the process or thread changes nothing, and the library
// never changes it.
#include <locale.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <clocale>
#include <locale>
#include <memory>
#include <sstream>
#include "../core.h"
#include "../gen.h"
#include "../simfs.h"
#include "../simsched.h"
#include "../workload.h"
#include "kml/base/attributes.h"
#include "kml/base/color32.h"
#include "kml/base/date_time.h"
#include "kml/base/localec.h"
#include "kml/base/string_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/expat_parser.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/regionator/regionator_qid.h"
using namespace sim;

// The sanitizer's versions of these ignore the locale; the C library's do not.
extern "C" int strncasecmp(const char* a, const char* b, size_t n) throw() {
  for (size_t i = 0; i < n; ++i) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!a[i]) return 0; }
  return 0;
}
extern "C" int strcasecmp(const char* a, const char* b) throw() { return strncasecmp(a, b, (size_t)-1); }

namespace oddlocale { std::locale make(int k); }
namespace sim { extern __thread int t_in_harness; }
namespace {
struct Place { std::string name; locale_t c; };
std::vector<Place>* g_c = NULL;           // C locales
std::vector<std::pair<std::string, std::locale> >* g_cxx = NULL;
void prepare() {
  if (g_c) return;
  InHarness ih;
  setenv("LOCPATH", SIM_LOCALES, 1);
  g_c = new std::vector<Place>; g_cxx = new std::vector<std::pair<std::string, std::locale> >;
  static const char* names[] = {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8", "hi_IN.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "ru_RU.KOI8-R"};
  g_cxx->push_back(std::make_pair("classic", std::locale::classic()));
  for (int k = 0; k < 3; ++k) g_cxx->push_back(std::make_pair("composed " + std::to_string(k), oddlocale::make(k)));
  for (size_t i = 0; i < sizeof names / sizeof names[0]; ++i) {
    locale_t l = newlocale(LC_ALL_MASK, names[i], (locale_t)0);
    if (!l) continue;
    g_c->push_back(Place{names[i], l});
    if (i) try { g_cxx->push_back(std::make_pair(names[i], std::locale(names[i]))); } catch (std::exception&) {}
  }
}
std::string d2s(double d) { uint64_t u; memcpy(&u, &d, 8); char b[40]; snprintf(b, sizeof b, "<%llx>", (unsigned long long)u); return b; }

// Work whose answers are mostly numbers.
workload::Op numbers_op(Ctx& c) {
  std::string n = gen::number(c), m = std::to_string(1000 + c.choose(2000000)) + "." + std::to_string(c.choose(100000)), pad(c.choose(3) ? 0 : 10 + c.choose(1500), '\n');
  std::string i = std::to_string(c.choose(2000000));
  std::string ws = c.choose(2) ? " " : "\n\t", co = "-122." + std::to_string(c.choose(100000)) + ",37." + std::to_string(c.choose(100000)) + "," + m + ws + "1,2.5";
  std::string x = "<kml><Document>" + pad + "<Placemark><LookAt><range>" + m + "</range><heading>" + n + "</heading></LookAt><Style><LineStyle><color>8fAbCdEf</color><width>" + n + "</width></LineStyle></Style><TimeStamp><when>2007-05-23T17:46:22Z</when></TimeStamp>"
      "<LineString><tessellate>1</tessellate><coordinates>" + co + "</coordinates></LineString></Placemark><GroundOverlay><drawOrder>" + i + "</drawOrder><LatLonBox><north>" + m + "</north><rotation>-12.75</rotation></LatLonBox></GroundOverlay>"
      "<Placemark><gx:Track><when>2010-05-28T02:02:09Z</when><gx:coord>" + n + " 2.5 " + m + "</gx:coord></gx:Track></Placemark><NetworkLink><Link><refreshInterval>" + m + "</refreshInterval></Link></NetworkLink></Document></kml>";
  if (c.choose(3) == 0) x.resize(x.size() - 1 - c.choose(6));   // an error message with line numbers
  static const char* head[] = {"name,latitude,longitude,x\n", "NAME,LATITUDE,LONGITUDE,X\n", "Name,Latitude,Longitude,Style-ID\n"};
  std::string csv = head[c.choose(3)]; for (unsigned k = 1 + c.choose(15); k-- > 0;) csv += "p,37." + std::to_string(c.choose(100000)) + ",-122.5," + n + "\n";
  std::string when = format("%04u-%02u-%02uT%02u:%02u:%02uZ", c.chance(1, 4) ? 1900 + c.choose(70) : 1970 + c.choose(c.choose(4) ? 80 : 8000), 1 + c.choose(12), 1 + c.choose(28), c.choose(24), c.choose(60), c.choose(60));
  std::string gpx = "<gpx><trkpt lat=\"37." + i + "\" lon=\"-12.5\"><ele>" + m + "</ele><time>t</time></trkpt></gpx>";
  return workload::Op{"numbers", [=]() {
    std::string out, e;
    kmldom::ElementPtr el = kmldom::Parse(x, &e);
    out += e + "\n"; if (el) out += kmldom::SerializePretty(el) + kmldom::SerializeRaw(el);
    class H : public kmlconvenience::CsvParserHandler { public: std::string* out; bool HandleLine(int l, kmlconvenience::CsvParserStatus st, kmldom::PlacemarkPtr p) override { *out += std::to_string(l) + ":" + std::to_string(st); if (p) *out += kmldom::SerializeRaw(p); return true; } } h;
    h.out = &out; kmlbase::CsvSplitter sp(csv); out += kmlconvenience::CsvParser::ParseCsv(&sp, &h) ? "y" : "n";
    class G : public kmlconvenience::GpxTrkPtHandler { public: std::string* out; void HandlePoint(const kmlbase::Vec3& w, const std::string& when) override { *out += d2s(w.get_latitude()) + d2s(w.get_longitude()) + d2s(w.get_altitude()) + when; } } g;
    g.out = &out; out += kmlbase::ExpatParser::ParseString(gpx, &g, &e, false) ? "y" : "n";
    double d = 0; int k = 0; bool b = false;
    out += kmlbase::StringToDouble(m, &d) ? d2s(d) : "-"; kmlbase::FromString(m, &d); out += d2s(d); kmlbase::FromString(i, &k); out += std::to_string(k);
    out += kmlbase::ToString(d) + " " + kmlbase::ToString((float)d) + " " + kmlbase::ToString(k) + " " + kmlbase::ToString(k > 5) + " " + kmlbase::ToString((unsigned)k);
    kmlbase::Attributes a; a.SetValue("d", d); a.SetValue("i", k); a.SetValue("b", true); std::string s; a.GetString("d", &s); out += s; a.GetString("i", &s); out += " " + s; a.GetString("b", &s); out += " " + s;
    a.SetString("q", m); d = 0; a.GetValue("q", &d); out += d2s(d); a.GetValue("b", &b); out += b ? "t" : "f";
    std::unique_ptr<kmlbase::DateTime> dt(kmlbase::DateTime::Create(when)); if (dt) out += dt->GetXsdDateTime() + dt->GetXsdDate() + dt->GetXsdTime() + std::to_string((long long)dt->GetTimeT());
    out += std::to_string((long long)kmlbase::DateTime::ToTimeT(when));
    out += kmlregionator::Qid::CreateRoot().CreateChild(kmlregionator::SE).CreateChild(kmlregionator::NW).str();
    std::vector<std::string> v; kmlbase::SplitStringUsing(csv, ",", &v); out += std::to_string(v.size());
    kmlbase::Color32 cc("#80aBcDeF"); out += cc.to_string_abgr();
    return out;
  }};
}
std::string perform(const workload::Op& op) {
  try { return op.run(); }
  catch (Violation&) { throw; }
  catch (std::exception&) { return "exception"; }
}
void disk() {
  std::map<std::string, std::string> all = simfs::snapshot();
  for (auto& i : all) simfs::rm(i.first);
  simfs::mkdir("/tmp"); simfs::mkdir("/w");
}
std::string c_now() { const char* s = setlocale(LC_ALL, NULL); return s ? s : "?"; }

struct World {            // what the application last set
  std::string c_locale; std::locale cxx; locale_t thread;
};
void compare(Ctx& c, const World& w, const char* when) {
  std::string n = c_now();
  if (n != w.c_locale) c.fail("process-locale", "%s the process's locale is %s; the application set %s", when, n.c_str(), w.c_locale.c_str());
  if (!(std::locale() == w.cxx)) c.fail("global-locale", "%s the global C++ locale is %s; the application set %s", when, std::locale().name().c_str(), w.cxx.name().c_str());
}
}  // namespace

static void run(Ctx& c) {
  prepare();
  setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); uselocale(LC_GLOBAL_LOCALE);
  setenv("TZ", "UTC0", 1); tzset();
  simfs::activate(true);
  std::vector<workload::Op> ops; workload::Opts o; o.budget = 8;
  unsigned n = 1 + c.choose(3);
  for (unsigned i = 0; i < n; ++i) { ops.push_back(c.choose(2) ? numbers_op(c) : workload::make(c, o, "/w")); c.log("operation %s", ops.back().name.c_str()); }
  std::vector<std::string> want;
  disk();
  for (unsigned i = 0; i < n; ++i) want.push_back(perform(ops[i]));
  disk();
  sched::Plan p = sched::plan(c);
  unsigned own = c.choose(3) ? 0 : (unsigned)c.choose((uint32_t)g_c->size() + 1);   // the worker's own thread locale
  static const char* const zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-12>12", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3"};
  World w; w.c_locale = c_now(); w.cxx = std::locale(); w.thread = LC_GLOBAL_LOCALE;
  bool over = false; unsigned changes = 0;
  struct Undo { ~Undo() { InHarness ih; setenv("TZ", "UTC0", 1); tzset(); uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); std::locale::global(std::locale::classic()); } } undo;
  auto change = [&]() {
    InHarness ih;
    switch (c.choose(5)) {
      case 4: { const char* z = zones[c.choose(7)]; setenv("TZ", z, 1); tzset(); c.log("time zone %s", z); c.fault("time-zone-switched"); break; }
      case 0: { static const int cats[] = {LC_ALL, LC_NUMERIC, LC_CTYPE, LC_TIME, LC_COLLATE}; int k = c.choose(5); const std::string& l = (*g_c)[c.choose((uint32_t)g_c->size())].name; setlocale(cats[k], l.c_str()); c.log("setlocale %d %s", k, l.c_str()); c.fault("c-locale-switched"); break; }
      case 1: { auto& l = (*g_cxx)[c.choose((uint32_t)g_cxx->size())]; std::locale::global(l.second); c.log("global %s", l.first.c_str()); c.fault("cxx-locale-switched"); break; }
      default: { auto& l = (*g_cxx)[1 + c.choose((uint32_t)g_cxx->size() - 1)]; std::locale::global(l.second); const std::string& k = (*g_c)[c.choose((uint32_t)g_c->size())].name; setlocale(LC_ALL, k.c_str()); c.log("global %s, setlocale %s", l.first.c_str(), k.c_str()); c.fault("both-locales-switched"); }
    }
    ++changes; w.c_locale = c_now(); w.cxx = std::locale();
  };
  if (c.choose(4)) change();     // before the work starts
  std::vector<std::function<void()> > bodies;
  bodies.push_back([&]() {
    locale_t mine = LC_GLOBAL_LOCALE;
    if (own) { InHarness ih; mine = (*g_c)[own - 1].c; uselocale(mine); c.log("thread locale %s", (*g_c)[own - 1].name.c_str()); }
    for (unsigned i = 0; i < n; ++i) {
      std::string got = perform(ops[i]);
      InHarness ih;
      if (got != want[i]) {
        size_t k = 0; while (k < got.size() && k < want[i].size() && got[k] == want[i][k]) ++k; size_t a = k > 30 ? k - 30 : 0;
        c.fail("different", "%s answers %s; in the C locale %s", ops[i].name.c_str(), quote(got.substr(a, 90)).c_str(), quote(want[i].substr(a, 90)).c_str());
      }
      if (uselocale((locale_t)0) != mine) c.fail("thread-locale", "after %s the thread's locale is not the one the application set", ops[i].name.c_str());
      compare(c, w, ("after " + ops[i].name).c_str());
    }
    // The scope class.
    {
      kmlbase::LocaleC scope;
      char b[40]; std::string s;
      { InHarness ih; snprintf(b, sizeof b, "%.2f", 1234.5); s = b; if (s != "1234.50") c.fail("scope", "within LocaleC 1234.5 is printed %s", b); if (strtod("2.5", NULL) != 2.5) c.fail("scope", "within LocaleC 2.5 is read as %g", strtod("2.5", NULL)); }
      { kmlbase::LocaleC inner; }
      { InHarness ih; snprintf(b, sizeof b, "%.1f", 0.5); s = b; if (s != "0.5") c.fail("scope", "an inner LocaleC ends the outer one: %s", b); }
    }
    InHarness ih;
    if (uselocale((locale_t)0) != mine) c.fail("thread-locale", "LocaleC did not put back the thread's locale");
    compare(c, w, "after LocaleC");
    if (own) uselocale(LC_GLOBAL_LOCALE);
    over = true;
  });
  bodies.push_back([&]() {
    unsigned most = 1 + c.choose(30);
    for (unsigned k = 0; k < most && !over; ++k) {
      sched::point("application");
      if (over) break;
      InHarness ih;
      compare(c, w, "while the library works,");
      change();
      int h = t_in_harness; t_in_harness = 0; sched::yield(); t_in_harness = h;
    }
  });
  sched::run(c, p, bodies);
  if (changes > 1) ++c.nontrivial;
  c.injected("preemption", sched::switches());
  c.log("end: %u changes %llu switches", changes, (unsigned long long)sched::switches());
  std::string names; for (auto& op : ops) names += op.name;
  c.state(hash_str(format("%s %u %s %s", names.c_str(), own, w.c_locale.c_str(), w.cxx.name().c_str())));
}
SIM_PROP(C22, run);
