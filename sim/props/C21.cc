// C21: CSV import delivers each record once, whole, until told to stop.
#include <stdlib.h>
#include <algorithm>
#include <stdexcept>
#include "../core.h"
#include "../simfs.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/file.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/feature_list.h"
#include "kml/dom.h"
using namespace sim;
using namespace kmlconvenience;

static std::string coord(Ctx& c, int span) {
  std::string s = c.choose(2) ? "-" : "";
  s += std::to_string(c.choose(span));
  if (c.choose(2)) s += "." + std::to_string(c.choose(100000)) + "5";
  return s;
}
static std::string word(Ctx& c, bool hard) {
  static const char* kHard[] = {"a,b", "say \"hi\"", "\"", "", "x y", "caf\xc3\xa9", "<b>&amp;</b>", "1;2", "tab\there", "''", "a#b", ",", "\"\"", "|", " lead", "trail ", "a long value that is longer than any small buffer would be, with a comma in the middle of it all"};
  if (hard && c.choose(3) == 0) return kHard[c.choose(17)];
  std::string s; unsigned n = 1 + c.choose(8);
  for (unsigned i = 0; i < n; ++i) s += (char)('a' + c.choose(26));
  if (c.chance(1, 40)) { s += std::string(1 + c.choose(9000), 'z'); }
  return s;
}
// Writes one cell in one of its spellings.
static std::string cell(Ctx& c, const std::string& v) {
  bool must = v.find_first_of(",\"") != std::string::npos || (!v.empty() && (isspace((unsigned char)v[0]) || isspace((unsigned char)v[v.size() - 1])));
  std::string pre = c.chance(1, 5) ? (c.choose(2) ? " " : "\t ") : "", post = c.chance(1, 5) ? "  " : "";
  if (!must && c.choose(3)) return pre + v + post;
  std::string q = "\"";
  for (char ch : v) { q += ch; if (ch == '"') q += ch; }
  q += "\"";
  if (c.chance(1, 10)) post += "ignored";
  return pre + q + post;
}
struct Expect { CsvParserStatus status; std::string name, desc, id, style; double lat, lon; std::vector<std::pair<std::string, std::string> > data; };

struct Stop {};
class Handler : public CsvParserHandler {
 public:
  Handler(Ctx& c) : c_(c) {}
  struct Got { int line; CsvParserStatus status; kmldom::PlacemarkPtr p; };
  std::vector<Got> got; long stop_at = -1; bool throws = false, stopped = false, late = false;
  bool HandleLine(int line, CsvParserStatus st, kmldom::PlacemarkPtr p) override {
    InHarness ih;
    c_.step();
    if (stopped) late = true;
    Got g = {line, st, p}; got.push_back(g);
    c_.log("line %d status %d", line, st);
    if ((long)got.size() - 1 == stop_at) { stopped = true; c_.fault(throws ? "consumer exception" : "consumer stops"); if (throws) throw Stop(); return false; }
    return true;
  }
 private:
  Ctx& c_;
};

static void check_point(Ctx& c, const kmldom::PlacemarkPtr& p, double lat, double lon, int line) {
  kmldom::PointPtr pt = kmldom::AsPoint(p->get_geometry());
  if (!pt || !pt->has_coordinates() || pt->get_coordinates()->get_coordinates_array_size() != 1) c.fail("record", "line %d has no point", line);
  kmlbase::Vec3 v = pt->get_coordinates()->get_coordinates_array_at(0);
  if (v.get_latitude() != lat || v.get_longitude() != lon) c.fail("record", "line %d is at %.17g,%.17g instead of %.17g,%.17g", line, v.get_latitude(), v.get_longitude(), lat, lon);
}

static void csv(Ctx& c) {
  // The schema.
  std::vector<std::string> schema; std::vector<int> kind;  // 0 other, 1 name, 2 desc, 3 lat, 4 lon, 5 id, 6 style
  static const char* kNames[] = {"", "name", "description", "latitude", "longitude", "feature-id", "style-id"};
  std::vector<int> pool = {3, 4};
  for (int k : {1, 2, 5, 6}) if (c.choose(2)) pool.push_back(k);
  unsigned others = c.choose(4);
  for (unsigned i = 0; i < others; ++i) pool.push_back(0);
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[c.choose((uint32_t)i)]);
  if (c.chance(1, 12)) { pool.erase(std::find(pool.begin(), pool.end(), c.choose(2) ? 3 : 4)); }
  bool has_lat = false, has_lon = false;
  std::string text;
  for (size_t i = 0; i < pool.size(); ++i) {
    std::string n = pool[i] ? kNames[pool[i]] : "col" + std::to_string(i) + word(c, false).substr(0, 20);
    has_lat |= pool[i] == 3; has_lon |= pool[i] == 4;
    if (pool[i]) for (char& ch : n) if (c.chance(1, 6)) ch = (char)toupper(ch);
    schema.push_back(n);
    text += (i ? "," : "") + cell(c, n);
  }
  static const char* kEol[] = {"\n", "\r\n", "\r", "\n\n"};
  std::vector<Expect> want;
  unsigned lines = c.choose(9);
  bool lead_blank = c.chance(1, 30);
  if (lead_blank) text = "\n" + text;
  unsigned mixed = c.choose(4);
  for (unsigned l = 0; l < lines; ++l) {
    text += kEol[c.chance(1, 5) ? c.choose(4) : mixed];
    Expect e; e.status = CSV_PARSER_STATUS_OK; e.lat = e.lon = 0;
    unsigned flaw = c.choose(8);          // 0 comment, 1 too few, 2 too many, 3 bad number
    std::string row;
    size_t cols = schema.size();
    if (flaw == 1 && cols > 1) cols -= 1; else if (flaw == 1) flaw = 7;
    for (size_t i = 0; i < cols; ++i) {
      std::string v;
      if (pool[i] == 3 || pool[i] == 4) {
        v = coord(c, pool[i] == 3 ? 90 : 180);
        (pool[i] == 3 ? e.lat : e.lon) = strtod(v.c_str(), NULL);
        if (flaw == 3 && pool[i] == 3) v = c.choose(2) ? "" : "north";
      } else v = word(c, true);
      if (i == 0 && flaw == 0) v = "#" + word(c, false);
      if (i == 0 && flaw != 0 && !v.empty() && v[0] == '#') v = "x" + v;
      // A lone empty cell would be a blank line.
      std::string spelled = cell(c, v);
      if (schema.size() == 1 && spelled.empty()) spelled = "\"\"";
      row += (i ? "," : "") + spelled;
      if (pool[i] == 1) e.name = v; else if (pool[i] == 2) e.desc = v; else if (pool[i] == 5) e.id = v; else if (pool[i] == 6) e.style = v;
      else if (pool[i] == 0) e.data.push_back(std::make_pair(schema[i], v));
    }
    if (flaw == 2) row += "," + cell(c, word(c, true));
    e.status = flaw == 0 ? CSV_PARSER_STATUS_COMMENT : flaw == 1 || flaw == 2 ? CSV_PARSER_STATUS_INVALID_DATA : flaw == 3 ? CSV_PARSER_STATUS_BAD_LAT_LON : CSV_PARSER_STATUS_OK;
    if (flaw == 0 && c.choose(2)) row = "# note " + std::to_string(l);
    if (row.empty()) { row = "\"\""; }
    text += row; want.push_back(e);
    if (c.chance(1, 8)) { text += kEol[c.choose(3)]; text += row; want.push_back(e); ++lines; ++l; }   // the same again
  }
  if (c.choose(2)) text += kEol[c.choose(4)];
  // The data comes from a file.
  simfs::put("/sim/in.csv", text);
  simfs::Faults f;
  unsigned mode = c.choose(3);
  if (mode) f.read_short = 60;
  if (mode == 2) { f.read_err = 40; f.skip = c.choose(4); }
  simfs::mark(); simfs::faults() = f;
  std::string data;
  bool ok = kmlbase::File::ReadFileToString("/sim/in.csv", &data);
  unsigned hard = simfs::counters().hard + simfs::counters().soft;
  simfs::no_faults();
  if (!ok) { if (!hard) c.fail("spurious-failure", "reading failed without a fault"); c.probe("file not read"); return; }
  kmlbase::CsvSplitter splitter(data);
  Handler h(c);
  if (c.choose(2)) { h.stop_at = c.choose(lines + 1); h.throws = c.chance(1, 4); }
  bool threw = false, done = false;
  try { done = CsvParser::ParseCsv(&splitter, &h); } catch (const Stop&) { threw = true; }
  c.log("%u lines, %zu delivered -> %d threw %d", lines, h.got.size(), done, threw);
  if (h.late) c.fail("after-stop", "records were delivered after the consumer asked to stop");
  if (lead_blank || !has_lat || !has_lon) {
    if (done) c.fail("schema", "an import without a usable header reports success");
    if (h.got.size() != 1 || h.got[0].line != 1 || h.got[0].p || h.got[0].status != (lead_blank ? CSV_PARSER_STATUS_BLANK_LINE : CSV_PARSER_STATUS_NO_LAT_LON)) c.fail("schema", "a bad header was reported as %d in %zu records", h.got.empty() ? -1 : h.got[0].status, h.got.size());
    c.probe("bad header");
    return;
  }
  size_t n = want.size();
  bool cut = h.stop_at >= 0 && (size_t)h.stop_at < n;
  if (cut) n = (size_t)h.stop_at + 1;
  if (h.got.size() != n) c.fail("count", "%zu of %zu records delivered (stop %d)", h.got.size(), n, cut);
  if (threw != (cut && h.throws)) c.fail("exception", "the consumer's exception was %s", threw ? "invented" : "swallowed");
  if (!threw && done == cut) c.fail("result", "the import reports %s, the consumer %s", done ? "completion" : "interruption", cut ? "stopped it" : "did not stop it");
  for (size_t i = 0; i < n; ++i) {
    const Handler::Got& g = h.got[i]; const Expect& e = want[i];
    if (g.line != (int)i + 2) c.fail("line", "record %zu carries line number %d", i, g.line);
    if (g.status != e.status) c.fail("status", "line %d has status %d instead of %d", g.line, g.status, e.status);
    if (!g.p) c.fail("record", "line %d has no placemark", g.line);
    if (e.status != CSV_PARSER_STATUS_OK) continue;
    check_point(c, g.p, e.lat, e.lon, g.line);
    if (g.p->get_name() != e.name || g.p->get_description() != e.desc) c.fail("record", "line %d: name %s description %s instead of %s and %s", g.line, quote(g.p->get_name()).c_str(), quote(g.p->get_description()).c_str(), quote(e.name).c_str(), quote(e.desc).c_str());
    std::string id = e.id.empty() ? "" : "feature-" + e.id, st = e.style.empty() ? "" : "style.kml#style-" + e.style;
    if (g.p->get_id() != id || g.p->get_styleurl() != st) c.fail("record", "line %d: id %s style %s instead of %s and %s", g.line, quote(g.p->get_id()).c_str(), quote(g.p->get_styleurl()).c_str(), quote(id).c_str(), quote(st).c_str());
    size_t m = g.p->has_extendeddata() ? g.p->get_extendeddata()->get_data_array_size() : 0;
    if (m != e.data.size()) c.fail("record", "line %d carries %zu data values instead of %zu", g.line, m, e.data.size());
    for (size_t j = 0; j < m; ++j) { kmldom::DataPtr d = g.p->get_extendeddata()->get_data_array_at(j); if (d->get_name() != e.data[j].first || d->get_value() != e.data[j].second) c.fail("record", "line %d: data %zu is %s=%s instead of %s=%s", g.line, j, quote(d->get_name()).c_str(), quote(d->get_value()).c_str(), quote(e.data[j].first).c_str(), quote(e.data[j].second).c_str()); }
    for (size_t j = 0; j < i; ++j) if (h.got[j].p == g.p) c.fail("shared", "two lines share a placemark");
  }
  c.nontrivial += n > 0;
  c.state(hash_bytes(&n, sizeof n, schema.size() * 64 + cut * 2 + done + (mode << 16)));
}

struct Row { double lat, lon; std::string score, name, desc, style; bool ok; };
static void piped(Ctx& c) {
  std::string text; std::vector<Row> rows; std::vector<size_t> ends;
  unsigned lines = c.choose(14);
  bool big = c.chance(1, 4);
  unsigned blank = c.chance(1, 8) ? c.choose(lines + 1) : 1000;
  unsigned stop = lines;
  std::string last;
  for (unsigned l = 0; l < lines; ++l) {
    if (l == blank) { text += "\n"; if (stop == lines) stop = l; }
    Row r; r.score = std::to_string(c.choose(1000)); std::string la = coord(c, 90), lo = coord(c, 180);
    r.lat = strtod(la.c_str(), NULL); r.lon = strtod(lo.c_str(), NULL);
    r.name = "n" + std::to_string(l) + word(c, false); r.desc = "d" + std::to_string(l) + (big ? std::string(c.choose(5000), 'q') : ""); r.ok = c.choose(8) != 0;
    if (c.choose(2)) r.style = "#s" + std::to_string(l);
    std::string line = r.ok ? r.score + "|" + la + "|" + lo + "|" + r.name + "|" + r.desc + (r.style.empty() ? "" : "|" + r.style) : "junk|" + la + "|" + lo;
    if (l && c.chance(1, 8)) { r = rows.back(); line = last; }   // the same again
    last = line; text += line;
    if (l + 1 < lines || c.choose(2)) text += "\n";
    rows.push_back(r); ends.push_back(text.size());
  }
  simfs::put("/sim/in.csv", text);
  simfs::Faults f;
  unsigned mode = c.choose(4);
  if (mode == 1) f.read_short = 100;
  if (mode == 2) { f.read_err = 60; f.read_short = c.choose(2) * 100; f.skip = 1 + c.choose(6); }
  if (mode == 3) f.open_fail = 200;
  kmlconvenience::FeatureList list;
  CsvFile file(&list);
  simfs::mark(); simfs::faults() = f;
  file.ParseCsvFile("/sim/in.csv");
  unsigned hard = simfs::counters().hard + simfs::counters().soft;
  simfs::no_faults();
  kmldom::FolderPtr folder = kmldom::KmlFactory::GetFactory()->CreateFolder();
  size_t n = list.Save(folder);
  c.log("piped %u lines, hard %u -> %zu", lines, hard, n);
  if (simfs::open_handles()) c.fail("handle-leak", "%zu descriptors left open", simfs::open_handles());
  size_t at = 0;
  for (unsigned l = 0; l < stop; ++l) {
    if (!rows[l].ok) continue;
    if (at == n) { if (!hard) c.fail("count", "only %zu records of an intact file", n); break; }
    kmldom::PlacemarkPtr p = kmldom::AsPlacemark(folder->get_feature_array_at(at));
    if (!p) c.fail("record", "no placemark");
    const Row& r = rows[l];
    if (p->get_name() != r.name || p->get_description() != r.desc || p->get_styleurl() != r.style || GetFeatureScore(p) != atoi(r.score.c_str()))
      c.fail("torn", "record %zu differs from line %u: name %s description %s style %s, expected %s %s %s", at, l, quote(p->get_name()).c_str(), quote(p->get_description(), 40).c_str(), quote(p->get_styleurl()).c_str(), quote(r.name).c_str(), quote(r.desc, 40).c_str(), quote(r.style).c_str());
    check_point(c, p, r.lat, r.lon, (int)l + 1);
    ++at;
  }
  if (at != n) c.fail("count", "%zu records more than the file holds", n - at);
  if (hard && n) c.probe("records kept from a file that failed");
  c.nontrivial += n > 0;
  c.state(hash_bytes(&n, sizeof n, 7777 + lines * 8 + mode));
}

static void run(Ctx& c) {
  simfs::activate(true);
  if (c.choose(3)) csv(c); else piped(c);
}
SIM_PROP(C21, run);
