// C13: input that fails or ends early is never taken for a whole document.
#include <fstream>
#include <memory>
#include <sstream>
#include "../core.h"
#include "../gen.h"
#include "../parseutil.h"
#include "../simfs.h"
#include "../simstream.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/kml_stream.h"
using namespace sim;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;
using kmlengine::KmlStream;

static void prefix_check(Ctx& c, const std::vector<Event>& all, const std::vector<Event>& got, const char* what) {
  // What was announced must be what the intact input announces first.
  std::vector<Event> head(all.begin(), all.begin() + std::min(all.size(), got.size()));
  std::string d = first_difference(head, got);
  if (!d.empty()) c.fail("notifications", "%s: the notifications before the failure are not those of the intact document: %s", what, d.c_str());
}

static void run(Ctx& c) {
  gen::Opts o; o.budget = c.chance(1, 4) ? 80 : 2 + c.choose(16); o.misplaced = c.chance(1, 5); o.bulk = true;
  gen::Node n = gen::document(c, o);
  if (c.chance(1, 10)) gen::other_root(c, &n);
  std::string s = gen::write(c, n, gen::spelling(c));
  if (c.choose(3) == 0) { size_t p = s.find('>', s.find("<" + n.name)); s.insert(p + 1, "<!--" + std::string(c.choose(9000), 'p') + "-->"); }
  if (c.choose(4) == 0) s += c.choose(2) ? "\n<!-- end -->\n" : "   \n";
  Recorder whole;
  std::string err;
  {
    kmldom::Parser p; p.AddObserver(&whole);
    if (!p.Parse(s, &err)) c.fail("rejected", "a well-formed document is refused: %s", err.c_str());
  }
  std::string want = gen::canon(n);
  // Where it fails: anywhere, with the buffer boundaries, the start and the
  // very end favoured.
  size_t p;
  switch (c.choose(6)) {
    case 0: p = 0; break;
    case 1: p = s.size(); break;
    case 2: p = s.size() > 4096 ? 4096 * (1 + c.choose((uint32_t)(s.size() / 4096))) : s.size() - c.choose(8); break;
    case 3: p = s.size() - c.choose((uint32_t)std::min<size_t>(s.size(), 12)); break;
    case 4: p = s.size() >= 256 ? 256 * c.choose((uint32_t)(s.size() / 256) + 1) : 0; break;
    default: p = c.choose((uint32_t)s.size() + 1); break;
  }
  std::string head = s.substr(0, p);
  gen::Node dummy; std::string why;
  bool complete = gen::parse(head, &dummy, &why);
  c.note("text %s", quote(s, 6000).c_str());
  bool null_errors = c.chance(1, 6);
  err = c.choose(2) ? "" : "stale";
  std::string* ep = null_errors ? NULL : &err;
  unsigned mode = c.choose(9);
  Recorder rec;
  bool got = false, error = false; std::string xml;
  switch (mode) {
    case 0: case 1: case 2: {  // a stream that ends or fails after p bytes
      error = mode != 0;
      InBuf buf(c, s, p, error, c.choose(2) ? 100 : 6000);
      std::istream in(&buf);
      std::unique_ptr<KmlStream> ks(KmlStream::ParseFromIstream(&in, ep, &rec));
      got = ks != NULL;
      if (ks) { if (!ks->get_root()) c.fail("no-root", "a stream parse succeeded without a document (cut at %zu of %zu, error=%d)", p, s.size(), error); xml = kmldom::SerializeRaw(ks->get_root()); }
      break;
    }
    case 3: {  // a stream already unusable
      error = true;
      std::istringstream in(s);
      unsigned st = c.choose(4);
      if (st == 0) in.setstate(std::ios::badbit); else if (st == 1) in.setstate(std::ios::failbit); else if (st == 2) in.setstate(std::ios::eofbit); else static_cast<std::istream&>(in).rdbuf(NULL);
      c.fault("unusable input stream");
      std::unique_ptr<KmlStream> ks(KmlStream::ParseFromIstream(&in, ep, &rec));
      got = ks != NULL;
      break;
    }
    case 4: {  // a file on the simulated disk
      simfs::activate(true);
      simfs::put("/sim/doc.kml", head);
      if (c.choose(2)) { simfs::faults().read_err = 40 + c.choose(200); simfs::faults().skip = c.choose(4); }
      if (c.chance(1, 8)) simfs::faults().open_fail = 255;
      simfs::faults().read_short = c.choose(2) ? 100 : 0;
      simfs::mark();
      {
        std::ifstream in("/sim/doc.kml", std::ios::binary);
        std::unique_ptr<KmlStream> ks(KmlStream::ParseFromIstream(&in, ep, &rec));
        got = ks != NULL;
        error = simfs::counters().hard > 0;
        if (ks) xml = ks->get_root() ? kmldom::SerializeRaw(ks->get_root()) : "";
        if (ks && !ks->get_root()) c.fail("no-root", "a stream parse succeeded without a document");
      }
      simfs::no_faults();
      break;
    }
    case 5: { kmldom::Parser q; q.AddObserver(&rec); kmldom::ElementPtr r = q.Parse(head, ep); got = r != NULL; if (r) xml = kmldom::SerializeRaw(r); break; }
    case 6: { kmldom::Parser q; q.AddObserver(&rec); kmldom::ElementPtr r = q.ParseNS(head, ep); got = r != NULL; if (complete && !got) complete = false; if (r && !complete) break; complete = got; break; }
    case 7: { KmlFilePtr f = KmlFile::CreateFromParse(head, ep); got = f != NULL; if (f) xml = kmldom::SerializeRaw(f->get_root()); break; }
    case 8: {  // inside an archive cut short: see C04; here the document itself is short
      KmlFilePtr f = KmlFile::CreateFromString(head); got = f != NULL; if (f) xml = kmldom::SerializeRaw(f->get_root()); null_errors = true; break;
    }
  }
  c.log("mode %u %zu of %zu bytes complete=%d error=%d -> %s, %zu notifications", mode, p, s.size(), complete, error, got ? "document" : "none", rec.events.size());
  if (!error && p < s.size()) c.fault("input ends early");
  if (mode == 6) {
    gen::Node d2; if (got && !gen::parse(head, &d2, NULL)) c.fail("partial", "namespace-aware parsing of %zu of %zu bytes gives a document", p, s.size());
  } else if (error) {
    if (got) c.fail("partial", "a document was returned although the input failed after %zu of %zu bytes", p, s.size());
  } else if (complete && !got) {
    c.fail("rejected", "complete input (%zu of %zu bytes) is refused: %s", p, s.size(), err.c_str());
  } else if (!complete && got) {
    c.fail("partial", "input ending after %zu of %zu bytes gives a document", p, s.size());
  }
  if (!got && !null_errors && (err.empty() || err == "stale")) c.fail("no-message", "mode %u: parsing failed without an error message (%zu of %zu bytes)", mode, p, s.size());
  if (mode != 6) prefix_check(c, whole.events, rec.events, "cut input");
  if (got && mode != 6) {
    gen::Node back; std::string w2;
    if (!gen::parse(xml, &back, &w2) || gen::canon(back) != want) c.fail("altered", "the document obtained is not the one sent: %s", w2.c_str());
  }
  c.state(hash_str(format("%u %d %d %zu", mode, got, error, rec.events.size())));
}
SIM_PROP(C13, run);
