// C14: serializing to a failing output is reported and harms nothing.
#include <fstream>
#include <memory>
#include <sstream>
#include "../core.h"
#include "../gen.h"
#include "../simfs.h"
#include "../simstream.h"
#include "kml/dom.h"
#include "kml/dom/xml_serializer.h"
#include "kml/engine.h"
using namespace sim;
using kmlengine::KmlFile;
using kmlengine::KmlFilePtr;

static bool starts_with(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

static void run(Ctx& c) {
  gen::Opts o; o.budget = c.chance(1, 4) ? 100 : 2 + c.choose(20); o.misplaced = c.chance(1, 5); o.bulk = true;
  gen::Node n = gen::document(c, o);
  if (c.chance(1, 10)) gen::other_root(c, &n);
  std::string src = gen::write(c, n, gen::spelling(c)), err, want, want_dom, want_raw;
  KmlFilePtr kf = KmlFile::CreateFromParse(src, &err), twin = KmlFile::CreateFromParse(src, &err);
  if (!kf || !twin) c.fail("rejected", "a well-formed document is refused: %s", err.c_str());
  if (!twin->SerializeToString(&want)) c.fail("string", "serializing to a string failed");
  want_dom = kmldom::SerializePretty(twin->get_root());
  want_raw = kmldom::SerializeRaw(twin->get_root());
  unsigned attempts = 1 + c.choose(4);
  for (unsigned i = 0; i < attempts; ++i) {
    c.step();
    unsigned api = c.choose(4);                     // 0,1 KmlFile; 2 DOM pretty; 3 DOM raw
    if (api >= 2 && i == 0) { std::string s; kf->SerializeToString(&s); }   // namespaces are inserted by KmlFile
    const std::string& text = api == 2 ? want_dom : api == 3 ? want_raw : want;
    size_t room = c.choose(4) == 0 ? text.size() + c.choose(3) : c.choose((uint32_t)text.size() + 1);
    if (c.choose(3) == 0) {
      // A file on the simulated disk.
      simfs::activate(true);
      std::string path = "/sim/out.kml";
      simfs::Faults& f = simfs::faults();
      f.capacity = c.choose(2) ? (int64_t)room : -1; f.write_short = c.choose(2) ? 80 : 0; f.write_err = c.choose(3) == 0 ? 60 : 0; f.close_err = c.choose(4) == 0 ? 100 : 0; f.open_fail = c.chance(1, 12) ? 255 : 0;
      simfs::mark();
      bool ok, closed; std::string before_close;
      {
        std::ofstream out(path.c_str(), std::ios::binary | std::ios::trunc);
        bool opened = out.is_open();
        if (api < 2) ok = kf->SerializeToOstream(&out); else { kmldom::XmlSerializer<std::ostream>::Serialize(kf->get_root(), api == 2 ? "\n" : "", api == 2 ? "  " : "", &out); ok = out.good(); }
        bool bad_now = !out.good();
        if (ok && bad_now) c.fail("false-success", "success reported although the output stream has failed (file opened %d)", opened);
        if (!ok && !bad_now) c.fail("false-failure", "failure reported although the output stream is good");
        before_close = simfs::exists(path) ? simfs::content(path) : "";
        out.close(); closed = out.good();   // libstdc++ may repeat a failed flush here

      }
      unsigned hard = simfs::counters().hard;
      simfs::no_faults();
      std::string have = simfs::exists(path) ? simfs::content(path) : "";
      c.log("file api=%u room=%zu -> %d closed=%d have %zu of %zu, hard faults %u", api, room, ok, closed, have.size(), text.size(), hard);
      if (ok && closed && have != text) c.fail("wrong-text", "success reported but the file holds %zu bytes, expected %zu: %s", have.size(), text.size(), gen::diff(text, have).c_str());
      if (ok && closed && hard == 0) c.probe("healthy file");
      if (!hard && !(ok && closed)) c.fail("false-failure", "a healthy file is reported as failed");
      if (!starts_with(text, before_close)) { c.fail("not-prefix", "the file holds text that is not a prefix of the document"); }
      simfs::rm(path);
      continue;
    }
    unsigned pre = c.chance(1, 10) ? 1 + c.choose(2) : 0;   // the stream has already failed
    OutBuf buf(c, room, c.choose(2) ? OutBuf::kRefuse : OutBuf::kThrow, c.choose(3) == 0 ? 1 + c.choose(5000) : 0);
    if (c.choose(3) == 0) buf.heal(1 + c.choose((uint32_t)text.size() + 10));
    std::ostream out(&buf);
    bool exceptions = api < 2 && c.chance(1, 5);
    if (exceptions) out.exceptions(std::ios::badbit | std::ios::failbit);
    bool thrown = false, ok = false;
    try {
      if (pre) { c.fault("output stream already failed"); out.setstate(pre == 1 ? std::ios::badbit : std::ios::failbit); }
      if (api < 2) ok = kf->SerializeToOstream(&out); else { kmldom::XmlSerializer<std::ostream>::Serialize(kf->get_root(), api == 2 ? "\n" : "", api == 2 ? "  " : "", &out); ok = out.good(); }
    } catch (std::exception&) { thrown = true; ok = false; }
    bool bad_now = !out.good();
    if (out.exceptions() != (exceptions ? std::ios::badbit | std::ios::failbit : std::ios::goodbit)) c.fail("exception", "serializing changed which failures the stream reports by exceptions");
    if (exceptions && bad_now && !thrown) c.fail("exception", "the output failed and the exception asked for was not thrown");
    if (ok && bad_now) c.fail("false-success", "success reported although the output failed after %zu of %zu bytes", buf.accepted.size(), text.size());
    if (!ok && !thrown && !bad_now) c.fail("false-failure", "failure reported although the output stream is good");
    if (thrown && !exceptions) c.fail("exception", "an exception escaped although the stream's exceptions are off");
    bool flushed = false;
    if (ok) { try { out.flush(); flushed = out.good(); } catch (std::exception&) {} }
    c.log("stream api=%u room=%zu pre=%u exceptions=%d -> ok=%d thrown=%d accepted %zu of %zu", api, room, pre, exceptions, ok, thrown, buf.accepted.size(), text.size());
    if (!starts_with(text, buf.accepted)) c.fail("not-prefix", "the bytes accepted are not a prefix of the text: %s", gen::diff(text, buf.accepted).c_str());
    if (ok && flushed && buf.accepted != text) c.fail("wrong-text", "success reported but %zu of %zu bytes were written", buf.accepted.size(), text.size());
    if (!pre && room >= text.size() && !ok) c.fail("false-failure", "a healthy output is reported as failed");
  }
  // The document is unchanged and a healthy output gets all of it.
  std::ostringstream good;
  if (!kf->SerializeToOstream(&good)) c.fail("retry", "serializing to a healthy output failed after failed attempts");
  if (good.str() != want) c.fail("retry", "after failed attempts the document serializes differently: %s", gen::diff(want, good.str()).c_str());
  std::string again;
  if (!kf->SerializeToString(&again) || again != want) c.fail("retry", "after failed attempts the document serializes differently to a string");
  c.state(hash_str(format("%u %zu", attempts, want.size() / 64)));
}
SIM_PROP(C14, run);
