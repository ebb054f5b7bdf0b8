// C15: an observer can cancel or filter a parse at any notification.
#include <memory>
#include "../core.h"
#include "../gen.h"
#include "../parseutil.h"
#include "../simstream.h"
#include "kml/base/expat_parser.h"
#include "kml/dom.h"
#include "kml/dom/kml_handler.h"
#include "kml/engine/kml_stream.h"
using namespace sim;

static std::string plain(const gen::Node& n) { return n.name == "IconStyleIcon" ? "Icon" : n.name; }
// The notifications the document's structure calls for.
static void model(const gen::Node& n, const gen::Node* parent, std::vector<Event>* ev, std::vector<const gen::Node*>* post) {
  if (n.unknown) return;
  ev->push_back(Event{Event::kNew, plain(n), "", NULL, NULL});
  for (size_t i = 0; i < n.kids.size(); ++i) model(n.kids[i], &n, ev, post);
  if (parent) {
    ev->push_back(Event{Event::kEnd, plain(n), plain(*parent), NULL, NULL});
    ev->push_back(Event{Event::kAdd, plain(n), plain(*parent), NULL, NULL});
    post->push_back(&n);
  }
}
static gen::Node without(const gen::Node& n, const std::set<const gen::Node*>& drop) {
  gen::Node r = n; r.kids.clear();
  for (size_t i = 0; i < n.kids.size(); ++i) if (!drop.count(&n.kids[i])) r.kids.push_back(without(n.kids[i], drop));
  return r;
}

static void run(Ctx& c) {
  gen::Opts o; o.budget = c.chance(1, 5) ? 70 : 2 + c.choose(16);
  gen::Node n = gen::document(c, o);
  if (c.chance(1, 10)) gen::other_root(c, &n);
  std::string s = gen::write(c, n, gen::spelling(c));
  if (c.choose(4) == 0) { size_t p = s.find('>', s.find("<" + n.name)); s.insert(p + 1, "<!--" + std::string(c.choose(9000), 'p') + "-->"); }
  std::vector<Event> want; std::vector<const gen::Node*> post;
  model(n, NULL, &want, &post);
  size_t news = post.size() + 1;
  unsigned mode = c.choose(4);                   // 0,1 Parser; 2 KmlStream; 3 buffers
  unsigned k = mode == 2 ? 1 : 1 + c.choose(3);  // observers
  std::vector<std::pair<int, Event> > global;
  std::vector<Recorder> obs(k);
  for (unsigned i = 0; i < k; ++i) { obs[i].id = (int)i; obs[i].global = &global; }
  unsigned plan = c.choose(4);                   // 0 none, 1 cancel on new, 2 cancel on add, 3 refuse
  unsigned who = c.choose(k);
  long at = -1;
  if (plan == 1) obs[who].stop_new = at = c.choose((uint32_t)news);
  if (plan == 2 && !post.empty()) obs[who].stop_add = at = c.choose((uint32_t)post.size());
  if (plan == 3 && !post.empty()) {
    for (unsigned i = 0; i < k; ++i) if (i == who || c.chance(1, 3)) { obs[i].refuse_end = c.choose((uint32_t)post.size()); at = obs[i].refuse_end; }
  }
  std::string err;
  bool null_errors = c.chance(1, 8);
  if (c.choose(4) == 0) err = "stale";   // left over from an earlier parse
  std::string* ep = null_errors ? NULL : &err;
  kmldom::ElementPtr root;
  if (mode < 2) {
    kmldom::Parser p;
    for (unsigned i = 0; i < k; ++i) p.AddObserver(&obs[i]);
    root = p.Parse(s, ep);
  } else if (mode == 2) {
    InBuf buf(c, s, s.size(), false, 1 + c.choose(5000));
    std::istream in(&buf);
    std::unique_ptr<kmlengine::KmlStream> ks(kmlengine::KmlStream::ParseFromIstream(&in, ep, &obs[0]));
    if (ks) root = ks->get_root();
    if (ks && !root) c.fail("no-root", "a stream parse succeeded without a document");
  } else {
    kmldom::parser_observer_vector_t v; for (unsigned i = 0; i < k; ++i) v.push_back(&obs[i]);
    kmldom::KmlHandler h(v);
    kmlbase::ExpatParser p(&h, false);
    bool ok = true; unsigned max = 1 + c.choose(300); uint64_t seed = c.seed64(); Rng r(seed);
    for (size_t q = 0; ok && q < s.size();) { size_t m = 1 + r.next() % max; ok = p.ParseBuffer(s.substr(q, m), ep, false); q += m; }
    if (ok) ok = p.ParseBuffer("", ep, true);
    if (ok) root = h.PopRoot();
  }
  bool cancelled = false;
  for (unsigned i = 0; i < k; ++i) cancelled |= obs[i].stopped;
  c.log("mode %u, %u observers, plan %u by %u at %ld of %zu -> %s, %zu notifications", mode, k, plan, who, at, news, root ? "document" : "none", global.size());
  c.note("text %s", quote(s, 6000).c_str());
  if (at >= 0) { c.fault(plan == 3 ? "child refused" : plan == 2 ? "cancelled on add" : "cancelled on new"); }
  if (plan == 1 || (plan == 2 && at >= 0)) {
    if (!cancelled) c.fail("missing", "observer %u never saw its notification %ld of %zu", who, at, news);
    if (root) c.fail("not-cancelled", "a document was returned although observer %u stopped the parse", who);
    if (!null_errors && (err.empty() || err == "stale")) c.fail("no-message", "a cancelled parse sets no error message (mode %u, plan %u at %ld)", mode, plan, at);
    // Nothing new is announced to anyone afterwards.
    bool after = false; long cnt = 0; const void* last = NULL;
    for (size_t i = 0; i < global.size(); ++i) {
      const Event& e = global[i].second;
      if (after && e.kind == Event::kNew) c.fail("announced", "%s was announced to observer %d after observer %u stopped the parse", e.name.c_str(), global[i].first, who);
      if (after && e.self != last) c.fail("announced", "%s was completed after observer %u stopped the parse", e.name.c_str(), who);
      if (global[i].first == (int)who && ((plan == 1 && e.kind == Event::kNew) || (plan == 2 && e.kind == Event::kAdd)) && cnt++ == at) { after = true; last = e.self; }
    }
  } else {
    if (!root) c.fail("rejected", "the parse failed: %s", err.c_str());
  }
  // Every observer sees the document's structure, in order.
  std::set<const gen::Node*> drop; std::set<const void*> dropped;
  for (unsigned i = 0; i < k; ++i) if (obs[i].refused) dropped.insert(obs[i].refused);
  for (unsigned i = 0; i < k; ++i) {
    std::vector<Event> w = want, g = obs[i].events;
    if (plan == 3) {
      // A refusal hides the completion from later observers: compare what is announced, and count the rest below.
      std::vector<Event> w2, g2;
      for (size_t j = 0; j < w.size(); ++j) if (w[j].kind == Event::kNew) w2.push_back(w[j]);
      for (size_t j = 0; j < g.size(); ++j) if (g[j].kind == Event::kNew) g2.push_back(g[j]);
      w.swap(w2); g.swap(g2);
    } else if (plan != 0 && at >= 0) {
      if (w.size() > g.size()) w.resize(g.size());
      // The end of an empty element may still follow its cancelled start; compare up to the cancellation.
      size_t m = g.size(); if (plan == 1) { while (m && g[m - 1].kind != Event::kNew) --m; }
      if (i == who) { w.resize(std::min(w.size(), m)); g.resize(m); } else { size_t q = std::min(w.size(), g.size()); while (q && g[q - 1].kind != Event::kNew) --q; w.resize(q); g.resize(q); }
    }
    std::string d = first_difference(w, g);
    if (!d.empty()) c.fail("structure", "observer %u of %u: %s", i, k, d.c_str());
    // Identity: an element is completed with the parent it is nested in.
    std::vector<const void*> stack;
    for (size_t j = 0; j < obs[i].events.size(); ++j) {
      const Event& e = obs[i].events[j];
      if (e.kind == Event::kNew) stack.push_back(e.self);
      else if (e.kind == Event::kAdd) {
        if (stack.size() < 2 || stack.back() != e.self || stack[stack.size() - 2] != e.up) {
          bool tail = plan != 0 && plan != 3 && cancelled;
          if (!tail) c.fail("structure", "observer %u: %s is added to %s out of order", i, e.name.c_str(), e.parent.c_str());
          break;
        }
        stack.pop_back();
      }
    }
  }
  if (root) {
    // Which nodes were refused: the k-th completion seen by each observer; completions hidden from it do not count.
    if (plan == 3 && !dropped.empty()) {
      std::vector<long> seen(k, 0);
      for (size_t j = 0; j < post.size(); ++j) {
        for (unsigned i = 0; i < k; ++i) {
          if (seen[i]++ == obs[i].refuse_end) { drop.insert(post[j]); break; }
        }
      }
    }
    std::string expect = gen::canon(without(n, drop));
    gen::Node back; std::string why, xml = kmldom::SerializeRaw(root);
    if (!gen::parse(xml, &back, &why)) c.fail("ill-formed", "the resulting document is not well formed: %s", why.c_str());
    std::string have = gen::canon(back);
    if (have != expect) c.fail(drop.empty() ? "document" : "filter", "%s: %s", drop.empty() ? "observing changed the document" : "not exactly the refused children are left out", gen::diff(expect, have).c_str());
  }
  c.state(hash_str(format("%u %u %u %u %ld", mode, k, plan, who, at)));
}
SIM_PROP(C15, run);
