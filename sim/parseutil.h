// Recording parse observers.
#ifndef SIM_PARSEUTIL_H
#define SIM_PARSEUTIL_H
#include <string>
#include <vector>
#include "core.h"
#include "kml/dom.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/dom/xsd.h"

namespace sim {

inline std::string type_name(const kmldom::ElementPtr& e) {
  if (!e) return "(null)";
  int t = e->Type();
  if (t == kmldom::Type_IconStyleIcon) return "Icon";
  return kmldom::Xsd::GetSchema()->ElementName(t);
}

struct Event {
  enum Kind { kNew, kEnd, kAdd } kind;
  std::string name, parent;
  const void* self;     // identity, for structure checks only
  const void* up;
  std::string text() const { return std::string(kind == kNew ? "new " : kind == kEnd ? "end " : "add ") + name + (kind == kNew ? "" : " to " + parent); }
};

// Records every notification; can decline the k-th one of a kind.
class Recorder : public kmldom::ParserObserver {
 public:
  std::vector<Event> events;
  std::vector<kmldom::ElementPtr> keep;             // keeps identities unique
  std::vector<std::pair<int, Event> >* global = NULL;  // shared by several observers
  int id = 0;
  bool digests = false;
  long stop_new = -1, stop_add = -1, refuse_end = -1;
  long n_new = 0, n_add = 0, n_end = 0;
  bool stopped = false;
  const void* refused = NULL;
  bool NewElement(const kmldom::ElementPtr& e) override {
    keep.push_back(e);
    push(Event{Event::kNew, type_name(e), "", e.get(), NULL});
    if (n_new++ == stop_new) { stopped = true; return false; }
    return true;
  }
  bool EndElement(const kmldom::ElementPtr& p, const kmldom::ElementPtr& ch) override {
    push(Event{Event::kEnd, type_name(ch) + extra(ch), type_name(p), ch.get(), p.get()});
    if (n_end++ == refuse_end) { refused = ch.get(); return false; }
    return true;
  }
  bool AddChild(const kmldom::ElementPtr& p, const kmldom::ElementPtr& ch) override {
    push(Event{Event::kAdd, type_name(ch), type_name(p), ch.get(), p.get()});
    if (n_add++ == stop_add) { stopped = true; return false; }
    return true;
  }
 private:
  std::string extra(const kmldom::ElementPtr& e) { return digests ? " " + digest(e->get_char_data()) : std::string(); }
  void push(const Event& e) {
    events.push_back(e);
    if (global) global->push_back(std::make_pair(id, e));
  }
};

inline std::string first_difference(const std::vector<Event>& a, const std::vector<Event>& b, bool prefix_ok = false) {
  for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
    if (i >= a.size()) return prefix_ok ? "" : format("extra notification %zu: %s", i, b[i].text().c_str());
    if (i >= b.size()) return format("missing notification %zu: %s", i, a[i].text().c_str());
    if (a[i].text() != b[i].text()) return format("notification %zu is %s instead of %s", i, b[i].text().c_str(), a[i].text().c_str());
  }
  return "";
}

}  // namespace sim
#endif
