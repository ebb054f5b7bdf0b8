// KML document generator, XML writer and an independent XML reader.
#ifndef SIM_GEN_H
#define SIM_GEN_H
#include <stdint.h>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include "core.h"

namespace gen {

struct Node {
  std::string name;
  std::vector<std::pair<std::string, std::string> > attrs;
  std::string text;
  std::vector<Node> kids;
  bool unknown = false;
  const std::string* attr(const std::string& k) const { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == k) return &attrs[i].second; return NULL; }
  const Node* kid(const std::string& n) const { for (size_t i = 0; i < kids.size(); ++i) if (kids[i].name == n) return &kids[i]; return NULL; }
};

struct Opts {
  unsigned budget = 24;       // rough number of elements
  unsigned max_depth = 8;
  bool twins = true;          // some children and values twice in a row
  bool ids = true;            // give objects ids, unique within the document
  bool unknown = true;        // unknown elements and attributes
  bool hard_text = true;      // markup characters, CDATA terminators, CR, multi-byte
  bool misplaced = false;     // legal elements in illegal places
  bool bulk = false;          // now and then hundreds of small features
  bool gx = true;
  bool animated = true;       // tours holding updates
  bool feature_only = false;  // no NetworkLinkControl
  std::string id_prefix = "i";
};

// A whole document: <kml> with one feature (or NetworkLinkControl).
Node document(sim::Ctx& c, const Opts& o);
// Some complex element of the document as a document of its own.
bool other_root(sim::Ctx& c, Node* n);
// One element of the given name with random content.
Node element(sim::Ctx& c, const Opts& o, const std::string& name);
std::string text(sim::Ctx& c, bool hard);
std::string number(sim::Ctx& c);

// Writes the tree as XML in one of its many spellings.
struct Spelling {
  bool decl = false, bom = false, pretty = false, comments = false, cdata = false, charrefs = false, single_quotes = false, crlf = false, self_close = true;
};
Spelling spelling(sim::Ctx& c);
std::string write(sim::Ctx& c, const Node& n, const Spelling& s);
std::string write_plain(const Node& n);

// Independent reader. False with *why if not well formed (of the XML subset
// without a document type).
bool parse(const std::string& xml, Node* out, std::string* why);

// Canonical form for comparison: attributes sorted, layout white space
// dropped, numbers of coordinates separated by single spaces.
std::string canon(const Node& n);
// First difference of two canonical forms, for messages.
std::string diff(const std::string& a, const std::string& b);
size_t count(const Node& n);
// The place of a child element within its parent.
struct SlotInfo { int index; bool repeat, simple; };
bool slot_of(const std::string& parent, const std::string& child, SlotInfo* out);
bool in_group(const std::string& group, const std::string& name);
bool takes_id(const std::string& name);
// Damages the text of a document: cuts, flips, insertions of markup, deep
// nesting, document types and entities, renamed tags.
std::string mangle(sim::Ctx& c, std::string xml);

}  // namespace gen
#endif
