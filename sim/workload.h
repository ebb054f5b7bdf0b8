// Self-contained pieces of library use. Each is a closure over data of its own
// that returns a description of everything the library answered; nothing in it
// draws a choice or touches the simulator except through the file seam.
#ifndef SIM_WORKLOAD_H
#define SIM_WORKLOAD_H
#include <functional>
#include <string>
#include <vector>
#include "core.h"
namespace workload {
struct Op { std::string name; std::function<std::string()> run; };
struct Opts {
  bool files = true;        // use the simulated disk
  bool fresh_net = true;
  unsigned budget = 14;     // size of documents
  int kind = -1;            // what to make, if it matters
  bool small = false;       // also the small pieces of work
};
// `dir` is the directory this piece of work may write into.
Op make(sim::Ctx& c, const Opts& o, const std::string& dir);
int kinds(const Opts& o);
}  // namespace workload
#endif
