// The simulated file system. While active, every libc file call the library
// (through libstdc++, minizip or directly) makes lands here; nothing reaches
// the real disk.
#ifndef SIM_SIMFS_H
#define SIM_SIMFS_H
#include <stdint.h>
#include <sys/types.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "core.h"

namespace simfs {

struct Inode {
  std::string data;
  mode_t mode = 0644;
  int nlink = 1;
  uint64_t id = 0;
};

// Fault rates, each in 1/256 per call of that kind.
struct Faults {
  unsigned open_fail = 0;     // ENOENT/EACCES/EMFILE/EIO on open
  unsigned read_err = 0;      // EIO (some bytes may be delivered first)
  unsigned read_short = 0;    // fewer bytes than asked (legal)
  unsigned write_err = 0;     // EIO
  unsigned write_short = 0;   // fewer bytes than asked (legal)
  unsigned close_err = 0;     // EIO/ENOSPC at close, tail of the data lost
  unsigned eintr = 0;         // EINTR on read/write
  unsigned unlink_fail = 0;
  unsigned mkstemp_fail = 0;
  unsigned seek_fail = 0;
  unsigned chmod_fail = 0;
  unsigned stat_fail = 0;
  int64_t capacity = -1;      // bytes the disk still accepts, -1 unlimited
  // Let the first `skip` faultable calls through before any fault may fire.
  unsigned skip = 0;
  // At most this many hard faults.
  unsigned max_faults = 1000000;
};

struct Op {  // journal entry
  enum Kind { kCreate, kTrunc, kWrite, kUnlink, kRename, kSync, kClose } kind;
  std::string path, path2;
  uint64_t inode;
  uint64_t off;
  std::string data;
};

void activate(bool on);
bool active();
Faults& faults();
void no_faults();

// Counters since mark().
struct Counters {
  unsigned hard = 0;   // an error a correct caller must report
  unsigned soft = 0;   // EINTR: may be reported or retried
  unsigned benign = 0; // short transfers: must be absorbed
  unsigned opens = 0, reads = 0, writes = 0, unlinks = 0;
};
Counters& counters();
void mark();

std::string norm(const std::string& path);
bool exists(const std::string& path);
std::string content(const std::string& path);
mode_t mode(const std::string& path);
uint64_t inode_id(const std::string& path);   // 0 if there is no such file
void put(const std::string& path, const std::string& data, mode_t m = 0644);
void rm(const std::string& path);
void mkdir(const std::string& path);
std::map<std::string, std::string> snapshot();
size_t open_handles();
mode_t get_umask();
void set_umask(mode_t m);
std::vector<Op>& journal();
void journal_on(bool on);
// Every path opened for reading since mark().
std::set<std::string>& read_paths();
// Every path opened for writing, created, removed or renamed since mark().
std::set<std::string>& touched_paths();
// Called at every simulated file call; used by the thread simulator to yield
// and by properties to play a concurrent outside process.
extern void (*on_call)(const char* op, const std::string& path);
// Random suffix source for mkstemp and friends: number of distinct values of
// each of the six characters (small numbers force collisions).
extern unsigned temp_alphabet;

}  // namespace simfs
#endif
