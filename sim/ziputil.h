// An independent ZIP reader and writer used as oracle and as damage generator.
#ifndef SIM_ZIPUTIL_H
#define SIM_ZIPUTIL_H
#include <stdint.h>
#include <string>
#include <vector>

namespace ziputil {
struct Entry {
  std::string name;
  std::string data;       // true uncompressed bytes
  bool deflate = true;
  int level = 6;
  bool descriptor = false;      // sizes and CRC in a trailing data descriptor
  std::string extra_local, extra_central, comment;
  // Lies told by the headers (-1: the truth).
  int64_t claim_usize_local = -1, claim_usize_central = -1;
  int64_t claim_csize_local = -1, claim_csize_central = -1;
  int64_t claim_crc = -1;
};
std::string build(const std::vector<Entry>& entries, const std::string& prefix = "", const std::string& comment = "");

struct Listed { std::string name, data; bool ok; };
// Strict reader: false with *why if anything about the archive is inconsistent.
bool read(const std::string& zip, std::vector<Listed>* out, std::string* why);
uint32_t crc(const std::string& s);
}  // namespace ziputil
#endif
