#include "ziputil.h"
#include <string.h>
#include <zlib.h>
namespace ziputil {
static void p16(std::string* s, uint32_t v) { *s += (char)(v & 255); *s += (char)((v >> 8) & 255); }
static void p32(std::string* s, uint32_t v) { p16(s, v & 0xffff); p16(s, v >> 16); }
uint32_t crc(const std::string& s) { return (uint32_t)::crc32(::crc32(0, NULL, 0), (const Bytef*)s.data(), (uInt)s.size()); }
static std::string raw_deflate(const std::string& d, int level) {
  z_stream z; memset(&z, 0, sizeof z);
  deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
  std::string o(deflateBound(&z, d.size()) + 64, '\0');
  z.next_in = (Bytef*)d.data(); z.avail_in = (uInt)d.size();
  z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size();
  deflate(&z, Z_FINISH);
  o.resize(z.total_out);
  deflateEnd(&z);
  return o;
}
static bool raw_inflate(const std::string& c, size_t usize, std::string* out) {
  z_stream z; memset(&z, 0, sizeof z);
  if (inflateInit2(&z, -15) != Z_OK) return false;
  out->assign(usize + 1, '\0');
  z.next_in = (Bytef*)c.data(); z.avail_in = (uInt)c.size();
  z.next_out = (Bytef*)&(*out)[0]; z.avail_out = (uInt)out->size();
  int r = inflate(&z, Z_FINISH);
  bool ok = r == Z_STREAM_END && z.total_out == usize && z.avail_in == 0;
  inflateEnd(&z);
  out->resize(usize);
  return ok;
}
std::string build(const std::vector<Entry>& es, const std::string& prefix, const std::string& comment) {
  std::string z = prefix, cd;
  for (size_t i = 0; i < es.size(); ++i) {
    const Entry& e = es[i];
    std::string c = e.deflate ? raw_deflate(e.data, e.level) : e.data;
    uint32_t k = e.claim_crc >= 0 ? (uint32_t)e.claim_crc : crc(e.data);
    uint32_t ul = e.claim_usize_local >= 0 ? (uint32_t)e.claim_usize_local : (uint32_t)e.data.size();
    uint32_t uc = e.claim_usize_central >= 0 ? (uint32_t)e.claim_usize_central : (uint32_t)e.data.size();
    uint32_t cl = e.claim_csize_local >= 0 ? (uint32_t)e.claim_csize_local : (uint32_t)c.size();
    uint32_t cc = e.claim_csize_central >= 0 ? (uint32_t)e.claim_csize_central : (uint32_t)c.size();
    uint32_t off = (uint32_t)(z.size() - prefix.size());
    uint32_t flag = e.descriptor ? 8 : 0;
    p32(&z, 0x04034b50); p16(&z, 20); p16(&z, flag); p16(&z, e.deflate ? 8 : 0); p16(&z, 0); p16(&z, 0x21);
    p32(&z, e.descriptor ? 0 : k); p32(&z, e.descriptor ? 0 : cl); p32(&z, e.descriptor ? 0 : ul);
    p16(&z, (uint32_t)e.name.size()); p16(&z, (uint32_t)e.extra_local.size());
    z += e.name; z += e.extra_local; z += c;
    if (e.descriptor) { p32(&z, 0x08074b50); p32(&z, k); p32(&z, cl); p32(&z, ul); }
    p32(&cd, 0x02014b50); p16(&cd, 20); p16(&cd, 20); p16(&cd, flag); p16(&cd, e.deflate ? 8 : 0); p16(&cd, 0); p16(&cd, 0x21);
    p32(&cd, k); p32(&cd, cc); p32(&cd, uc);
    p16(&cd, (uint32_t)e.name.size()); p16(&cd, (uint32_t)e.extra_central.size()); p16(&cd, (uint32_t)e.comment.size());
    p16(&cd, 0); p16(&cd, 0); p32(&cd, 0); p32(&cd, off);
    cd += e.name; cd += e.extra_central; cd += e.comment;
  }
  uint32_t cdoff = (uint32_t)(z.size() - prefix.size());
  z += cd;
  p32(&z, 0x06054b50); p16(&z, 0); p16(&z, 0); p16(&z, (uint32_t)es.size()); p16(&z, (uint32_t)es.size());
  p32(&z, (uint32_t)cd.size()); p32(&z, cdoff); p16(&z, (uint32_t)comment.size()); z += comment;
  return z;
}
static uint32_t g16(const std::string& s, size_t p) { return (uint8_t)s[p] | ((uint32_t)(uint8_t)s[p + 1] << 8); }
static uint32_t g32(const std::string& s, size_t p) { return g16(s, p) | (g16(s, p + 2) << 16); }
bool read(const std::string& z, std::vector<Listed>* out, std::string* why) {
  out->clear();
  if (z.size() < 22) { *why = "too short"; return false; }
  size_t e = z.size() - 22;
  while (true) {
    if (g32(z, e) == 0x06054b50 && e + 22 + g16(z, e + 20) == z.size()) break;
    if (e == 0 || z.size() - e > 66000) { *why = "no end of central directory"; return false; }
    --e;
  }
  uint32_t n = g16(z, e + 10), cds = g32(z, e + 12), cdo = g32(z, e + 16);
  if (g16(z, e + 8) != n || (uint64_t)cdo + cds != e) { *why = "central directory does not end at its end record"; return false; }
  size_t p = cdo;
  for (uint32_t i = 0; i < n; ++i) {
    if (p + 46 > e || g32(z, p) != 0x02014b50) { *why = "bad central header"; return false; }
    uint32_t method = g16(z, p + 10), k = g32(z, p + 16), cs = g32(z, p + 20), us = g32(z, p + 24), nl = g16(z, p + 28), xl = g16(z, p + 30), cl = g16(z, p + 32), off = g32(z, p + 42);
    if (p + 46 + nl + xl + cl > e) { *why = "central header overruns"; return false; }
    Listed l; l.name = z.substr(p + 46, nl); l.ok = false;
    p += 46 + nl + xl + cl;
    if ((uint64_t)off + 30 > cdo || g32(z, off) != 0x04034b50) { l.data = "bad local header"; out->push_back(l); continue; }
    uint32_t lnl = g16(z, off + 26), lxl = g16(z, off + 28);
    if ((uint64_t)off + 30 + lnl + lxl + cs > cdo || z.compare(off + 30, lnl, l.name) != 0) { l.data = "bad local entry"; out->push_back(l); continue; }
    std::string c = z.substr(off + 30 + lnl + lxl, cs), d;
    if (method == 8) { if (us > 100000000 || !raw_inflate(c, us, &d)) { l.data = "bad deflate data"; out->push_back(l); continue; } }
    else if (method == 0) d = c;
    else { l.data = "bad method"; out->push_back(l); continue; }
    if (d.size() != us || crc(d) != k) { l.data = "bad checksum"; out->push_back(l); continue; }
    l.data = d; l.ok = true;
    out->push_back(l);
  }
  if (p != e) { *why = "central directory size mismatch"; return false; }
  return true;
}
}  // namespace ziputil
