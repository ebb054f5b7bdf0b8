// RFC 3986 reference resolution, independent of the library under test.
#ifndef SIM_URIUTIL_H
#define SIM_URIUTIL_H
#include <string>
#include <string.h>
#include <vector>
namespace uriutil {
struct Uri { bool has_scheme = false, has_auth = false, has_query = false, has_frag = false; std::string scheme, auth, path, query, frag; };
inline bool valid(const std::string& s) {
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char ch = s[i];
    if (ch <= 32 || ch >= 127 || strchr("\"<>\\^`{|}[]", ch)) return false;
    if (ch == '%') { if (i + 2 >= s.size() || !isxdigit((unsigned char)s[i + 1]) || !isxdigit((unsigned char)s[i + 2])) return false; }
  }
  return true;
}
inline bool parse(std::string s, Uri* u) {
  if (!valid(s)) return false;
  size_t p = s.find('#');
  if (p != std::string::npos) { u->has_frag = true; u->frag = s.substr(p + 1); s.resize(p); if (u->frag.find('#') != std::string::npos) return false; }
  p = s.find('?');
  if (p != std::string::npos) { u->has_query = true; u->query = s.substr(p + 1); s.resize(p); }
  p = s.find(':');
  if (p != std::string::npos && p > 0 && s.find('/') > p) {
    bool ok = isalpha((unsigned char)s[0]);
    for (size_t i = 0; i < p; ++i) if (!isalnum((unsigned char)s[i]) && !strchr("+-.", s[i])) ok = false;
    if (!ok) return false;
    u->has_scheme = true; u->scheme = s.substr(0, p); s.erase(0, p + 1);
  }
  if (s.compare(0, 2, "//") == 0) {
    u->has_auth = true; p = s.find('/', 2);
    u->auth = s.substr(2, p == std::string::npos ? std::string::npos : p - 2);
    s = p == std::string::npos ? "" : s.substr(p);
  }
  u->path = s;
  return true;
}
inline std::string remove_dots(const std::string& path) {
  std::vector<std::string> out; bool abs = !path.empty() && path[0] == '/';
  size_t p = abs ? 1 : 0; bool dir = false;
  while (p <= path.size()) {
    size_t e = path.find('/', p); if (e == std::string::npos) e = path.size();
    std::string seg = path.substr(p, e - p); bool lastseg = e == path.size();
    if (seg == ".") dir = lastseg;
    else if (seg == "..") { if (!out.empty()) out.pop_back(); dir = lastseg; }
    else { out.push_back(seg); dir = false; }
    p = e + 1;
  }
  std::string r = abs ? "/" : "";
  for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i];
  if (dir && !out.empty()) r += "/";
  return r;
}
inline std::string text(const Uri& u) {
  std::string s;
  if (u.has_scheme) s += u.scheme + ":";
  if (u.has_auth) s += "//" + u.auth;
  s += u.path;
  if (u.has_query) s += "?" + u.query;
  if (u.has_frag) s += "#" + u.frag;
  return s;
}
inline bool resolve(const std::string& base, const std::string& ref, std::string* out) {
  Uri b, r, t;
  if (!parse(base, &b) || !parse(ref, &r) || !b.has_scheme) return false;
  if (r.has_scheme) { t = r; t.path = remove_dots(r.path); }
  else {
    t.has_scheme = true; t.scheme = b.scheme;
    if (r.has_auth) { t.has_auth = true; t.auth = r.auth; t.path = remove_dots(r.path); t.has_query = r.has_query; t.query = r.query; }
    else {
      t.has_auth = b.has_auth; t.auth = b.auth;
      if (r.path.empty()) { t.path = b.path; t.has_query = r.has_query || b.has_query; t.query = r.has_query ? r.query : b.query; }
      else {
        if (r.path[0] == '/') t.path = remove_dots(r.path);
        else {
          std::string m = b.has_auth && b.path.empty() ? "/" + r.path : b.path.substr(0, b.path.rfind('/') == std::string::npos ? 0 : b.path.rfind('/') + 1) + r.path;
          t.path = remove_dots(m);
        }
        t.has_query = r.has_query; t.query = r.query;
      }
    }
    t.has_frag = r.has_frag; t.frag = r.frag;
  }
  *out = text(t);
  return true;
}
inline std::string without_query(const std::string& s) { return s.substr(0, s.find_first_of("?#")); }
inline std::string without_fragment(const std::string& s) { return s.substr(0, s.find('#')); }
}  // namespace uriutil
#endif
