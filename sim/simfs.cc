#include "simfs.h"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

namespace simfs {
using sim::g_ctx;
using sim::InHarness;

typedef std::shared_ptr<Inode> InodePtr;
struct Handle {
  InodePtr ino;
  uint64_t pos = 0;
  int flags = 0;
  std::string path;
  uint64_t opened_size = 0;
  bool wrote = false;
};
struct State {
  std::map<std::string, InodePtr> files;
  std::set<std::string> dirs;
  std::map<int, Handle> fds;
  std::map<FILE*, int> streams;
  Faults f;
  Counters c;
  mode_t um = 022;
  uint64_t next_ino = 1;
  bool jon = false;
  std::vector<Op> j;
  std::set<std::string> rd, touched;
  unsigned calls = 0;
};
static bool g_active = false;
static State& S() { static State* s = new State; return *s; }
void (*on_call)(const char*, const std::string&) = NULL;
unsigned temp_alphabet = 36;
static const int kBase = 10000;

static void do_reset(sim::Ctx&) {
  InHarness ih;
  // Streams still open are leaked on purpose (their cookie is dropped).
  S() = State();
  S().dirs.insert("/"); S().dirs.insert("/tmp"); S().dirs.insert("/cwd"); S().dirs.insert("/sim");
  on_call = NULL;
  temp_alphabet = 36;
  g_active = false;
}
static sim::ResetHook hook(do_reset);

void activate(bool on) { g_active = on; }
bool active() { return g_active; }
Faults& faults() { return S().f; }
void no_faults() { S().f = Faults(); }
Counters& counters() { return S().c; }
void mark() { S().c = Counters(); S().rd.clear(); S().touched.clear(); }
std::set<std::string>& read_paths() { return S().rd; }
std::set<std::string>& touched_paths() { return S().touched; }

std::string norm(const std::string& in) {
  std::string p = in.empty() || in[0] != '/' ? "/cwd/" + in : in;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i <= p.size()) {
    size_t e = p.find('/', i); if (e == std::string::npos) e = p.size();
    std::string x = p.substr(i, e - i);
    if (x == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!x.empty() && x != ".") parts.push_back(x);
    i = e + 1;
  }
  std::string o;
  for (size_t k = 0; k < parts.size(); ++k) o += "/" + parts[k];
  return o.empty() ? "/" : o;
}
static std::string parent(const std::string& n) { size_t p = n.rfind('/'); return p == 0 ? "/" : n.substr(0, p); }
bool exists(const std::string& p) { return S().files.count(norm(p)) > 0; }
std::string content(const std::string& p) { std::string n = norm(p); return S().files.count(n) ? S().files[n]->data : ""; }
mode_t mode(const std::string& p) { std::string n = norm(p); return S().files.count(n) ? S().files[n]->mode : 0; }
uint64_t inode_id(const std::string& p) { std::string n = norm(p); return S().files.count(n) ? S().files[n]->id : 0; }
void mkdir(const std::string& p) {
  std::string n = norm(p);
  while (n != "/") { S().dirs.insert(n); n = parent(n); }
}
void put(const std::string& p, const std::string& d, mode_t m) {
  InHarness ih;
  std::string n = norm(p); mkdir(parent(n));
  InodePtr i(new Inode); i->data = d; i->mode = m; i->id = S().next_ino++;
  S().files[n] = i;
}
void rm(const std::string& p) { S().files.erase(norm(p)); }
std::map<std::string, std::string> snapshot() {
  std::map<std::string, std::string> m;
  for (auto& kv : S().files) m[kv.first] = kv.second->data;
  return m;
}
size_t open_handles() { return S().fds.size(); }
mode_t get_umask() { return S().um; }
void set_umask(mode_t m) { S().um = m & 0777; }
std::vector<Op>& journal() { return S().j; }
void journal_on(bool on) { S().jon = on; if (on) S().j.clear(); }
static void jot(Op::Kind k, const std::string& p, const InodePtr& i, uint64_t off = 0, const std::string& d = "", const std::string& p2 = "") {
  S().touched.insert(p);
  if (!p2.empty()) S().touched.insert(p2);
  if (!S().jon) return;
  Op o; o.kind = k; o.path = p; o.inode = i ? i->id : 0; o.off = off; o.data = d; o.path2 = p2;
  S().j.push_back(o);
}

// System paths that stay real (read only).
static bool is_system(const std::string& n) {
  static const char* const pre[] = {"/proc/", "/sys/", "/usr/", "/lib/", "/lib64/", "/etc/", "/dev/", "/opt/"};
  for (size_t i = 0; i < sizeof pre / sizeof *pre; ++i) if (n.compare(0, strlen(pre[i]), pre[i]) == 0) return true;
  return false;
}
static bool roll(unsigned rate) {
  if (rate == 0 || !g_ctx) return false;
  State& s = S();
  if (s.calls++ < s.f.skip) return false;
  if (s.c.hard >= s.f.max_faults) return false;
  return g_ctx->chance(rate > 256 ? 256 : rate, 256);
}
static void called(const char* op, const std::string& path) {
  InHarness ih;
  if (g_ctx) { g_ctx->step(); g_ctx->tick(100); }
  if (on_call) on_call(op, path);
}
#define LOG(...) do { if (g_ctx) g_ctx->log(__VA_ARGS__); } while (0)

// Returns a new descriptor or -1 with errno.
static int v_open(const char* path, int flags, mode_t m) {
  InHarness ih;
  if (!path) { errno = EFAULT; return -1; }
  std::string n = norm(path);
  called("open", n);
  State& s = S();
  s.c.opens++;
  int acc = flags & O_ACCMODE;
  bool wr = acc != O_RDONLY;
  if (!wr) s.rd.insert(n); 
  if (!*path) { errno = ENOENT; LOG("open \"\" -> ENOENT"); return -1; }
  if (roll(s.f.open_fail)) {
    static const int errs[] = {EIO, EACCES, EMFILE, ENOSPC};
    int e = errs[g_ctx->choose(4)];
    s.c.hard++; g_ctx->fault("open-error"); LOG("open %s -> errno %d", n.c_str(), e);
    errno = e; return -1;
  }
  if (s.dirs.count(n)) { LOG("open %s -> directory", n.c_str()); if (wr) { errno = EISDIR; return -1; } 
    // Opening a directory for reading works; reading it fails.
    int fd = kBase; while (s.fds.count(fd)) ++fd;
    Handle h; h.flags = flags; h.path = n; s.fds[fd] = h; return fd; }
  if (path[strlen(path) - 1] == '/') { LOG("open %s/ -> ENOTDIR", n.c_str()); errno = ENOTDIR; return -1; }
  std::map<std::string, InodePtr>::iterator it = s.files.find(n);
  InodePtr ino;
  if (it == s.files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; LOG("open %s -> ENOENT", n.c_str()); return -1; }
    if (!s.dirs.count(parent(n)) || path[strlen(path) - 1] == '/') { errno = ENOENT; LOG("open %s -> no directory", n.c_str()); return -1; }
    ino.reset(new Inode); ino->mode = m & ~s.um; ino->id = s.next_ino++;
    s.files[n] = ino;
    jot(Op::kCreate, n, ino);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; LOG("open %s -> EEXIST", n.c_str()); return -1; }
    ino = it->second;
    if ((wr && !(ino->mode & 0200)) || (acc != O_WRONLY && !(ino->mode & 0400))) {
      errno = EACCES; s.c.hard++; LOG("open %s -> EACCES", n.c_str()); if (g_ctx) g_ctx->fault("permission-denied"); return -1;
    }
    if (wr && (flags & O_TRUNC)) {
      if (s.f.capacity >= 0) s.f.capacity += (int64_t)ino->data.size();
      ino->data.clear(); jot(Op::kTrunc, n, ino);
    }
  }
  if (wr) s.touched.insert(n);
  int fd = kBase; while (s.fds.count(fd)) ++fd;
  Handle h; h.ino = ino; h.flags = flags; h.path = n; h.opened_size = ino->data.size();
  s.fds[fd] = h;
  LOG("open %s flags=%x -> %d", n.c_str(), flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL), fd);
  return fd;
}
static Handle* get(int fd) { std::map<int, Handle>::iterator i = S().fds.find(fd); return i == S().fds.end() ? NULL : &i->second; }

static ssize_t v_read(int fd, void* buf, size_t n) {
  InHarness ih;
  Handle* h = get(fd);
  if (!h) { errno = EBADF; return -1; }
  called("read", h->path);
  State& s = S();
  s.c.reads++;
  if ((h->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (!h->ino) { errno = EISDIR; s.c.hard++; return -1; }
  uint64_t size = h->ino->data.size();
  size_t avail = h->pos < size ? size - h->pos : 0;
  size_t k = std::min(n, avail);
  if (roll(s.f.eintr)) { s.c.soft++; g_ctx->fault("eintr"); errno = EINTR; return -1; }
  if (roll(s.f.read_err)) { s.c.hard++; g_ctx->fault("read-error"); LOG("read %s at %llu -> EIO", h->path.c_str(), (unsigned long long)h->pos); errno = EIO; return -1; }
  if (k > 1 && roll(s.f.read_short)) { s.c.benign++; k = 1 + g_ctx->choose((uint32_t)k - 1); g_ctx->fault("short-read"); }
  memcpy(buf, h->ino->data.data() + h->pos, k);
  LOG("read %s at %llu want %zu -> %zu", h->path.c_str(), (unsigned long long)h->pos, n, k);
  h->pos += k;
  return (ssize_t)k;
}
static ssize_t v_write(int fd, const void* buf, size_t n) {
  InHarness ih;
  Handle* h = get(fd);
  if (!h) { errno = EBADF; return -1; }
  called("write", h->path);
  State& s = S();
  s.c.writes++;
  if ((h->flags & O_ACCMODE) == O_RDONLY || !h->ino) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  size_t k = n;
  if (roll(s.f.eintr)) { s.c.soft++; g_ctx->fault("eintr"); errno = EINTR; return -1; }
  if (roll(s.f.write_err)) { s.c.hard++; g_ctx->fault("write-error"); LOG("write %s -> EIO", h->path.c_str()); errno = EIO; return -1; }
  if (k > 1 && roll(s.f.write_short)) { s.c.benign++; k = 1 + g_ctx->choose((uint32_t)k - 1); g_ctx->fault("short-write"); }
  if (h->flags & O_APPEND) h->pos = h->ino->data.size();
  if (s.f.capacity >= 0) {
    uint64_t size = h->ino->data.size();
    uint64_t grow = h->pos + k > size ? h->pos + k - size : 0;
    if (grow > (uint64_t)s.f.capacity) {
      uint64_t lack = grow - (uint64_t)s.f.capacity;
      s.c.hard++;
      if (lack >= k) { g_ctx->fault("disk-full"); LOG("write %s -> ENOSPC", h->path.c_str()); errno = ENOSPC; return -1; }
      k -= lack; g_ctx->fault("disk-full-partial"); grow = s.f.capacity;
    }
    s.f.capacity -= (int64_t)grow;
  }
  std::string& d = h->ino->data;
  if (h->pos > d.size()) d.resize(h->pos, '\0');
  std::string piece((const char*)buf, k);
  d.replace(h->pos, std::min<uint64_t>(k, d.size() - h->pos), piece);
  jot(Op::kWrite, h->path, h->ino, h->pos, piece);
  LOG("write %s at %llu len %zu -> %zu", h->path.c_str(), (unsigned long long)h->pos, n, k);
  h->pos += k;
  h->wrote = true;
  return (ssize_t)k;
}
static int v_close(int fd) {
  InHarness ih;
  Handle* h = get(fd);
  if (!h) { errno = EBADF; return -1; }
  called("close", h->path);
  h = get(fd);
  if (!h) { errno = EBADF; return -1; }
  State& s = S();
  int rc = 0;
  bool wr = (h->flags & O_ACCMODE) != O_RDONLY;
  if (wr && h->wrote && roll(s.f.close_err)) {
    // A delayed write fails: the tail of the data never reaches the disk.
    s.c.hard++; g_ctx->fault("close-error");
    std::string& d = h->ino->data;
    size_t keep = g_ctx->choose((uint32_t)d.size() + 1);
    if (keep == d.size() && keep) --keep;
    d.resize(keep);
    jot(Op::kTrunc, h->path, h->ino, keep);
    errno = EIO; rc = -1;
  }
  LOG("close %s -> %d", h->path.c_str(), rc);
  if (wr) jot(Op::kClose, h->path, h->ino);
  int e = errno;
  s.fds.erase(fd);
  errno = e;
  return rc;
}
static off_t v_seek(int fd, off_t off, int whence) {
  InHarness ih;
  Handle* h = get(fd);
  if (!h) { errno = EBADF; return -1; }
  if (roll(S().f.seek_fail)) { S().c.hard++; g_ctx->fault("seek-error"); errno = EIO; return -1; }
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)h->pos : h->ino ? (int64_t)h->ino->data.size() : 0;
  if (b + off < 0) { errno = EINVAL; return -1; }
  h->pos = (uint64_t)(b + off);
  return (off_t)h->pos;
}
static void fill(const InodePtr& i, bool dir, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_nlink = 1; st->st_blksize = 4096;
  st->st_uid = getuid(); st->st_gid = getgid();
  if (dir) st->st_mode = S_IFDIR | 0755;
  else { st->st_mode = S_IFREG | i->mode; st->st_size = (off_t)i->data.size(); st->st_ino = i->id; }
}
static int v_stat(const char* path, struct stat* st) {
  InHarness ih;
  std::string n = norm(path);
  called("stat", n);
  State& s = S();
  if (!*path) { errno = ENOENT; return -1; }
  if (roll(s.f.stat_fail)) { s.c.hard++; g_ctx->fault("stat-error"); errno = EACCES; LOG("stat %s -> EACCES", n.c_str()); return -1; }
  if (s.dirs.count(n)) { fill(InodePtr(), true, st); return 0; }
  std::map<std::string, InodePtr>::iterator it = s.files.find(n);
  if (it == s.files.end() || path[strlen(path) - 1] == '/') { errno = it == s.files.end() ? ENOENT : ENOTDIR; LOG("stat %s -> ENOENT", n.c_str()); return -1; }
  fill(it->second, false, st);
  LOG("stat %s -> ok", n.c_str());
  return 0;
}
static int v_unlink(const char* path) {
  InHarness ih;
  std::string n = norm(path);
  called("unlink", n);
  State& s = S();
  s.c.unlinks++;
  if (roll(s.f.unlink_fail)) { s.c.hard++; g_ctx->fault("unlink-error"); LOG("unlink %s -> EPERM", n.c_str()); errno = g_ctx->choose(2) ? EPERM : EIO; return -1; }
  if (s.dirs.count(n)) { errno = EISDIR; return -1; }
  std::map<std::string, InodePtr>::iterator it = s.files.find(n);
  if (it == s.files.end()) { errno = ENOENT; LOG("unlink %s -> ENOENT", n.c_str()); return -1; }
  jot(Op::kUnlink, n, it->second);
  if (s.f.capacity >= 0) s.f.capacity += (int64_t)it->second->data.size();
  s.files.erase(it);
  LOG("unlink %s -> ok", n.c_str());
  return 0;
}
static int v_rename(const char* a, const char* b) {
  InHarness ih;
  std::string x = norm(a), y = norm(b);
  called("rename", x);
  State& s = S();
  if (roll(s.f.open_fail)) { s.c.hard++; g_ctx->fault("rename-error"); errno = EIO; return -1; }
  std::map<std::string, InodePtr>::iterator it = s.files.find(x);
  if (it == s.files.end() || !s.dirs.count(parent(y))) { errno = ENOENT; return -1; }
  InodePtr i = it->second;
  s.files.erase(x); s.files[y] = i;
  jot(Op::kRename, x, i, 0, "", y);
  LOG("rename %s %s", x.c_str(), y.c_str());
  return 0;
}
static int v_mktemp_name(char* tmpl, int suffixlen, std::string* out) {
  size_t len = strlen(tmpl);
  if (len < 6 + (size_t)suffixlen) return -1;
  char* x = tmpl + len - 6 - suffixlen;
  static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  unsigned n = temp_alphabet ? temp_alphabet : 1;
  for (int i = 0; i < 6; ++i) x[i] = al[g_ctx ? g_ctx->choose(n) : 0];
  *out = tmpl;
  return 0;
}
static int v_mkstemp(char* tmpl, int suffixlen, int flags) {
  InHarness ih;
  called("mkstemp", tmpl);
  State& s = S();
  size_t len = strlen(tmpl);
  if (len < 6 + (size_t)suffixlen || memcmp(tmpl + len - 6 - suffixlen, "XXXXXX", 6) != 0) { errno = EINVAL; return -1; }
  if (roll(s.f.mkstemp_fail)) {
    s.c.hard++; g_ctx->fault("mkstemp-error"); errno = g_ctx->choose(2) ? EACCES : ENOSPC; LOG("mkstemp -> errno %d", errno); return -1;
  }
  for (int tries = 0; tries < 64; ++tries) {
    std::string name;
    v_mktemp_name(tmpl, suffixlen, &name);
    if (s.files.count(norm(name))) { if (g_ctx) g_ctx->probe("mkstemp-collision"); continue; }
    Faults keep = s.f; s.f = Faults(); 
    int fd = v_open(name.c_str(), O_RDWR | O_CREAT | O_EXCL | flags, 0600);
    s.f = keep;
    if (fd < 0 && errno == EEXIST) continue;   // another thread took the name
    return fd;
  }
  errno = EEXIST;
  return -1;
}

// --- FILE* over fopencookie -------------------------------------------------
static ssize_t ck_read(void* c, char* b, size_t n) { return v_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  // glibc's own FILE loops over short writes; do the same here. For a cookie
  // a result below n means error.
  size_t done = 0;
  while (done < n) {
    ssize_t r = v_write((int)(intptr_t)c, b + done, n - done);
    if (r <= 0) break;
    done += r;
  }
  return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* off, int whence) {
  off_t r = v_seek((int)(intptr_t)c, *off, whence);
  if (r < 0) return -1;
  *off = r; return 0;
}
static int ck_close(void* c) {
  InHarness ih;
  int fd = (int)(intptr_t)c;
  for (std::map<FILE*, int>::iterator i = S().streams.begin(); i != S().streams.end(); ++i)
    if (i->second == fd) { S().streams.erase(i); break; }
  return v_close(fd);
}
static bool parse_mode(const char* m, int* flags) {
  bool plus = strchr(m, '+') != NULL, x = strchr(m, 'x') != NULL;
  switch (m[0]) {
    case 'r': *flags = plus ? O_RDWR : O_RDONLY; break;
    case 'w': *flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': *flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return false;
  }
  if (x) *flags |= O_EXCL;
  return true;
}
static FILE* v_stream(int fd, const char* mode) {
  InHarness ih;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  char m[4] = {mode[0], 0, 0, 0};
  if (strchr(mode, '+')) m[1] = '+';
  FILE* f = fopencookie((void*)(intptr_t)fd, m, io);
  if (f) S().streams[f] = fd;
  return f;
}
static FILE* v_fopen(const char* path, const char* mode) {
  int fl;
  if (!parse_mode(mode, &fl)) { errno = EINVAL; return NULL; }
  int fd = v_open(path, fl, 0666);
  if (fd < 0) return NULL;
  return v_stream(fd, mode);
}

static bool virt(const char* path) { InHarness ih; return g_active && path && !is_system(norm(path)); }
}  // namespace simfs

// --- interposed libc ---------------------------------------------------------
using namespace simfs;
template <class F> static F next_sym(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}
extern "C" {
int open(const char* p, int fl, ...) {
  mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
  if (virt(p)) return v_open(p, fl, m);
  if (g_active && (fl & O_ACCMODE) != O_RDONLY && strncmp(p, "/dev/", 5)) { errno = EACCES; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) {
  mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
  return open(p, fl, m);
}
int openat(int d, const char* p, int fl, ...) {
  mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap);
  if (virt(p)) return v_open(p, fl, m);
  return (int)syscall(SYS_openat, d, p, fl, m);
}
int creat(const char* p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) { return fd >= kBase ? v_close(fd) : (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { return fd >= kBase ? v_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return fd >= kBase ? v_write(fd, b, n) : syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) {
  if (fd < kBase) return syscall(SYS_writev, fd, v, n);
  std::string all;
  { InHarness ih; for (int i = 0; i < n; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); }
  ssize_t r = v_write(fd, all.data(), all.size());
  { InHarness ih; std::string().swap(all); }
  return r;
}
ssize_t readv(int fd, const struct iovec* v, int n) {
  if (fd < kBase) return syscall(SYS_readv, fd, v, n);
  for (int i = 0; i < n; ++i) if (v[i].iov_len) return v_read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (fd < kBase) return syscall(SYS_pread64, fd, b, n, o);
  InHarness ih; Handle* h = get(fd); if (!h) { errno = EBADF; return -1; }
  uint64_t p = h->pos; h->pos = o; ssize_t r = v_read(fd, b, n); h->pos = p; return r;
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (fd < kBase) return syscall(SYS_pwrite64, fd, b, n, o);
  InHarness ih; Handle* h = get(fd); if (!h) { errno = EBADF; return -1; }
  uint64_t p = h->pos; h->pos = o; ssize_t r = v_write(fd, b, n); h->pos = p; return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) { return fd >= kBase ? v_seek(fd, o, w) : syscall(SYS_lseek, fd, o, w); }
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int stat(const char* p, struct stat* st) { if (virt(p)) return v_stat(p, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (virt(p)) return v_stat(p, st); return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl) { if (virt(p)) return v_stat(p, st); return (int)syscall(SYS_newfstatat, d, p, st, fl); }
int fstat(int fd, struct stat* st) {
  if (fd < kBase) return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
  InHarness ih; Handle* h = get(fd); if (!h) { errno = EBADF; return -1; }
  fill(h->ino, !h->ino, st); return 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int access(const char* p, int m) {
  if (!virt(p)) return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
  struct stat st; if (v_stat(p, &st) != 0) return -1;
  if (((m & R_OK) && !(st.st_mode & 0400)) || ((m & W_OK) && !(st.st_mode & 0200)) || ((m & X_OK) && !(st.st_mode & 0100))) { errno = EACCES; return -1; }
  return 0;
}
int unlink(const char* p) { if (virt(p)) return v_unlink(p); if (g_active) { errno = EACCES; return -1; } return (int)syscall(SYS_unlink, p); }
int remove(const char* p) { if (virt(p)) return v_unlink(p); if (g_active) { errno = EACCES; return -1; } return (int)syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) { if (virt(a) && virt(b)) return v_rename(a, b); if (g_active) { errno = EACCES; return -1; } return (int)syscall(SYS_rename, a, b); }
int mkdir(const char* p, mode_t m) {
  if (virt(p)) { InHarness ih; std::string n = norm(p); if (S().dirs.count(n) || S().files.count(n)) { errno = EEXIST; return -1; } if (!S().dirs.count(parent(n))) { errno = ENOENT; return -1; } S().dirs.insert(n); return 0; }
  if (g_active) { errno = EACCES; return -1; }
  return (int)syscall(SYS_mkdir, p, m);
}
int rmdir(const char* p) { if (g_active) { errno = EACCES; return -1; } return (int)syscall(SYS_rmdir, p); }
int ftruncate(int fd, off_t n) {
  if (fd < kBase) return (int)syscall(SYS_ftruncate, fd, n);
  InHarness ih; Handle* h = get(fd); if (!h || !h->ino) { errno = EBADF; return -1; }
  h->ino->data.resize(n); jot(Op::kTrunc, h->path, h->ino, n); return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
  if (virt(p)) { InHarness ih; std::string k = norm(p); if (!S().files.count(k)) { errno = ENOENT; return -1; } S().files[k]->data.resize(n); jot(Op::kTrunc, k, S().files[k], n); return 0; }
  errno = EACCES; return -1;
}
int fsync(int fd) { if (fd < kBase) return (int)syscall(SYS_fsync, fd); InHarness ih; Handle* h = get(fd); if (!h) { errno = EBADF; return -1; } jot(Op::kSync, h->path, h->ino); return 0; }
int fdatasync(int fd) { return fsync(fd); }
int chmod(const char* p, mode_t m) {
  if (virt(p)) { InHarness ih; std::string k = norm(p); called("chmod", k); if (!S().files.count(k)) { errno = ENOENT; return -1; } if (roll(S().f.chmod_fail)) { S().c.hard++; g_ctx->fault("chmod-error"); errno = EPERM; return -1; } S().files[k]->mode = m & 07777; return 0; }
  if (g_active) { errno = EACCES; return -1; }
  return (int)syscall(SYS_chmod, p, m);
}
int fchmod(int fd, mode_t m) {
  if (fd < kBase) return (int)syscall(SYS_fchmod, fd, m);
  InHarness ih; called("fchmod", "");
  Handle* h = get(fd); if (!h || !h->ino) { errno = EBADF; return -1; }
  if (roll(S().f.chmod_fail)) { S().c.hard++; g_ctx->fault("chmod-error"); errno = EPERM; return -1; }
  h->ino->mode = m & 07777; return 0;
}
mode_t umask(mode_t m) {
  if (!g_active) return (mode_t)syscall(SYS_umask, m);
  InHarness ih; called("umask", "");
  mode_t o = S().um; S().um = m & 0777; LOG("umask %03o -> %03o", o, m & 0777); return o;
}
int mkstemp(char* t) { return v_mkstemp(t, 0, 0); }
int mkstemp64(char* t) { return v_mkstemp(t, 0, 0); }
int mkostemp(char* t, int f) { return v_mkstemp(t, 0, f & ~O_ACCMODE); }
int mkostemp64(char* t, int f) { return v_mkstemp(t, 0, f & ~O_ACCMODE); }
int mkstemps(char* t, int s) { return v_mkstemp(t, s, 0); }
int mkostemps(char* t, int s, int f) { return v_mkstemp(t, s, f & ~O_ACCMODE); }
char* mktemp(char* t) {
  InHarness ih;
  called("mktemp", t);
  for (int i = 0; i < 64; ++i) { std::string n; if (v_mktemp_name(t, 0, &n) != 0) break; if (!S().files.count(norm(n))) return t; }
  t[0] = 0; return t;
}
char* tmpnam(char* b) {
  static char st[64]; if (!b) b = st;
  strcpy(b, "/tmp/fileXXXXXX"); return mktemp(b);
}
char* tempnam(const char* d, const char* p) {
  InHarness ih; std::string s = std::string(d ? d : "/tmp") + "/" + (p ? p : "file") + "XXXXXX";
  char* r = strdup(s.c_str()); return mktemp(r);
}
FILE* fopen(const char* p, const char* m) {
  if (virt(p)) return v_fopen(p, m);
  if (g_active && m && m[0] != 'r' && strncmp(p, "/dev/", 5)) { errno = EACCES; return NULL; }
  typedef FILE* (*F)(const char*, const char*);
  static F real = next_sym<F>("fopen");
  return real(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) {
  if (fd >= kBase) return v_stream(fd, m);
  typedef FILE* (*F)(int, const char*);
  static F real = next_sym<F>("fdopen");
  return real(fd, m);
}
int fileno(FILE* f) {
  InHarness ih;
  if (g_active || !S().streams.empty()) { std::map<FILE*, int>::iterator i = S().streams.find(f); if (i != S().streams.end()) return i->second; }
  typedef int (*F)(FILE*);
  static F real = next_sym<F>("fileno");
  return real(f);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (fd < kBase) return (int)syscall(SYS_ioctl, fd, req, a);
  errno = ENOTTY; return -1;
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && p[0].fd >= kBase) { p[0].revents = p[0].events & (POLLIN | POLLOUT); return 1; }
  return (int)syscall(SYS_poll, p, n, t);
}
// The simulated clock.
time_t time(time_t* t) {
  time_t v;
  if (g_active && g_ctx) v = 1700000000 + (time_t)(g_ctx->now_us / 1000000);
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}
int gettimeofday(struct timeval* tv, void*) {
  if (g_active && g_ctx) { tv->tv_sec = 1700000000 + g_ctx->now_us / 1000000; tv->tv_usec = g_ctx->now_us % 1000000; return 0; }
  struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
}  // extern "C"
