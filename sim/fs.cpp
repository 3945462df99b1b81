// File system seam: virtual prefix /w mapped to a scratch directory, every
// operation an event (kill/edit point) and a fault site, mtimes from the
// simulated clock, directory order decided by the seed.
#include "rt.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <map>

namespace sim {
std::string g_root;

std::string real_path(const std::string &v) {
  if (v.compare(0, 2, "/w") == 0 && (v.size() == 2 || v[2] == '/')) return g_root + v.substr(2);
  return v;
}
static bool is_virt(const char *p) { return p && p[0] == '/' && p[1] == 'w' && (p[2] == 0 || p[2] == '/'); }
static std::string virt_of(const char *p) {
  if (!p) return "";
  if (p[0] == '/') return p;
  return std::string("/w/p/") + p;
}

#define RFN(ret, name, ...) \
  using name##_t = ret (*)(__VA_ARGS__); \
  static name##_t r_##name() { static name##_t f = nullptr; if (!f) f = (name##_t)dlsym(RTLD_NEXT, #name); return f; }
RFN(int, open, const char *, int, ...)
RFN(int, openat, int, const char *, int, ...)
RFN(FILE *, fopen, const char *, const char *)
RFN(int, fclose, FILE *)
RFN(ssize_t, read, int, void *, size_t)
RFN(ssize_t, write, int, const void *, size_t)
RFN(ssize_t, writev, int, const struct iovec *, int)
RFN(int, close, int)
RFN(int, stat, const char *, struct stat *)
RFN(int, lstat, const char *, struct stat *)
RFN(int, fstatat, int, const char *, struct stat *, int)
RFN(int, mkdir, const char *, mode_t)
RFN(int, rename, const char *, const char *)
RFN(int, remove, const char *)
RFN(int, unlink, const char *)
RFN(int, rmdir, const char *)
RFN(int, unlinkat, int, const char *, int)
RFN(int, truncate, const char *, off_t)
RFN(int, utimensat, int, const char *, const struct timespec *, int)
RFN(DIR *, fdopendir, int)
RFN(DIR *, opendir, const char *)
RFN(struct dirent *, readdir, DIR *)
RFN(int, closedir, DIR *)
RFN(ssize_t, readlink, const char *, char *, size_t)
RFN(char *, realpath, const char *, char *)
RFN(int, chdir, const char *)
RFN(char *, getcwd, char *, size_t)
RFN(int, access, const char *, int)
RFN(int, symlink, const char *, const char *)
RFN(int, link, const char *, const char *)
RFN(int, fsync, int)
RFN(ssize_t, sendfile, int, int, off_t *, size_t)

struct FdInfo { std::string path; bool w; };
static std::map<int, FdInfo> &fds() { static auto *m = new std::map<int, FdInfo>; return *m; }
struct DirInfo { std::vector<struct dirent> ents; size_t pos = 0; std::string path; };
static std::map<DIR *, DirInfo> &dirs() { static auto *m = new std::map<DIR *, DirInfo>; return *m; }

static void stamp_fd(int fd) {
  uint64_t t = fresh_mtime();
  struct timespec ts[2] = {{(time_t)(t / 1000000000ull), (long)(t % 1000000000ull)}, {(time_t)(t / 1000000000ull), (long)(t % 1000000000ull)}};
  r_utimensat();
  futimens(fd, ts);
}

bool read_file(const std::string &v, std::string &out) {
  InRt g;
  std::string r = real_path(v);
  int fd = r_open()(r.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  out.clear();
  char b[8192];
  ssize_t n;
  while ((n = r_read()(fd, b, sizeof b)) > 0) out.append(b, (size_t)n);
  r_close()(fd);
  return n == 0;
}
bool write_file(const std::string &v, const std::string &data, uint64_t mtime) {
  InRt g;
  std::string r = real_path(v);
  int fd = r_open()(r.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < data.size()) {
    ssize_t n = r_write()(fd, data.data() + o, data.size() - o);
    if (n <= 0) break;
    o += (size_t)n;
  }
  struct timespec ts[2] = {{(time_t)(mtime / 1000000000ull), (long)(mtime % 1000000000ull)}, {(time_t)(mtime / 1000000000ull), (long)(mtime % 1000000000ull)}};
  futimens(fd, ts);
  r_close()(fd);
  return o == data.size();
}
bool file_exists(const std::string &v) {
  InRt g;
  struct stat st;
  return r_stat()(real_path(v).c_str(), &st) == 0;
}
uint64_t file_mtime(const std::string &v) {
  InRt g;
  struct stat st;
  if (r_stat()(real_path(v).c_str(), &st)) return 0;
  return (uint64_t)st.st_mtim.tv_sec * 1000000000ull + (uint64_t)st.st_mtim.tv_nsec;
}
void make_dirs(const std::string &v) {
  InRt g;
  std::string r = real_path(v);
  for (size_t i = g_root.size() + 1; i <= r.size(); i++)
    if (i == r.size() || r[i] == '/') r_mkdir()(r.substr(0, i).c_str(), 0755);
}
void fs_init() {}

static bool match(const FsFault &f, const std::string &path) { return f.match.empty() || path.find(f.match) != std::string::npos; }
// returns the fault that hits this operation, or null
static FsFault *fault(int op, const std::string &path) {
  InRt g;
  if (op == F_READ && path.size() > 5 && path.compare(path.size() - 5, 5, ".toml") == 0) return nullptr;   // read by the option parser, which is not under test
  shm->fsops[op]++;
  FsFault *hit = nullptr;
  for (auto &f : plan.fs) {
    if (f.op != op || !match(f, path)) continue;
    f.seen++;
    if (f.seen >= f.nth && (f.count < 0 || f.seen < f.nth + f.count) && !hit) hit = &f;
  }
  if (hit) {
    shm->fault[op == F_WRITE && hit->shortn >= 0 ? FS_SHORT : FS_FSERR]++;
    logf("FSFAULT %s %s errno=%d", kFsOpName[op], path.c_str(), hit->err);
  }
  return hit;
}
static bool on() { return g_on && self_id() >= 0 && t_rt == 0; }
static int fail(int e) { errno = e; return -1; }
}  // namespace sim
using namespace sim;

extern "C" {
static int open_common(int dirfd, const char *p, int flags, mode_t mode, bool at) {
  bool v = is_virt(p) || (p && p[0] != '/');
  bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!on() || !v) {
    if (on() && w && p && strncmp(p, "/dev/null", 9)) return fail(EACCES);
    if (at) return r_openat()(dirfd, p, flags, mode);
    return r_open()(p, flags, mode);
  }
  bool relat = at && p[0] != '/' && dirfd != AT_FDCWD;
  std::string vp;
  { InRt g; vp = relat ? (fds().count(dirfd) ? fds()[dirfd].path + "/" + p : std::string(p)) : virt_of(p); }
  event(w ? "open-write" : "open-read");
  if (FsFault *f = fault(w ? F_OPEN_W : F_OPEN_R, vp)) return fail(f->err);
  InRt g;
  int fd = relat ? r_openat()(dirfd, p, flags, mode) : r_open()(real_path(vp).c_str(), flags, mode);
  if (fd >= 0) {
    int e = errno;
    fds()[fd] = FdInfo{vp, w};
    if (w && (flags & (O_TRUNC | O_CREAT))) stamp_fd(fd);
    if (w) logf("OW %s @%llu", vp.c_str(), (unsigned long long)event_count());
    errno = e;
  }
  return fd;
}
int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap);
  return open_common(AT_FDCWD, p, flags, m, false);
}
int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap);
  return open_common(AT_FDCWD, p, flags, m, false);
}
int openat(int d, const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (mode_t)va_arg(ap, int); va_end(ap);
  return open_common(d, p, flags, m, true);
}
int __openat_2(int d, const char *p, int flags) { return open_common(d, p, flags, 0, true); }
static FILE *fopen_common(const char *p, const char *mode) {
  bool v = is_virt(p) || (p && p[0] != '/');
  bool w = strpbrk(mode, "wa+") != nullptr;
  if (!on() || !v) {
    if (on() && w && strncmp(p, "/dev/null", 9)) { errno = EACCES; return nullptr; }
    return r_fopen()(p, mode);
  }
  std::string vp;
  { InRt g; vp = virt_of(p); }
  event(w ? "open-write" : "open-read");
  if (FsFault *f = fault(w ? F_OPEN_W : F_OPEN_R, vp)) { errno = f->err; return nullptr; }
  InRt g;
  FILE *f = r_fopen()(real_path(vp).c_str(), mode);
  if (f) {
    int e = errno;
    int fd = fileno(f);
    fds()[fd] = FdInfo{vp, w};
    if (w) { stamp_fd(fd); logf("OW %s @%llu", vp.c_str(), (unsigned long long)event_count()); }
    errno = e;
  }
  return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m); }
static bool tracked(int fd, FdInfo &out) {
  InRt g;
  auto it = fds().find(fd);
  if (it == fds().end()) return false;
  out = it->second;
  return true;
}
int fclose(FILE *f) {
  if (!on()) return r_fclose()(f);
  FdInfo i;
  int fd = fileno(f);
  if (!tracked(fd, i)) { InRt g; return r_fclose()(f); }
  int err = 0;
  if (i.w) {
    event("close");
    if (FsFault *x = fault(F_CLOSE_W, i.path)) err = x->err;
  }
  InRt g;
  fds().erase(fd);
  int r = r_fclose()(f);
  if (i.w) logf("CW %s @%llu", i.path.c_str(), (unsigned long long)event_count());
  if (err) return fail(err);
  return r;
}
int close(int fd) {
  if (!on()) return r_close()(fd);
  FdInfo i;
  if (!tracked(fd, i)) { InRt g; return r_close()(fd); }
  int err = 0;
  if (i.w) {
    event("close");
    if (FsFault *x = fault(F_CLOSE_W, i.path)) err = x->err;
  }
  InRt g;
  fds().erase(fd);
  int r = r_close()(fd);
  if (i.w) logf("CW %s @%llu", i.path.c_str(), (unsigned long long)event_count());
  if (err) return fail(err);
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!on()) return r_read()(fd, b, n);
  FdInfo i;
  if (!tracked(fd, i)) { InRt g; return r_read()(fd, b, n); }
  event("read");
  if (FsFault *x = fault(F_READ, i.path)) {
    if (x->shortn >= 0 && (size_t)x->shortn < n && x->shortn > 0) n = (size_t)x->shortn;
    else return fail(x->err);
  }
  InRt g;
  return r_read()(fd, b, n);
}
static ssize_t write_common(int fd, const FdInfo &i, const char *b, size_t n) {
  // a write reaches the file in two steps, so a kill can leave a torn file
  event("write");
  if (FsFault *x = fault(F_WRITE, i.path)) {
    size_t k = 0;
    if (x->shortn > 0) {
      k = std::min((size_t)x->shortn, n);
      InRt g;
      k = (size_t)std::max<ssize_t>(0, r_write()(fd, b, k));
      stamp_fd(fd);
    }
    if (k > 0 && k < n && x->count == 1) return (ssize_t)k;   // plain short write: the caller must continue
    if (k == n) return (ssize_t)k;
    if (k > 0) return (ssize_t)k;                              // full disk: next write fails
    return fail(x->err);
  }
  size_t h = n > 1 ? 1 + rnd(n - 1) : n;
  ssize_t a;
  { InRt g; a = r_write()(fd, b, h); stamp_fd(fd); }
  if (a != (ssize_t)h || h == n) return a;
  event("write2");
  InRt g;
  ssize_t c = r_write()(fd, b + h, n - h);
  stamp_fd(fd);
  return c < 0 ? a : a + c;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!on()) return r_write()(fd, b, n);
  FdInfo i;
  if (!tracked(fd, i)) { InRt g; return r_write()(fd, b, n); }
  return write_common(fd, i, (const char *)b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!on()) return r_writev()(fd, v, c);
  FdInfo i;
  if (!tracked(fd, i)) { InRt g; return r_writev()(fd, v, c); }
  std::string s;
  { InRt g; for (int k = 0; k < c; k++) s.append((const char *)v[k].iov_base, v[k].iov_len); }
  return write_common(fd, i, s.data(), s.size());
}
ssize_t sendfile(int o, int in, off_t *off, size_t n) {
  if (!on()) return r_sendfile()(o, in, off, n);
  FdInfo i;
  if (tracked(o, i)) {
    event("write");
    if (FsFault *x = fault(F_WRITE, i.path)) return fail(x->err);
  }
  InRt g;
  ssize_t r = r_sendfile()(o, in, off, n);
  stamp_fd(o);
  return r;
}
int fsync(int fd) {
  if (!on()) return r_fsync()(fd);
  return 0;
}
static bool vp_of(const char *p, std::string &vp) {
  if (!p || !on()) return false;
  if (!(is_virt(p) || p[0] != '/')) return false;
  InRt g;
  vp = virt_of(p);
  return true;
}
int stat(const char *p, struct stat *st) {
  std::string v;
  if (!vp_of(p, v)) return r_stat()(p, st);
  event("stat");
  if (FsFault *x = fault(F_STAT, v)) return fail(x->err);
  InRt g;
  return r_stat()(real_path(v).c_str(), st);
}
int lstat(const char *p, struct stat *st) {
  std::string v;
  if (!vp_of(p, v)) return r_lstat()(p, st);
  event("stat");
  if (FsFault *x = fault(F_STAT, v)) return fail(x->err);
  InRt g;
  return r_lstat()(real_path(v).c_str(), st);
}
int fstatat(int d, const char *p, struct stat *st, int fl) {
  std::string v;
  if (d != AT_FDCWD && p && p[0] != '/') return r_fstatat()(d, p, st, fl);
  if (!vp_of(p, v)) return r_fstatat()(d, p, st, fl);
  event("stat");
  if (FsFault *x = fault(F_STAT, v)) return fail(x->err);
  InRt g;
  return r_fstatat()(AT_FDCWD, real_path(v).c_str(), st, fl);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int access(const char *p, int m) {
  std::string v;
  if (!vp_of(p, v)) return r_access()(p, m);
  event("stat");
  InRt g;
  return r_access()(real_path(v).c_str(), m);
}
int mkdir(const char *p, mode_t m) {
  if (!on()) return r_mkdir()(p, m);
  std::string v;
  if (!vp_of(p, v)) return fail(EACCES);
  event("mkdir");
  if (FsFault *x = fault(F_MKDIR, v)) return fail(x->err);
  InRt g;
  return r_mkdir()(real_path(v).c_str(), m);
}
#define DESTROY(name, kind) \
  int name(const char *p) { \
    if (!on()) return r_##name()(p); \
    std::string v; \
    if (!vp_of(p, v)) return fail(EACCES); \
    event("unlink"); \
    if (FsFault *x = fault(F_UNLINK, v)) return fail(x->err); \
    InRt g; \
    int r = r_##name()(real_path(v).c_str()); \
    if (r == 0) logf("UL %s", v.c_str()); \
    return r; }
DESTROY(remove, 0)
DESTROY(unlink, 0)
DESTROY(rmdir, 0)
int unlinkat(int d, const char *p, int fl) {
  if (!on()) return r_unlinkat()(d, p, fl);
  std::string v;
  if (p[0] != '/' && d != AT_FDCWD) {
    FdInfo i;
    if (!tracked(d, i)) return fail(EACCES);
    event("unlink");
    if (FsFault *x = fault(F_UNLINK, i.path + "/" + p)) return fail(x->err);
    InRt g;
    int r = r_unlinkat()(d, p, fl);
    if (r == 0) logf("UL %s/%s", i.path.c_str(), p);
    return r;
  }
  if (!vp_of(p, v)) return fail(EACCES);
  event("unlink");
  if (FsFault *x = fault(F_UNLINK, v)) return fail(x->err);
  InRt g;
  return r_unlinkat()(AT_FDCWD, real_path(v).c_str(), fl);
}
int rename(const char *a, const char *b) {
  if (!on()) return r_rename()(a, b);
  std::string va, vb;
  if (!vp_of(a, va) || !vp_of(b, vb)) return fail(EACCES);
  event("rename");
  if (FsFault *x = fault(F_RENAME, vb)) return fail(x->err);
  InRt g;
  int r = r_rename()(real_path(va).c_str(), real_path(vb).c_str());
  if (r == 0) logf("RN %s %s", va.c_str(), vb.c_str());
  return r;
}
int symlink(const char *a, const char *b) {
  if (!on()) return r_symlink()(a, b);
  std::string vb;
  if (!vp_of(b, vb)) return fail(EACCES);
  InRt g;
  return r_symlink()(real_path(a).c_str(), real_path(vb).c_str());
}
int link(const char *a, const char *b) {
  if (!on()) return r_link()(a, b);
  std::string va, vb;
  if (!vp_of(a, va) || !vp_of(b, vb)) return fail(EACCES);
  InRt g;
  return r_link()(real_path(va).c_str(), real_path(vb).c_str());
}
int truncate(const char *p, off_t n) {
  if (!on()) return r_truncate()(p, n);
  std::string v;
  if (!vp_of(p, v)) return fail(EACCES);
  event("write");
  if (FsFault *x = fault(F_WRITE, v)) return fail(x->err);
  InRt g;
  return r_truncate()(real_path(v).c_str(), n);
}
int utimensat(int d, const char *p, const struct timespec *ts, int fl) {
  if (!on()) return r_utimensat()(d, p, ts, fl);
  std::string v;
  if (!vp_of(p, v)) return fail(EACCES);
  InRt g;
  struct timespec t2[2];
  if (!ts || ts[1].tv_nsec == UTIME_NOW) { uint64_t t = fresh_mtime(); t2[0] = t2[1] = {(time_t)(t / 1000000000ull), (long)(t % 1000000000ull)}; ts = t2; }
  return r_utimensat()(AT_FDCWD, real_path(v).c_str(), ts, fl);
}
static void load_dir(DIR *d, const std::string &path) {
  DirInfo di;
  di.path = path;
  while (struct dirent *e = r_readdir()(d)) di.ents.push_back(*e);
  // order fixed per history (a real directory keeps its order between runs), arbitrary otherwise
  auto key = [](const struct dirent &a) { return fnv(a.d_name, plan.dir_salt ^ 1469598103934665603ull); };
  std::sort(di.ents.begin(), di.ents.end(), [&](const struct dirent &a, const struct dirent &b) { uint64_t x = key(a), y = key(b); return x != y ? x < y : strcmp(a.d_name, b.d_name) < 0; });
  dirs()[d] = di;
}
DIR *opendir(const char *p) {
  std::string v;
  if (!vp_of(p, v)) return r_opendir()(p);
  event("open-read");
  if (FsFault *x = fault(F_OPEN_R, v)) { errno = x->err; return nullptr; }
  InRt g;
  DIR *d = r_opendir()(real_path(v).c_str());
  if (d) load_dir(d, v);
  return d;
}
DIR *fdopendir(int fd) {
  if (!on()) return r_fdopendir()(fd);
  FdInfo i;
  bool t = tracked(fd, i);
  InRt g;
  DIR *d = r_fdopendir()(fd);
  if (d && t) load_dir(d, i.path);
  return d;
}
struct dirent *readdir(DIR *d) {
  if (!on()) return r_readdir()(d);
  InRt g;
  auto it = dirs().find(d);
  if (it == dirs().end()) return r_readdir()(d);
  --t_rt;
  event("readdir");
  FsFault *x = fault(F_READDIR, it->second.path);
  ++t_rt;
  if (x) { errno = x->err; return nullptr; }
  if (it->second.pos >= it->second.ents.size()) return nullptr;
  return &it->second.ents[it->second.pos++];
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
  if (!on()) return r_closedir()(d);
  InRt g;
  dirs().erase(d);
  fds().erase(dirfd(d));
  return r_closedir()(d);
}
ssize_t readlink(const char *p, char *b, size_t n) {
  std::string v;
  if (!vp_of(p, v)) return r_readlink()(p, b, n);
  InRt g;
  return r_readlink()(real_path(v).c_str(), b, n);
}
char *realpath(const char *p, char *out) {
  std::string v;
  if (!vp_of(p, v)) return r_realpath()(p, out);
  event("stat");
  InRt g;
  char buf[PATH_MAX];
  if (!r_realpath()(real_path(v).c_str(), buf)) return nullptr;
  std::string r(buf);
  if (r.compare(0, g_root.size(), g_root) == 0) r = "/w" + r.substr(g_root.size());
  if (!out) return strdup(r.c_str());
  strcpy(out, r.c_str());
  return out;
}
int chdir(const char *p) {
  if (!on()) return r_chdir()(p);
  return fail(EACCES);
}
char *getcwd(char *b, size_t n) {
  if (!on()) return r_getcwd()(b, n);
  const char *c = "/w/p";
  if (!b) return strdup(c);
  if (n < strlen(c) + 1) { errno = ERANGE; return nullptr; }
  strcpy(b, c);
  return b;
}
}
