// A journal of everything the process does to the files under one directory, and the reconstruction of what would be on
// disk had the process died at any moment of it. Defines interposers for the calls the C++ library makes; include once.
//
// A crash point is (number of completed operations, number of bytes of the next one if it is a write): what the process has
// handed to the kernel is there, what it has not is not. Data the C++ library still buffers has not been handed over.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <map>
#include <string>
#include <vector>

namespace fsj {

struct Op {
  enum Kind { Create, Truncate, Write, Rename, Remove } kind;
  std::string path, path2;
  int64_t offset = 0;
  std::string data;
};
struct Journal {
  bool on = false;
  std::string dir;  // only paths that begin with this are journaled
  std::vector<Op> ops;
  std::map<int, std::string> fds;
  long fail_writes_after = -1;  // fault injection: writes fail (disk full) once that many bytes have been written
  long written = 0;
};
inline Journal& J() {
  static Journal* j = new Journal;
  return *j;
}
inline bool Mine(const char* path) { return J().on && path && std::string(path).compare(0, J().dir.size(), J().dir) == 0; }
inline void Start(const std::string& dir) {
  J().ops.clear();
  J().fds.clear();
  J().dir = dir;
  J().on = true;
  J().fail_writes_after = -1;
  J().written = 0;
}
inline void Stop() { J().on = false; }

using Files = std::map<std::string, std::string>;
inline void Apply(Files& f, const Op& o, size_t bytes = static_cast<size_t>(-1)) {
  switch (o.kind) {
    case Op::Create: f[o.path]; break;
    case Op::Truncate: f[o.path].resize(static_cast<size_t>(o.offset)); break;
    case Op::Write: {
      std::string d = o.data.substr(0, bytes);
      std::string& x = f[o.path];
      if (d.empty()) break;
      const size_t at = o.offset < 0 ? x.size() : static_cast<size_t>(o.offset);
      if (x.size() < at + d.size()) x.resize(at + d.size());
      x.replace(at, d.size(), d);
      break;
    }
    case Op::Rename: if (f.count(o.path)) { f[o.path2] = f[o.path]; f.erase(o.path); } break;
    case Op::Remove: f.erase(o.path); break;
  }
}
// All crash points in order: (ops completed, bytes of the next one).
struct Point { size_t ops, bytes; };
inline std::vector<Point> CrashPoints() {
  std::vector<Point> r;
  for (size_t k = 0; k < J().ops.size(); ++k) {
    r.push_back({k, 0});
    if (J().ops[k].kind == Op::Write)
      for (size_t b = 1; b < J().ops[k].data.size(); ++b) r.push_back({k, b});
  }
  r.push_back({J().ops.size(), 0});
  return r;
}
inline Files StateAt(const Files& initial, const Point& p) {
  Files f = initial;
  for (size_t k = 0; k < p.ops; ++k) Apply(f, J().ops[k]);
  if (p.bytes) Apply(f, J().ops[p.ops], p.bytes);
  return f;
}
inline void RawWriteFile(const std::string& path, const std::string& data) {
  const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644));
  size_t at = 0;
  while (at < data.size()) {
    const long n = syscall(SYS_write, fd, data.data() + at, data.size() - at);
    if (n <= 0) abort();
    at += static_cast<size_t>(n);
  }
  syscall(SYS_close, fd);
}
inline std::string RawReadFile(const std::string& path) {
  std::string r;
  const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0));
  if (fd < 0) return r;
  char buf[65536];
  long n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(n));
  syscall(SYS_close, fd);
  return r;
}
inline void OnOpen(int fd, const char* path, bool existed, bool trunc, bool creat) {
  if (fd < 0) return;
  J().fds[fd] = path;
  if (!existed && creat) J().ops.push_back({Op::Create, path, "", 0, ""});
  else if (trunc) J().ops.push_back({Op::Truncate, path, "", 0, ""});
}
inline bool Existed(const char* path) { return syscall(SYS_access, path, F_OK) == 0; }
// Returns how many bytes may be written; -1: fail.
inline long Allow(size_t n) {
  if (J().fail_writes_after < 0) return static_cast<long>(n);
  const long left = J().fail_writes_after - J().written;
  return left <= 0 ? (n ? -1 : 0) : left < static_cast<long>(n) ? left : static_cast<long>(n);
}
inline void OnWrite(int fd, const void* p, long n, int64_t offset) {
  if (n <= 0) return;
  J().written += n;
  J().ops.push_back({Op::Write, J().fds[fd], "", offset, std::string(static_cast<const char*>(p), static_cast<size_t>(n))});
}
inline bool Tracked(int fd) { return J().on && J().fds.count(fd); }
inline int64_t Offset(int fd) { return (syscall(SYS_fcntl, fd, F_GETFL) & O_APPEND) ? -1 : syscall(SYS_lseek, fd, 0, SEEK_CUR); }

}  // namespace fsj

extern "C" {
static FILE* FsjFopen(const char* name, const char* path, const char* mode) {
  auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, name));
  if (!fsj::Mine(path)) return real(path, mode);
  const bool existed = fsj::Existed(path);
  FILE* f = real(path, mode);
  if (f && (mode[0] != 'r' || strchr(mode, '+'))) fsj::OnOpen(fileno(f), path, existed, mode[0] == 'w', mode[0] != 'r');
  return f;
}
FILE* fopen(const char* path, const char* mode) { return FsjFopen("fopen", path, mode); }
FILE* fopen64(const char* path, const char* mode) { return FsjFopen("fopen64", path, mode); }
static int FsjOpen(const char* path, int flags, int mode) {
  const bool mine = fsj::Mine(path), existed = mine && fsj::Existed(path);
  const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  if (mine && (flags & O_ACCMODE) != O_RDONLY) fsj::OnOpen(fd, path, existed, flags & O_TRUNC, flags & O_CREAT);
  return fd;
}
int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); const int m = va_arg(a, int); va_end(a); return FsjOpen(path, flags, m); }
int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); const int m = va_arg(a, int); va_end(a); return FsjOpen(path, flags, m); }
ssize_t write(int fd, const void* p, size_t n) {
  if (!fsj::Tracked(fd)) return syscall(SYS_write, fd, p, n);
  const long allowed = fsj::Allow(n);
  if (allowed < 0) { errno = ENOSPC; return -1; }
  const int64_t at = fsj::Offset(fd);
  const long r = syscall(SYS_write, fd, p, static_cast<size_t>(allowed));
  fsj::OnWrite(fd, p, r, at);
  return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!fsj::Tracked(fd)) return syscall(SYS_writev, fd, v, c);
  std::string all;
  for (int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t at) {
  const long r = syscall(SYS_pwrite64, fd, p, n, at);
  if (fsj::Tracked(fd)) fsj::OnWrite(fd, p, r, at);
  return r;
}
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t at) { return pwrite(fd, p, n, at); }
int ftruncate(int fd, off_t n) {
  const int r = static_cast<int>(syscall(SYS_ftruncate, fd, n));
  if (!r && fsj::Tracked(fd)) fsj::J().ops.push_back({fsj::Op::Truncate, fsj::J().fds[fd], "", n, ""});
  return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* path, off_t n) __THROW {
  const int r = static_cast<int>(syscall(SYS_truncate, path, n));
  if (!r && fsj::Mine(path)) fsj::J().ops.push_back({fsj::Op::Truncate, path, "", n, ""});
  return r;
}
int truncate64(const char* path, off64_t n) __THROW { return truncate(path, n); }
int rename(const char* a, const char* b) __THROW {
  const int r = static_cast<int>(syscall(SYS_rename, a, b));
  if (!r && fsj::Mine(a)) fsj::J().ops.push_back({fsj::Op::Rename, a, b, 0, ""});
  return r;
}
int unlink(const char* a) __THROW {
  const int r = static_cast<int>(syscall(SYS_unlink, a));
  if (!r && fsj::Mine(a)) fsj::J().ops.push_back({fsj::Op::Remove, a, "", 0, ""});
  return r;
}
int remove(const char* a) __THROW { return unlink(a) ? static_cast<int>(syscall(SYS_rmdir, a)) : 0; }
int close(int fd) {
  if (fsj::J().on) fsj::J().fds.erase(fd);
  return static_cast<int>(syscall(SYS_close, fd));
}
int fclose(FILE* f) {
  if (fsj::J().on && f) fsj::J().fds.erase(fileno(f));
  static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  return real(f);
}
}
