// Process-death injection: file mutating libc calls of the process are counted; at a chosen one the process ends
// (optionally after writing only a part of the data).  Linked into crash harnesses only (it interposes write & co).
#pragma once
#include "mc.hpp"
#include <sys/syscall.h>
#include <sys/uio.h>
#include <dlfcn.h>

namespace crash {
inline bool on = false; inline long count = 0, at = -1; inline int torn = 0; // torn: 0 none written, 1 half of the bytes, 2 all but last byte
// only calls on paths which contain this text are counted (all if empty)
inline const char *only = "";
// fault instead of death: errno of failing writes (0: none), number of failing calls, short writes
inline int faultErrno = 0; inline long faultCount = 1; inline bool shortWrite = false;
inline bool small = false;   // the child died at a write which is too small to be torn
inline bool match(const char *p) { return !*only || (p && strstr(p, only)); }
inline bool match(int fd) { if (!*only) return true; char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return false; b[n] = 0; return match(b); }
template <class P> inline bool hit(P p) { return on && match(p) && count++ == at; }
inline bool faulty() { return faultErrno || shortWrite; }
template <class P> inline bool fault(P p) { if (!on || !match(p)) return false; long k = count++; return k >= at && k - at < faultCount; }
inline void die(size_t n = 0) { syscall(SYS_exit_group, n && n <= 16 ? 41 : 42); }

// runs f in a child that dies at mutating call number k; returns true if the child died there, false if it completed
// (throws mc::Fail when the child ends in any other way)
inline bool runChild(long k, int tornMode, const std::function<void()> &f) {
  fflush(stderr); fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    on = true; count = 0; at = k; torn = tornMode;
    try { f(); } catch (mc::Fail &e) { on = false; fprintf(stderr, "child: %s\n", e.msg.c_str()); _exit(43); }
    catch (std::exception &e) { on = false; fprintf(stderr, "child: exception %s\n", e.what()); _exit(43); }
    on = false; syscall(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  small = WIFEXITED(st) && WEXITSTATUS(st) == 41;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 42 || small)) return true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  mc::fail("process ended abnormally (status %x) with crash point %ld", st, k);
}
}

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
  if (crash::faulty()) { if (fd > 2 && n && crash::fault(fd)) { if (crash::shortWrite) return syscall(SYS_write, fd, b, n > 1 ? n / 2 : n); errno = crash::faultErrno; return -1; } return syscall(SYS_write, fd, b, n); }
  if (fd > 2 && crash::hit(fd)) { size_t m = crash::torn == 0 ? 0 : crash::torn == 1 ? n / 2 : n - 1; if (n > 16 && m) syscall(SYS_write, fd, b, m); crash::die(n); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (crash::faulty()) { size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; if (fd > 2 && n && crash::fault(fd)) { if (crash::shortWrite) { for (int i = 0; i < c; ++i) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len > 1 ? v[i].iov_len / 2 : v[i].iov_len); } errno = crash::faultErrno; return -1; } return syscall(SYS_writev, fd, v, c); }
  if (fd > 2 && crash::hit(fd)) {
    std::string all; for (int i = 0; i < c; ++i) all.append((const char *)v[i].iov_base, v[i].iov_len);
    size_t n = all.size(), m = crash::torn == 0 ? 0 : crash::torn == 1 ? n / 2 : n - 1; if (n > 16 && m) syscall(SYS_write, fd, all.data(), m); crash::die(n);
  }
  return syscall(SYS_writev, fd, v, c);
}
int ftruncate(int fd, off_t n) __THROW { if (!crash::faulty() && crash::hit(fd)) crash::die(); return syscall(SYS_ftruncate, fd, n); }
int unlink(const char *p) __THROW { if (!crash::faulty() && crash::hit(p)) crash::die(); return syscall(SYS_unlink, p); }
int remove(const char *p) __THROW { if (!crash::faulty() && crash::hit(p)) crash::die(); int r = syscall(SYS_unlink, p); return r < 0 ? syscall(SYS_rmdir, p) : r; }
int rename(const char *a, const char *b) __THROW { if (!crash::faulty() && crash::hit(a)) crash::die(); return syscall(SYS_rename, a, b); }
}
