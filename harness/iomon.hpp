// File event monitor: replaces the libc file calls in this program and in the libraries it loads, records
// them with a machine-wide clock, shortens polling sleeps and delays calls at random.
// Include in exactly one translation unit; link with -rdynamic.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <vector>

namespace iomon {
struct Ev {
  double t0, t1;
  char kind;  // o open for reading, c open for writing, w write, r read, u unlink
  std::string path;
};
struct Mon {
  std::mutex m;
  bool on = false;
  std::string match;  // only paths containing this are watched
  std::map<int, std::string> fds;
  std::vector<Ev> ev;
  std::string dir;
  int maxDelayUs = 0;
  int sleepDiv = 1;
  unsigned rnd = 1;
};
inline Mon& mon() { static Mon* m = new Mon; return *m; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
template <class F>
inline F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
inline int realSleep(const timespec* a) {
  static auto f = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  return f(CLOCK_MONOTONIC, 0, a, nullptr);
}
inline void us(long n) { timespec t{n / 1000000, (n % 1000000) * 1000}; realSleep(&t); }
inline void delay() {
  auto& m = mon();
  if (!m.on || m.maxDelayUs == 0) return;
  unsigned r;
  { std::lock_guard<std::mutex> g(m.m); m.rnd = m.rnd * 1664525u + 1013904223u; r = m.rnd >> 8; }
  if (r % 3 == 0) us((long)(r / 3) % m.maxDelayUs);
}
inline bool watched(const char* p) { return mon().on && p && strstr(p, mon().match.c_str()); }
inline bool& courier() { static thread_local bool c = false; return c; }
// last directory and file name
inline std::string base(const char* p) {
  const char* s = strrchr(p, '/');
  if (!s || (s == p + 1 && p[0] == '.')) return mon().dir + (s ? s + 1 : p);
  const char* q = s;
  while (q > p && q[-1] != '/') --q;
  return q;
}
inline void rec(double t0, char k, const std::string& p) {
  auto& m = mon();
  double t1 = now();
  std::lock_guard<std::mutex> g(m.m);
  m.ev.push_back({t0, t1, courier() ? (char)(k - 32) : k, p});
}
inline std::string pathOf(int fd) {
  auto& m = mon();
  if (!m.on) return "";
  std::lock_guard<std::mutex> g(m.m);
  auto it = m.fds.find(fd);
  return it == m.fds.end() ? "" : it->second;
}
inline void opened(double t0, int fd, const char* p, bool wr) {
  if (fd < 0) return;
  std::string b = base(p);
  { std::lock_guard<std::mutex> g(mon().m); mon().fds[fd] = b; }
  rec(t0, wr ? 'c' : 'o', b);
}
inline void start(const std::string& dir, const std::string& match, unsigned seed, int maxDelayUs, int sleepDiv) {
  auto& m = mon();
  std::lock_guard<std::mutex> g(m.m);
  m.dir = dir; m.match = match; m.rnd = seed; m.maxDelayUs = maxDelayUs; m.sleepDiv = sleepDiv; m.fds.clear(); m.ev.clear(); m.on = true;
}
inline std::vector<Ev> stop() {
  auto& m = mon();
  std::lock_guard<std::mutex> g(m.m);
  m.on = false;
  return std::move(m.ev);
}
}  // namespace iomon

extern "C" {
#define IOMON_OPEN(NAME)                                                     \
  __attribute__((visibility("default"))) int NAME(const char* p, int fl, ...) { \
    static auto f = iomon::real<int (*)(const char*, int, ...)>(#NAME);      \
    mode_t md = 0;                                                           \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); } \
    if (!iomon::watched(p)) return f(p, fl, md);                             \
    iomon::delay();                                                          \
    double t = iomon::now();                                                 \
    int r = f(p, fl, md);                                                    \
    iomon::opened(t, r, p, (fl & O_ACCMODE) != O_RDONLY);                    \
    return r;                                                                \
  }
IOMON_OPEN(open)
IOMON_OPEN(open64)
#define IOMON_FOPEN(NAME)                                                    \
  __attribute__((visibility("default"))) FILE* NAME(const char* p, const char* md) { \
    static auto f = iomon::real<FILE* (*)(const char*, const char*)>(#NAME); \
    if (!iomon::watched(p)) return f(p, md);                                 \
    iomon::delay();                                                          \
    double t = iomon::now();                                                 \
    FILE* r = f(p, md);                                                      \
    if (r) iomon::opened(t, fileno(r), p, md[0] != 'r');                     \
    return r;                                                                \
  }
IOMON_FOPEN(fopen)
IOMON_FOPEN(fopen64)
__attribute__((visibility("default"))) int close(int fd) {
  static auto f = iomon::real<int (*)(int)>("close");
  if (iomon::mon().on) { std::lock_guard<std::mutex> g(iomon::mon().m); iomon::mon().fds.erase(fd); }
  return f(fd);
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void* b, size_t n) {
  static auto f = iomon::real<ssize_t (*)(int, const void*, size_t)>("write");
  auto p = iomon::pathOf(fd);
  if (p.empty()) return f(fd, b, n);
  iomon::delay();
  double t = iomon::now();
  ssize_t r = f(fd, b, n);
  iomon::rec(t, 'w', p);
  return r;
}
__attribute__((visibility("default"))) ssize_t read(int fd, void* b, size_t n) {
  static auto f = iomon::real<ssize_t (*)(int, void*, size_t)>("read");
  auto p = iomon::pathOf(fd);
  if (p.empty()) return f(fd, b, n);
  iomon::delay();
  double t = iomon::now();
  ssize_t r = f(fd, b, n);
  iomon::rec(t, 'r', p);
  return r;
}
#define IOMON_PW(NAME)                                                        \
  __attribute__((visibility("default"))) ssize_t NAME(int fd, const void* b, size_t n, off_t o) { \
    static auto f = iomon::real<ssize_t (*)(int, const void*, size_t, off_t)>(#NAME); \
    auto p = iomon::pathOf(fd);                                               \
    if (p.empty()) return f(fd, b, n, o);                                     \
    iomon::delay();                                                           \
    double t = iomon::now();                                                  \
    ssize_t r = f(fd, b, n, o);                                               \
    iomon::rec(t, 'w', p);                                                    \
    return r;                                                                 \
  }
IOMON_PW(pwrite)
IOMON_PW(pwrite64)
#define IOMON_PR(NAME)                                                        \
  __attribute__((visibility("default"))) ssize_t NAME(int fd, void* b, size_t n, off_t o) { \
    static auto f = iomon::real<ssize_t (*)(int, void*, size_t, off_t)>(#NAME); \
    auto p = iomon::pathOf(fd);                                               \
    if (p.empty()) return f(fd, b, n, o);                                     \
    iomon::delay();                                                           \
    double t = iomon::now();                                                  \
    ssize_t r = f(fd, b, n, o);                                               \
    iomon::rec(t, 'r', p);                                                    \
    return r;                                                                 \
  }
IOMON_PR(pread)
IOMON_PR(pread64)
#define IOMON_RM(NAME)                                                        \
  __attribute__((visibility("default"))) int NAME(const char* p) {            \
    static auto f = iomon::real<int (*)(const char*)>(#NAME);                 \
    if (!iomon::watched(p)) return f(p);                                      \
    double t = iomon::now();                                                  \
    int r = f(p);                                                             \
    if (r == 0) iomon::rec(t, 'u', iomon::base(p));                           \
    return r;                                                                 \
  }
IOMON_RM(unlink)
IOMON_RM(remove)
__attribute__((visibility("default"))) int nanosleep(const timespec* a, timespec* b) {
  timespec t = *a;
  int d = iomon::mon().on ? iomon::mon().sleepDiv : 1;
  if (d > 1) {
    long n = (t.tv_sec * 1000000000L + t.tv_nsec) / d;
    t.tv_sec = n / 1000000000L;
    t.tv_nsec = n % 1000000000L;
  }
  if (b) { b->tv_sec = 0; b->tv_nsec = 0; }
  iomon::realSleep(&t);
  return 0;
}
__attribute__((visibility("default"))) int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
  static auto f = iomon::real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
  if (fl == 0 && iomon::mon().on && iomon::mon().sleepDiv > 1) { nanosleep(a, b); return 0; }
  return f(c, fl, a, b);
}
}
