// Replaces the C library's recv/send (and sleep) in the program it is linked into: every call may
// transfer fewer bytes than asked for and is delayed now and then, as a network may do.
// Configured by the environment (VP_FRAG=seed:mode) or by fragSet().
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>

static std::atomic<int> g_mode{-1};
static std::atomic<uint64_t> g_seed{0}, g_calls{0}, g_split{0}, g_state{0};
extern "C" void fragSet(uint64_t seed, int mode) { g_seed = seed; g_state = seed; g_mode = mode; }
extern "C" uint64_t fragSplits() { return g_split; }
extern "C" uint64_t fragCalls() { return g_calls; }

static uint64_t rnd() {
  uint64_t z = g_state.fetch_add(0x9e3779b97f4a7c15ull) + 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static int mode() {
  int m = g_mode;
  if (m < 0) {
    const char* e = getenv("VP_FRAG");
    m = 0;
    if (e) {
      char* q;
      g_seed = strtoull(e, &q, 10);
      g_state = g_seed.load();
      if (*q == ':') m = atoi(q + 1);
    }
    g_mode = m;
  }
  return m;
}
static size_t cut(size_t len) {
  ++g_calls;
  size_t n = len;
  switch (mode()) {
    case 0: return len;
    case 1: n = 1; break;
    case 2: n = 1 + rnd() % 16; break;
    case 3: { uint64_t k = rnd() % 4; n = k == 0 ? 1 + rnd() % 3 : k == 1 ? 1 + rnd() % 40 : k == 2 ? 1 + rnd() % 5000 : len; break; }
    default: n = 7 + rnd() % 3; break;
  }
  if (rnd() % 257 == 0) usleep((useconds_t)(rnd() % 300));
  if (n >= len) return len;
  ++g_split;
  return n;
}
extern "C" ssize_t recv(int fd, void* b, size_t len, int flags) {
  static auto f = (ssize_t(*)(int, void*, size_t, int))dlsym(RTLD_NEXT, "recv");
  return f(fd, b, (flags & (MSG_WAITALL | MSG_PEEK)) ? len : cut(len), flags);
}
extern "C" ssize_t send(int fd, const void* b, size_t len, int flags) {
  static auto f = (ssize_t(*)(int, const void*, size_t, int))dlsym(RTLD_NEXT, "send");
  return f(fd, b, cut(len), flags);
}
// the broker sleeps five seconds when its server ends, clients between attempts to connect
extern "C" __attribute__((weak)) unsigned sleep(unsigned) { usleep(2000); return 0; }
// closing a descriptor that is not open can hit one that another thread has just got
static std::atomic<uint64_t> g_badClose{0};
extern "C" uint64_t fragBadCloses() { return g_badClose; }
extern "C" __attribute__((weak)) int close(int fd) {
  static auto f = (int (*)(int))dlsym(RTLD_NEXT, "close");
  int r = f(fd);
  if (r != 0 && errno == EBADF && fd >= 0) ++g_badClose;
  return r;
}
