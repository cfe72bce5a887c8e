// A small OpenMP runtime whose synchronisation ThreadSanitizer understands. libgomp synchronises with futexes that
// the sanitizer does not see, so that every parallel region would look like a race. Here threads are created and joined
// for every region, barriers and critical sections are pthread objects (visible), and everything a correct program may
// not rely on as synchronisation (handing out loop chunks, starting together) is invisible: this file is compiled
// without instrumentation. Which thread gets which chunk and when it goes on is random (VP_GOMP=seed:permille).
// Compiled without -fopenmp.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <vector>

namespace {
using ull = unsigned long long;

struct Work {
  std::atomic<bool> ready{false};
  std::atomic<int> claimed{0};
  std::atomic<ull> next{0};  // iterations handed out, or next section
  ull total = 0, chunk = 1;
  bool guided = false, isUll = false, up = true;
  ull start = 0, incr = 1;
};

struct Team {
  int n = 1, level = 0, active = 0;
  pthread_barrier_t bar;
  std::atomic<Work*> work[1024] = {};
  Work& at(ull k) {
    if (k >= 1024) {
      fprintf(stderr, "mgomp: too many work sharing constructs in one region\n");
      abort();
    }
    Work* w = work[k].load(std::memory_order_acquire);
    if (!w) {
      Work* f = new Work;
      if (work[k].compare_exchange_strong(w, f)) w = f;
      else delete f;
    }
    return *w;
  }
  ~Team() {
    for (auto& w : work) {
      if (!w.load()) break;
      delete w.load();
    }
  }
  std::atomic<int> arrived{0};
  void* copyPrivate = nullptr;
};

struct Self {
  Team* team = nullptr;
  int num = 0;
  ull ws = 0;        // work sharing constructs met in this region
  Work* cur = nullptr;
  ull rng = 0;
  int teamNum = 0, numTeams = 1;
};
thread_local Self self;

int cfgThreads = -1, cfgPermille = 0;
ull cfgSeed = 1;
std::atomic<int> maxActiveLevels{1};
std::atomic<ull> regionCount{0}, threadCount{0}, chunkCount{0}, criticalCount{0}, barrierCount{0}, stolen{0};
std::atomic<int> userThreads{0};

void config() {
  if (cfgThreads >= 0) return;
  const char* t = getenv("OMP_NUM_THREADS");
  int n = t ? atoi(t) : 1;
  if (const char* g = getenv("VP_GOMP")) sscanf(g, "%llu:%d", &cfgSeed, &cfgPermille);
  if (const char* l = getenv("OMP_MAX_ACTIVE_LEVELS")) maxActiveLevels = atoi(l);
  cfgThreads = n < 1 ? 1 : n;
}

ull rnd() {
  ull& x = self.rng;
  if (!x) x = cfgSeed * 0x9E3779B97F4A7C15ull + (ull)getpid() * 7919 + threadCount.fetch_add(1, std::memory_order_relaxed) * 104729 + 1;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return x;
}

void jitter() {
  if (!cfgPermille) return;
  ull r = rnd();
  if ((int)(r % 1000) < cfgPermille) {
    if (r >> 40 & 3)
      sched_yield();
    else {
      struct timespec ts = {0, (long)((r >> 20) % 200) * 1000};
      nanosleep(&ts, nullptr);
    }
  }
}

Team* serialTeam() {
  thread_local Team t;
  return &t;
}

struct Start {
  void (*fn)(void*);
  void* data;
  Team* team;
  int num;
};

void runMember(const Start& s) {
  Self old = self;
  self = Self();
  self.team = s.team;
  self.num = s.num;
  self.rng = old.rng;
  self.teamNum = old.teamNum;
  self.numTeams = old.numTeams;
  if (s.team->n > 1) {  // start together
    s.team->arrived.fetch_add(1, std::memory_order_relaxed);
    for (int i = 0; s.team->arrived.load(std::memory_order_relaxed) < s.team->n && i < 2000; ++i) sched_yield();
    jitter();
  }
  s.fn(s.data);
  old.rng = self.rng;
  self = old;
}

void* threadMain(void* p) {
  runMember(*(Start*)p);
  return nullptr;
}

void waitTeam(Team* t) {
  if (!t || t->n <= 1) return;
  barrierCount.fetch_add(1, std::memory_order_relaxed);
  jitter();
  pthread_barrier_wait(&t->bar);
}

Work* enter() {
  Team* t = self.team ? self.team : serialTeam();
  ull k = self.ws++;
  Work* w = &t->at(t->n > 1 ? k : 0);
  self.cur = w;
  if (t->n <= 1) {
    w->ready = false;
    w->claimed = 0;
    w->next = 0;
  }
  return w;
}

// first thread sets the loop up
template <class F>
Work* openWork(F setup) {
  Work* w = enter();
  if (w->claimed.fetch_add(1, std::memory_order_relaxed) == 0) {
    setup(*w);
    w->ready.store(true, std::memory_order_release);
  } else
    while (!w->ready.load(std::memory_order_acquire)) sched_yield();
  return w;
}

bool grab(Work* w, ull& b, ull& e) {
  Team* t = self.team ? self.team : serialTeam();
  jitter();
  ull cur = w->next.load(std::memory_order_relaxed);
  for (;;) {
    if (cur >= w->total) return false;
    ull c = w->chunk;
    if (w->guided) {
      ull g = (w->total - cur + t->n - 1) / t->n;
      if (g > c) c = g;
    }
    if (c > w->total - cur) c = w->total - cur;
    if (w->next.compare_exchange_weak(cur, cur + c, std::memory_order_relaxed)) {
      b = cur;
      e = cur + c;
      chunkCount.fetch_add(1, std::memory_order_relaxed);
      if (self.num) stolen.fetch_add(1, std::memory_order_relaxed);
      return true;
    }
  }
}

bool nextL(long* is, long* ie) {
  Work* w = self.cur;
  ull b, e;
  if (!grab(w, b, e)) return false;
  *is = (long)(w->start + b * w->incr);
  *ie = (long)(w->start + e * w->incr);
  return true;
}

bool startL(long s, long e, long inc, long chunk, bool guided, long* is, long* ie) {
  openWork([&](Work& w) {
    w.total = inc > 0 ? (e > s ? ((ull)e - (ull)s + inc - 1) / inc : 0) : (s > e ? ((ull)s - (ull)e + (ull)(-inc) - 1) / (ull)(-inc) : 0);
    w.start = (ull)s;
    w.incr = (ull)inc;
    w.chunk = chunk > 0 ? chunk : 1;
    w.guided = guided;
  });
  return nextL(is, ie);
}

bool nextU(ull* is, ull* ie) {
  Work* w = self.cur;
  ull b, e;
  if (!grab(w, b, e)) return false;
  *is = w->start + b * w->incr;
  *ie = w->start + e * w->incr;
  return true;
}

bool startU(bool up, ull s, ull e, ull inc, ull chunk, bool guided, ull* is, ull* ie) {
  openWork([&](Work& w) {
    w.total = up ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e + (0 - inc) - 1) / (0 - inc) : 0);
    w.start = s;
    w.incr = inc;
    w.chunk = chunk > 0 ? chunk : 1;
    w.guided = guided;
  });
  return nextU(is, ie);
}

void parallel(void (*fn)(void*), void* data, unsigned want, const std::vector<long>* loop) {
  config();
  Team* up = self.team;
  int active = up ? up->active : 0;
  int n = want ? (int)want : (userThreads.load() ? userThreads.load() : cfgThreads);
  if (active >= maxActiveLevels.load()) n = 1;
  regionCount.fetch_add(1, std::memory_order_relaxed);
  Team* t = new Team;
  t->n = n;
  t->level = (up ? up->level : 0) + 1;
  t->active = active + (n > 1 ? 1 : 0);
  if (n > 1) pthread_barrier_init(&t->bar, nullptr, n);
  if (loop) {  // combined parallel loop: set up before the threads start
    Work& w = t->at(0);
    long s = (*loop)[0], e = (*loop)[1], inc = (*loop)[2];
    w.total = inc > 0 ? (e > s ? ((ull)e - (ull)s + inc - 1) / inc : 0) : (s > e ? ((ull)s - (ull)e + (ull)(-inc) - 1) / (ull)(-inc) : 0);
    w.start = (ull)s;
    w.incr = (ull)inc;
    w.chunk = (*loop)[3] > 0 ? (*loop)[3] : 1;
    w.guided = (*loop)[4];
    w.ready = true;
    w.claimed = 1;
  }
  std::vector<Start> st(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; ++i) st[i] = {fn, data, t, i};
  for (int i = 1; i < n; ++i)
    if (pthread_create(&th[i], nullptr, threadMain, &st[i])) {
      fprintf(stderr, "mgomp: pthread_create failed\n");
      abort();
    }
  runMember(st[0]);
  for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  if (n > 1) pthread_barrier_destroy(&t->bar);
  delete t;
}

// combined loops start with a call of ..._next
struct Combined {
  void (*fn)(void*);
  void* data;
};
void combinedEntry(void* p) {
  Combined* c = (Combined*)p;
  self.cur = &self.team->at(0);
  self.ws = 1;
  c->fn(c->data);
}
void parallelLoop(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long chunk, bool guided) {
  std::vector<long> l = {s, e, inc, chunk, guided};
  Combined c = {fn, data};
  parallel(combinedEntry, &c, n, &l);
}

pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER, atomicMutex = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t* named(void** p) {
  auto* a = (std::atomic<void*>*)p;
  void* m = a->load(std::memory_order_acquire);
  if (!m) {
    auto* f = new pthread_mutex_t(PTHREAD_MUTEX_INITIALIZER);
    if (a->compare_exchange_strong(m, f)) m = f;
  }
  return (pthread_mutex_t*)m;
}
}  // namespace

extern "C" {
void vpGompCounts(ull* out) {
  out[0] = regionCount;
  out[1] = chunkCount;
  out[2] = stolen;
  out[3] = criticalCount;
  out[4] = barrierCount;
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
#define PLOOP(name, guided)                                                                                            \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
    parallelLoop(fn, data, n, s, e, inc, chunk, guided);                                                               \
  }
PLOOP(static, false)
PLOOP(dynamic, false)
PLOOP(guided, true)
PLOOP(nonmonotonic_dynamic, false)
PLOOP(nonmonotonic_guided, true)
#define PLOOPR(name)                                                                                                   \
  void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned) {      \
    parallelLoop(fn, data, n, s, e, inc, 1, false);                                                                    \
  }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(name, guided)                                                                                             \
  bool GOMP_loop_##name##_start(long s, long e, long inc, long chunk, long* is, long* ie) { return startL(s, e, inc, chunk, guided, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return nextL(is, ie); }                                           \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull chunk, ull* is, ull* ie) { return startU(up, s, e, inc, chunk, guided, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return nextU(is, ie); }
LOOP(static, false)
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#define LOOPR(name)                                                                                                    \
  bool GOMP_loop_##name##_start(long s, long e, long inc, long* is, long* ie) { return startL(s, e, inc, 1, false, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return nextL(is, ie); }                                           \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull* is, ull* ie) { return startU(up, s, e, inc, 1, false, is, ie); } \
  bool GOMP_loop_ull_##name##_next(ull* is, ull* ie) { return nextU(is, ie); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { waitTeam(self.team); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() {
  waitTeam(self.team);
  return false;
}
void GOMP_barrier() { waitTeam(self.team); }
bool GOMP_single_start() {
  Work* w = enter();
  return w->claimed.fetch_add(1, std::memory_order_relaxed) == 0;
}
void* GOMP_single_copy_start() {
  if (GOMP_single_start()) return nullptr;
  waitTeam(self.team);
  void* p = self.team->copyPrivate;
  return p;
}
void GOMP_single_copy_end(void* d) {
  if (self.team) self.team->copyPrivate = d;
  waitTeam(self.team);
}
unsigned GOMP_sections_start(unsigned count) {
  openWork([&](Work& w) {
    w.total = count;
    w.chunk = 1;
    w.guided = false;
  });
  ull b, e;
  return grab(self.cur, b, e) ? (unsigned)b + 1 : 0;
}
unsigned GOMP_sections_next() {
  ull b, e;
  return grab(self.cur, b, e) ? (unsigned)b + 1 : 0;
}
void GOMP_sections_end() { waitTeam(self.team); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) {
  parallelLoop(fn, data, n, 0, count, 1, 1, false);
}
void GOMP_critical_start() {
  criticalCount.fetch_add(1, std::memory_order_relaxed);
  jitter();
  pthread_mutex_lock(&critical);
}
void GOMP_critical_end() {
  pthread_mutex_unlock(&critical);
  jitter();
}
void GOMP_critical_name_start(void** p) {
  criticalCount.fetch_add(1, std::memory_order_relaxed);
  jitter();
  pthread_mutex_lock(named(p));
}
void GOMP_critical_name_end(void** p) {
  pthread_mutex_unlock(named(p));
  jitter();
}
void GOMP_atomic_start() { pthread_mutex_lock(&atomicMutex); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomicMutex); }
void GOMP_teams_reg(void (*fn)(void*), void* data, unsigned num, unsigned, unsigned) {
  Self old = self;
  if (!num) num = 1;
  for (unsigned i = 0; i < num; ++i) {
    self.teamNum = i;
    self.numTeams = num;
    fn(data);
  }
  self.teamNum = old.teamNum;
  self.numTeams = old.numTeams;
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) {
    char* buf = (char*)malloc(size + align);
    char* a = (char*)(((size_t)buf + align - 1) & ~(size_t)(align - 1));
    cpy(a, data);
    fn(a);
    free(buf);
  } else
    fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return self.team ? self.num : 0; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_get_max_threads() {
  config();
  return userThreads.load() ? userThreads.load() : cfgThreads;
}
void omp_set_num_threads(int n) { userThreads = n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self.team && self.team->active > 0; }
int omp_get_level() { return self.team ? self.team->level : 0; }
int omp_get_active_level() { return self.team ? self.team->active : 0; }
int omp_get_max_active_levels() {
  config();
  return maxActiveLevels;
}
void omp_set_max_active_levels(int n) {
  config();
  maxActiveLevels = n;
}
void omp_set_nested(int n) { maxActiveLevels = n ? 8 : 1; }
int omp_get_nested() { return maxActiveLevels > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_get_thread_limit() { return 256; }
int omp_get_num_teams() { return self.numTeams; }
int omp_get_team_num() { return self.teamNum; }
double omp_get_wtime() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }
// locks of omp.h are 4 bytes: an index into a table
static pthread_mutex_t lockTable[4096];
static std::atomic<int> lockCount{0};
void omp_init_lock(int* l) {
  *l = lockCount.fetch_add(1) % 4096;
  pthread_mutex_init(&lockTable[*l], nullptr);
}
void omp_destroy_lock(int* l) { pthread_mutex_destroy(&lockTable[*l]); }
void omp_set_lock(int* l) {
  jitter();
  pthread_mutex_lock(&lockTable[*l]);
}
void omp_unset_lock(int* l) { pthread_mutex_unlock(&lockTable[*l]); }
int omp_test_lock(int* l) { return pthread_mutex_trylock(&lockTable[*l]) == 0; }
}
