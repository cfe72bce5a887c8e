// Common support for the monitoring harnesses: deterministic case generation, an event/verdict log
// per rank, and small serial reference helpers. Nothing here depends on the code under test.
#pragma once
#include <mpi.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

// further monitors of the program, called by all processes at the end of every case
extern "C" void vhCaseHook() __attribute__((weak));
extern "C" void vpGompCounts(unsigned long long*) __attribute__((weak));
namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [a,b]
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double sym() { return 2.0 * unit() - 1.0; }
  bool chance(double p) { return unit() < p; }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[(size_t)in(0, (int64_t)v.size() - 1)]; }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)in(0, (int64_t)i - 1)]);
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
  return r.next();
}
// deterministic pseudo random value in [-1,1], a function of (seed, index)
inline double hashVal(uint64_t seed, uint64_t idx) {
  uint64_t z = mix(seed, idx + 1);
  return 2.0 * ((double)(z >> 11) * (1.0 / 9007199254740992.0)) - 1.0;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

struct State {
  int rank = 0, size = 1;
  uint64_t seed = 1;
  int cases = 10, first = 0, only = -1;
  std::string suite, out = ".";
  FILE* log = nullptr;
  std::map<std::string, long long> counters;
  std::set<uint64_t> distinct;
  int fails = 0, samples = 0;
  std::string curDesc;
  int curCase = -1;
  std::map<std::string, std::string> opt;
};
inline State& st() { static State s; return s; }

inline void logLine(const std::string& l) {
  if (!st().log) return;
  fputs(l.c_str(), st().log);
  fputc('\n', st().log);
  fflush(st().log);
}

inline void init(int argc, char** argv) {
  auto& s = st();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--suite") s.suite = v;
    else if (k == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") s.cases = atoi(v.c_str());
    else if (k == "--first") s.first = atoi(v.c_str());
    else if (k == "--only") s.only = atoi(v.c_str());
    else if (k == "--out") s.out = v;
    else s.opt[k.substr(2)] = v;
  }
}
inline void openLog() {
  auto& s = st();
  int ini = 0, fin = 0;
  MPI_Initialized(&ini);
  MPI_Finalized(&fin);
  if (ini && !fin) {
    MPI_Comm_rank(MPI_COMM_WORLD, &s.rank);
    MPI_Comm_size(MPI_COMM_WORLD, &s.size);
  }
  std::string f = s.out + "/rank" + std::to_string(s.rank) + ".jsonl";
  s.log = fopen(f.c_str(), "a");
  logLine("{\"t\":\"start\",\"rank\":" + std::to_string(s.rank) + "}");
}
inline void caseBegin(int i, const std::string& desc) {
  st().curCase = i;
  st().curDesc = desc;
  logLine("{\"t\":\"case\",\"i\":" + std::to_string(i) + ",\"desc\":\"" + jesc(desc) + "\"}");
}
inline void caseEnd() { if (vhCaseHook) vhCaseHook(); logLine("{\"t\":\"end\",\"i\":" + std::to_string(st().curCase) + "}"); }
// record a violation. key: short class of the violation, stable across seeds
inline void fail(const std::string& key, const std::string& msg) {
  auto& s = st();
  if (++s.fails > 40) return;
  logLine("{\"t\":\"fail\",\"i\":" + std::to_string(s.curCase) + ",\"key\":\"" + jesc(key) +
          "\",\"desc\":\"" + jesc(s.curDesc) + "\",\"msg\":\"" + jesc(msg.substr(0, 800)) + "\"}");
}
inline void count(const std::string& n, long long k = 1) { st().counters[n] += k; }
inline void distinct(uint64_t sig) { st().distinct.insert(sig); }
inline uint64_t strSig(const std::string& x) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : x) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline void sample(const std::string& text) {
  if (++st().samples > 6) return;
  logLine("{\"t\":\"sample\",\"text\":\"" + jesc(text) + "\"}");
}
inline bool wanted(int i) { return st().only < 0 || st().only == i; }
inline void finish() {
  auto& s = st();
  std::ostringstream o;
  if (vpGompCounts) {
    unsigned long long c[5];
    vpGompCounts(c);
    const char* n[5] = {"parallel_regions", "loop_chunks", "loop_chunks_of_other_threads", "critical_sections", "barriers"};
    for (int i = 0; i < 5; ++i) s.counters[n[i]] += c[i];
  }
  o << "{\"t\":\"done\",\"rank\":" << s.rank << ",\"fails\":" << s.fails << ",\"counters\":{";
  bool f = true;
  for (auto& c : s.counters) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"distinct\":[";
  f = true;
  for (auto d : s.distinct) { o << (f ? "" : ",") << "\"" << std::hex << d << std::dec << "\""; f = false; }
  o << "]}";
  logLine(o.str());
  fclose(s.log);
  s.log = nullptr;
}

template <class V>
std::string vstr(const V& v) {
  std::ostringstream o;
  o << "[";
  bool f = true;
  for (auto const& x : v) { o << (f ? "" : ",") << +x; f = false; }
  o << "]";
  return o.str();
}
template <class T>
std::string tos(const T& x) {
  std::ostringstream o;
  o.precision(17);
  o << x;
  return o.str();
}
inline std::string tos(bool x) { return x ? "1" : "0"; }

// run one case; an escaping exception is a violation, and ends the whole run (other ranks may be
// inside a collective operation)
inline void guarded(const std::function<void()>& f) {
  try {
    f();
  } catch (const std::exception& e) {
    fail("exception", std::string("uncaught exception: ") + e.what());
    fclose(st().log);
    st().log = nullptr;
    MPI_Abort(MPI_COMM_WORLD, 77);
    _exit(77);
  }
}

// ---------------------------------------------------------------- small serial references
using IV = std::vector<int>;
inline double absd(double x) { return std::abs(x); }
template <class T>
double absd(const std::complex<T>& x) { return std::abs(std::complex<double>(x)); }

// number of points of a level in one dimension; boundary 0,1,2
inline int npts(int l, int b) { return (1 << l) - 1 + b; }
inline IV shape(const IV& l, const IV& b) {
  IV s(l.size());
  for (size_t d = 0; d < l.size(); ++d) s[d] = npts(l[d], b[d]);
  return s;
}
inline long total(const IV& s) { long t = 1; for (int x : s) t *= x; return t; }
// first index runs fastest
inline IV unlin(long i, const IV& s) {
  IV r(s.size());
  for (size_t d = 0; d < s.size(); ++d) { r[d] = (int)(i % s[d]); i /= s[d]; }
  return r;
}
inline long lin(const IV& v, const IV& s) {
  long r = 0, m = 1;
  for (size_t d = 0; d < s.size(); ++d) { r += v[d] * m; m *= s[d]; }
  return r;
}
// hierarchical subspace level (>=1) of 1d index i of a level-l grid with boundary b:
// interior point x = k/2^l has the smallest level at which it exists; the domain boundary belongs to level 1
inline int hlevel1(int i, int l, int b) {
  int k = b == 0 ? i + 1 : i;
  if (k == 0 || k == (1 << l)) return 1;
  int lev = l;
  while (k % 2 == 0) { k /= 2; --lev; }
  return lev;
}

enum Basis { HAT, HATP, FW, FWP, BIO, BIOP };
inline const char* basisName(int b) {
  static const char* n[] = {"hat", "hat_periodic", "fullweighting", "fullweighting_periodic", "biorthogonal", "biorthogonal_periodic"};
  return n[b];
}
// forward transform of one pole with nodes x_k = k/2^l, k=0..2^l, down to level lmin
template <class T>
void fwd1(std::vector<T>& y, int l, int lmin, int basis) {
  const int N = 1 << l;
  auto c = [](double v) { return (T)v; };
  for (int lev = l; lev > lmin; --lev) {
    const int w = 1 << (l - lev);
    std::vector<T> o(y);
    switch (basis) {
      case HAT: case HATP:
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] - c(.5) * (y[i - w] + y[i + w]);
        break;
      case FW: case FWP: {
        if (basis == FWP) {
          o[0] = c(.25) * (y[0] + y[N]) + c(.25) * (y[w] + y[N - w]);
          o[N] = o[0];
        } else {
          o[0] = c(.5) * (y[0] + y[w]);
          o[N] = c(.5) * (y[N] + y[N - w]);
        }
        for (int i = 2 * w; i < N; i += 2 * w) o[i] = c(.5) * y[i] + c(.25) * (y[i - w] + y[i + w]);
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] - c(.5) * (o[i - w] + o[i + w]);
        break;
      }
      default: {
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] - c(.5) * (y[i - w] + y[i + w]);
        if (basis == BIOP) {
          o[0] = c(.5) * (y[0] + y[N]) + c(.25) * (o[w] + o[N - w]);
          o[N] = o[0];
        } else {
          o[0] = y[0] + c(.5) * o[w];
          o[N] = y[N] + c(.5) * o[N - w];
        }
        for (int i = 2 * w; i < N; i += 2 * w) o[i] = y[i] + c(.25) * (o[i - w] + o[i + w]);
      }
    }
    y.swap(o);
  }
}
template <class T>
void inv1(std::vector<T>& y, int l, int lmin, int basis) {
  const int N = 1 << l;
  auto c = [](double v) { return (T)v; };
  for (int lev = lmin + 1; lev <= l; ++lev) {
    const int w = 1 << (l - lev);
    std::vector<T> o(y);
    switch (basis) {
      case HAT: case HATP:
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] + c(.5) * (y[i - w] + y[i + w]);
        break;
      case FW: case FWP: {
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] + c(.5) * (y[i - w] + y[i + w]);
        for (int i = 2 * w; i < N; i += 2 * w) o[i] = c(2) * y[i] - c(.5) * (o[i - w] + o[i + w]);
        if (basis == FWP) {
          o[0] = c(2) * y[0] - c(.5) * (o[w] + o[N - w]);
          o[N] = o[0];
        } else {
          o[0] = c(2) * y[0] - o[w];
          o[N] = c(2) * y[N] - o[N - w];
        }
        break;
      }
      default: {
        for (int i = 2 * w; i < N; i += 2 * w) o[i] = y[i] - c(.25) * (y[i - w] + y[i + w]);
        if (basis == BIOP) {
          o[0] = y[0] - c(.25) * (y[w] + y[N - w]);
          o[N] = o[0];
        } else {
          o[0] = y[0] - c(.5) * y[w];
          o[N] = y[N] - c(.5) * y[N - w];
        }
        for (int i = w; i < N; i += 2 * w) o[i] = y[i] + c(.5) * (o[i - w] + o[i + w]);
      }
    }
    y.swap(o);
  }
}
// apply the transform in all dimensions flagged in dims; v has shape(l,b)
template <class T>
void transform(std::vector<T>& v, const IV& l, const IV& b, const std::vector<bool>& dims,
               const std::vector<int>& basis, const IV& lmin, bool forward) {
  IV s = shape(l, b);
  long n = total(s);
  long stride = 1;
  for (size_t d = 0; d < l.size(); ++d) {
    if (dims[d] && lmin[d] < l[d]) {
      const int N = 1 << l[d];
      for (long i = 0; i < n; ++i) {
        if ((i / stride) % s[d] != 0) continue;
        std::vector<T> y((size_t)N + 1, T(0));
        const int off = b[d] == 0 ? 1 : 0;
        for (int k = 0; k < s[d]; ++k) y[(size_t)(k + off)] = v[(size_t)(i + k * stride)];
        if (b[d] == 1) y[(size_t)N] = y[0];
        forward ? fwd1(y, l[d], lmin[d], basis[d]) : inv1(y, l[d], lmin[d], basis[d]);
        for (int k = 0; k < s[d]; ++k) v[(size_t)(i + k * stride)] = y[(size_t)(k + off)];
      }
    }
    stride *= s[d];
  }
}
// multilinear interpolation of nodal values (zero outside for b==0, periodic for b==1)
template <class T>
T interp(const std::vector<T>& v, const IV& l, const IV& b, const std::vector<double>& x) {
  IV s = shape(l, b);
  size_t D = l.size();
  std::vector<int> k0(D);
  std::vector<double> w1(D);
  for (size_t d = 0; d < D; ++d) {
    double p = x[d] * (1 << l[d]);
    int k = (int)std::floor(p);
    if (k >= (1 << l[d])) k = (1 << l[d]) - 1;
    k0[d] = k;
    w1[d] = p - k;
  }
  T r(0);
  for (int m = 0; m < (1 << D); ++m) {
    double w = 1;
    IV idx(D);
    bool zero = false;
    for (size_t d = 0; d < D; ++d) {
      int up = (m >> d) & 1;
      int k = k0[d] + up;
      w *= up ? w1[d] : 1 - w1[d];
      if (b[d] == 0) { k -= 1; if (k < 0 || k >= s[d]) zero = true; }
      else if (b[d] == 1 && k == (1 << l[d])) k = 0;
      idx[d] = k;
    }
    if (!zero && w != 0) r += (T)w * v[(size_t)lin(idx, s)];
  }
  return r;
}
// all vectors 1..l
inline void boxDo(const IV& lo, const IV& hi, const std::function<void(const IV&)>& f) {
  IV c(lo);
  size_t D = lo.size();
  for (size_t d = 0; d < D; ++d) if (hi[d] < lo[d]) return;
  while (true) {
    f(c);
    size_t d = 0;
    while (d < D && c[d] == hi[d]) { c[d] = lo[d]; ++d; }
    if (d == D) break;
    ++c[d];
  }
}
// random factorization of a process grid: product <= maxP, with at most cap[d] in dimension d
inline IV randProcs(Rng& r, const IV& cap, int maxP) {
  IV p(cap.size(), 1);
  int prod = 1;
  for (int t = 0; t < 6; ++t) {
    size_t d = (size_t)r.in(0, (int64_t)p.size() - 1);
    int f = (int)r.pick(std::vector<int>{2, 2, 2, 3, 3, 4, 5});
    if (p[d] * f <= cap[d] && prod * f <= maxP) { p[d] *= f; prod *= f; }
  }
  return p;
}
// random 1d partition of n points into p non-empty intervals; returns lower bounds
inline IV randCuts(Rng& r, int n, int p) {
  IV all;
  for (int i = 1; i < n; ++i) all.push_back(i);
  r.shuffle(all);
  IV c(all.begin(), all.begin() + (p - 1));
  c.push_back(0);
  std::sort(c.begin(), c.end());
  return c;
}
}  // namespace vh
