// C05 schemes, C06 work distribution, C12 rescheduling decisions, C13 fault recovery optimisation, C21 load models
#include <algorithm>
#include <chrono>
#include <fstream>
#include <map>
#include <numeric>
#include <set>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "fault_tolerance/FTUtils.hpp"
#include "fault_tolerance/LPOptimizationInterpolation.hpp"
#include "fault_tolerance/StaticFaults.hpp"
#include "loadmodel/AnisotropyLoadModel.hpp"
#include "loadmodel/AverageOfLastNLoadModel.hpp"
#include "loadmodel/AveragingLoadModel.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "mpi/MPISystem.hpp"
#include "rescheduler/RebalancingTaskRescheduler.hpp"
#include "rescheduler/StaticTaskRescheduler.hpp"
#include "utils/LevelSetUtils.hpp"
#include "vh.hpp"

using namespace combigrid;
using vh::Rng;
typedef std::vector<int> IV;

#define CHK(cond, key, msg) \
  ([&]() -> bool { vh::count("checks"); if (cond) return true; std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); return false; }())

struct SC {
  int dim = 1;
  LevelVector lmin, lmax;
  bool classical = false, ft = false;
  std::string desc;
};

static SC genScheme(Rng& r, int maxDim, long maxBox, bool uniformOnly, int maxDiff) {
  SC c;
  while (true) {
    c.dim = (int)r.in(1, maxDim);
    c.lmin.assign(c.dim, 1);
    c.lmax.assign(c.dim, 1);
    bool uni = uniformOnly || r.chance(0.5);
    int diff = (int)r.in(0, maxDiff);
    for (int d = 0; d < c.dim; ++d) {
      c.lmin[d] = (LevelType)r.in(1, 4);
      int k = uni ? diff : (int)r.in(0, maxDiff);
      if (r.chance(0.15)) k = 0;  // dummy dimension
      c.lmax[d] = c.lmin[d] + k;
    }
    double box = 1;
    for (int d = 0; d < c.dim; ++d) box *= c.lmax[d];
    if (box <= (double)maxBox) break;
  }
  c.classical = r.chance(0.5);
  c.ft = r.chance(0.4);
  std::ostringstream o;
  o << (c.classical ? "classical" : "adaptive") << (c.ft ? "+ft" : "") << " lmin=" << vh::vstr(c.lmin) << " lmax=" << vh::vstr(c.lmax);
  c.desc = o.str();
  return c;
}

static void box(const LevelVector& lo, const LevelVector& hi, const std::function<void(const LevelVector&)>& f) {
  LevelVector l = lo;
  while (true) {
    f(l);
    int d = (int)l.size() - 1;
    for (; d >= 0; --d) {
      if (l[d] < hi[d]) { ++l[d]; break; }
      l[d] = lo[d];
    }
    if (d < 0) return;
  }
}

// the sparse grid set: l <= lmax, sum of max(l - lmin, 0) <= budget
static std::set<LevelVector> sgSet(const LevelVector& lmin, const LevelVector& lmax, int budget) {
  std::set<LevelVector> s;
  box(LevelVector(lmin.size(), 1), lmax, [&](const LevelVector& l) {
    int x = 0;
    for (size_t d = 0; d < l.size(); ++d) x += std::max<int>(l[d] - lmin[d], 0);
    if (x <= budget) s.insert(l);
  });
  return s;
}
static std::map<LevelVector, double> inclExcl(const std::set<LevelVector>& s) {
  std::map<LevelVector, double> c;
  for (auto& l : s) {
    double v = 0;
    size_t d = l.size();
    for (size_t m = 0; m < (1u << d); ++m) {
      LevelVector k = l;
      int bits = 0;
      for (size_t i = 0; i < d; ++i)
        if (m >> i & 1) { ++k[i]; ++bits; }
      if (s.count(k)) v += bits % 2 ? -1. : 1.;
    }
    if (v != 0) c[l] = v;
  }
  return c;
}
static std::set<LevelVector> asSet(const std::vector<LevelVector>& v, const char* what) {
  std::set<LevelVector> s(v.begin(), v.end());
  CHK(s.size() == v.size(), std::string(what) + ".duplicates", what << " returned " << v.size() << " levels, " << s.size() << " distinct");
  return s;
}
// effective sparse grid the scheme is documented to span
static std::set<LevelVector> target(const SC& c) {
  LevelVector lmin = c.lmin;
  int mn = 1 << 20, mx = 0;
  for (int d = 0; d < c.dim; ++d) {
    int k = c.lmax[d] - c.lmin[d];
    if (k > 0) mn = std::min(mn, k);
    mx = std::max(mx, k);
  }
  if (mx == 0) mn = 0;
  if (!c.classical) return sgSet(lmin, c.lmax, mx);
  // the classical scheme uses the smallest (non-zero) level difference everywhere, keeping lmax
  for (int d = 0; d < c.dim; ++d)
    if (c.lmax[d] > c.lmin[d]) lmin[d] = c.lmax[d] - mn;
  return sgSet(lmin, c.lmax, mn);
}

static void checkSpan(const std::vector<LevelVector>& grids, const std::vector<double>& coeffs, const std::set<LevelVector>& S,
                      const std::string& key) {
  // sum of the coefficients of the grids containing each subspace
  std::map<LevelVector, double> w;
  for (size_t i = 0; i < grids.size(); ++i) {
    if (coeffs[i] == 0) continue;
    box(LevelVector(grids[i].size(), 1), grids[i], [&](const LevelVector& l) { w[l] += coeffs[i]; });
  }
  long bad = 0;
  LevelVector ex;
  double got = 0;
  for (auto& l : S) {
    auto it = w.find(l);
    double v = it == w.end() ? 0 : it->second;
    if (std::abs(v - 1) > 1e-9) { ++bad; ex = l; got = v; }
  }
  CHK(bad == 0, key + ".sum", bad << " subspaces do not add up to one, e.g. " << vh::vstr(ex) << ": " << got);
  bad = 0;
  for (auto& kv : w)
    if (!S.count(kv.first)) { ++bad; ex = kv.first; }
  CHK(bad == 0, key + ".outside", bad << " subspaces outside the sparse grid, e.g. " << vh::vstr(ex));
  vh::count("subspaces_checked", (long)S.size());
}

static void schemeCase(Rng& r, const SC& c) {
  CombiMinMaxScheme sch((DimType)c.dim, c.lmin, c.lmax);
  if (c.classical) sch.createClassicalCombischeme();
  else sch.createAdaptiveCombischeme();
  auto S = target(c);
  auto ref = inclExcl(S);
  std::vector<LevelVector> grids0 = sch.getCombiSpaces();
  std::vector<double> coeffs0 = sch.getCoeffs();
  if (c.ft) sch.makeFaultTolerant();
  std::vector<LevelVector> grids = sch.getCombiSpaces();
  std::vector<double> coeffs = sch.getCoeffs();
  if (!CHK(grids.size() == coeffs.size(), "scheme.lengths", grids.size() << " grids, " << coeffs.size() << " coefficients")) return;
  auto gs = asSet(grids, "scheme");
  std::map<LevelVector, double> got;
  for (size_t i = 0; i < grids.size(); ++i)
    if (coeffs[i] != 0) got[grids[i]] = coeffs[i];
  long bad = 0;
  for (auto& kv : ref)
    if (!got.count(kv.first) || std::abs(got[kv.first] - kv.second) > 1e-12) ++bad;
  CHK(bad == 0 && got.size() == ref.size(), "scheme.coefficients", bad << " of " << ref.size() << " expected coefficients differ, got " << got.size());
  for (size_t i = 0; i < grids.size(); ++i)
    if (!CHK(S.count(grids[i]) == 1, "scheme.outside", "grid " << vh::vstr(grids[i]) << " is outside the sparse grid")) break;
  checkSpan(grids, coeffs, S, "scheme");
  if (c.ft) {
    bool same = grids.size() >= grids0.size() && std::equal(grids0.begin(), grids0.end(), grids.begin()) && std::equal(coeffs0.begin(), coeffs0.end(), coeffs.begin());
    CHK(same, "scheme.ft", "adding fault tolerance changed existing grids");
    for (size_t i = grids0.size(); i < grids.size(); ++i) CHK(coeffs[i] == 0, "scheme.ftcoeff", "extra grid with coefficient " << coeffs[i]);
    vh::count("ft_grids", (long)(grids.size() - grids0.size()));
  }
  auto ds = asSet(sch.getDownSet(), "downset");
  CHK(ds == S, "scheme.downset", "down set has " << ds.size() << " levels, expected " << S.size());
  // from the grids alone
  CombiMinMaxScheme again(grids, coeffs);
  again.createDownSet();
  auto ds2 = asSet(again.getDownSet(), "downset2");
  CHK(ds2 == S, "scheme.downsetFromGrids", "down set has " << ds2.size() << " levels, expected " << S.size());
  // level set utilities
  const LevelVector& g = grids[(size_t)r.in(0, (long)grids.size() - 1)];
  std::set<LevelVector> gb;
  box(LevelVector(g.size(), 1), g, [&](const LevelVector& l) { gb.insert(l); });
  auto gd = asSet(combigrid::getDownSet(g), "getDownSet");
  CHK(gd == gb, "levels.getDownSet", "of " << vh::vstr(g) << ": " << gd.size() << " expected " << gb.size());
  HypercubeDownSetGenerator gen(g);
  long n = gen.getTotalNumberOfLevels();
  CHK(n == (long)gb.size(), "levels.generatorCount", n << " expected " << gb.size());
  std::vector<LevelVector> seen;
  for (long i = 0; i < (long)gb.size(); ++i) seen.push_back(gen.getNextLevel());
  CHK(asSet(seen, "generator") == gb, "levels.generator", "generator does not visit exactly the down set of " << vh::vstr(g));
  int mn = 1 << 20;
  for (int d = 0; d < c.dim; ++d) mn = std::min<int>(mn, c.lmax[d] - c.lmin[d]);
  LevelVector rl = c.lmax;
  for (auto& x : rl) x -= mn;
  std::vector<LevelVector> created;
  createTruncatedHierarchicalLevels(c.lmax, c.lmin, created);
  CHK(asSet(created, "truncated") == sgSet(rl, c.lmax, mn), "levels.truncated", created.size() << " levels, expected " << sgSet(rl, c.lmax, mn).size());
  // degrees of freedom
  std::vector<BoundaryType> b(c.dim);
  for (auto& x : b) x = (BoundaryType)r.in(0, 2);
  long long dof = 0, sgdof = 0, sgb = 0;
  for (auto& x : grids) {
    long long p = 1;
    for (int d = 0; d < c.dim; ++d) p *= (1ll << x[d]) - 1 + b[d];
    dof += p;
    CHK(getCombiDegreesOfFreedom(x, b) == p, "dof.grid", getCombiDegreesOfFreedom(x, b) << " expected " << p);
    if (p < (1ll << 30)) CHK(getNumDofNodal(x, b) == p, "dof.nodal", getNumDofNodal(x, b) << " expected " << p);
  }
  CHK(printCombiDegreesOfFreedom(grids, b) == dof, "dof.combi", "");
  for (auto& x : S) {
    long long p = 1, q = 1;
    for (int d = 0; d < c.dim; ++d) {
      p *= x[d] == 1 ? 3 : 1ll << (x[d] - 1);
      q *= x[d] == 1 ? 1 + b[d] : 1ll << (x[d] - 1);
    }
    sgdof += p;
    sgb += q;
  }
  CHK(getSGDegreesOfFreedomFromDownSet(sch.getDownSet()) == sgdof, "dof.sg", "");
  if (sgb < (1ll << 30)) CHK(getNumDofHierarchical(sch.getDownSet(), b) == sgb, "dof.hier", "");
  if (!c.classical) CHK(printSGDegreesOfFreedomAdaptive(c.lmin, c.lmax) == sgdof, "dof.sgadaptive", "");
  // splitting between systems
  int ns = (int)r.in(1, 5);
  std::vector<real> frac(ns);
  double tot = 0;
  for (auto& f : frac) { f = r.chance(0.1) ? 0. : r.unit() + 1e-3; tot += f; }
  if (tot == 0) { frac[0] = 1; tot = 1; }
  for (auto& f : frac) f /= tot;
  if (r.chance(0.3)) for (auto& f : frac) f = 1. / ns;
  std::vector<LevelVector> all;
  std::vector<double> allC;
  std::vector<size_t> parts;
  double cum = 0;
  for (int s = 0; s < ns; ++s) {
    std::vector<LevelVector> l;
    std::vector<real> k;
    if (r.chance(0.3)) { l.push_back(LevelVector(c.dim, 99)); k.push_back(7.); }  // outputs are overwritten
    if (ns == 2 && r.chance(0.3)) { frac = {0.5, 0.5}; }
    CombiThirdLevelScheme::createThirdLevelScheme(grids, coeffs, (unsigned)s, (unsigned)ns, l, k, frac);
    CHK(l.size() == k.size(), "split.lengths", "");
    all.insert(all.end(), l.begin(), l.end());
    allC.insert(allC.end(), k.begin(), k.end());
    parts.push_back(l.size());
    cum += frac[s];
  }
  if (ns != 2) {
    double e = 0;
    size_t acc = 0;
    for (int s = 0; s < ns; ++s) {
      e += frac[s];
      acc += parts[s];
      CHK(std::abs((double)acc - e * (double)grids.size()) <= 1.0 + 1e-6, "split.fraction", "systems 0.." << s << " have " << acc << " of " << grids.size() << " grids for fraction " << e);
    }
  }
  if (ns == 2) return;
  std::map<LevelVector, double> merged;
  for (size_t i = 0; i < all.size() && i < allC.size(); ++i) merged[all[i]] = allC[i];
  std::map<LevelVector, double> orig;
  for (size_t i = 0; i < grids.size(); ++i) orig[grids[i]] = coeffs[i];
  CHK(all.size() == grids.size() && merged == orig, "split.partition", "split over " << ns << " systems has " << all.size() << " grids of " << grids.size());
}

// splitting between two systems, separately so that the fractions stay the same for both calls
static void splitCase(Rng& r, const SC& c) {
  CombiMinMaxScheme sch((DimType)c.dim, c.lmin, c.lmax);
  sch.createAdaptiveCombischeme();
  auto& grids = sch.getCombiSpaces();
  auto& coeffs = sch.getCoeffs();
  bool dflt = r.chance(0.4);
  double f = r.unit();
  std::map<LevelVector, double> merged, orig;
  size_t n = 0;
  std::vector<LevelVector> half;
  std::vector<double> halfC;
  for (unsigned s = 0; s < 2; ++s) {
    std::vector<LevelVector> l;
    std::vector<real> k;
    if (dflt) CombiThirdLevelScheme::createThirdLevelScheme(grids, coeffs, s, 2, l, k);
    else CombiThirdLevelScheme::createThirdLevelScheme(grids, coeffs, s, 2, l, k, {f, 1. - f});
    CHK(l.size() == k.size(), "split.lengths", "");
    n += l.size();
    for (size_t i = 0; i < l.size(); ++i) merged[l[i]] = k[i];
    if (s == 0) { half = l; halfC = k; }
    double e = (s == 0 ? (dflt ? 0.5 : f) : 1.) * (double)grids.size();
    CHK(std::abs((double)n - e) <= 1. + 1e-6, "split.fraction", n << " grids on systems 0.." << s << ", expected " << e);
  }
  for (size_t i = 0; i < grids.size(); ++i) orig[grids[i]] = coeffs[i];
  CHK(n == grids.size() && merged == orig, "split.partition", n << " of " << grids.size() << " grids on two systems");
  vh::count("splits");
  if (half.empty()) return;
  // the conjoint set: downward closure of the subspaces that occur fewer than dim times in the downward poles of the front
  CombiMinMaxScheme part(half, halfC);
  std::map<LevelVector, int> cnt;
  for (size_t i = 0; i < half.size(); ++i) {
    if (halfC[i] != 1.) continue;
    for (int d = 0; d < c.dim; ++d)
      for (LevelType j = c.lmin[d]; j < half[i][d]; ++j) {
        LevelVector x = half[i];
        x[d] = j;
        ++cnt[x];
      }
  }
  std::set<LevelVector> want;
  for (auto& kv : cnt)
    if (kv.second < c.dim) box(LevelVector(c.dim, 1), kv.first, [&](const LevelVector& l) { want.insert(l); });
  auto got = asSet(getConjointSet(part, c.lmin), "conjoint");
  CHK(got == want, "conjoint.set", got.size() << " levels, expected " << want.size());
  long long d = 0;
  for (auto& x : want) {
    long long p = 1;
    for (auto l : x) p *= l == 1 ? 3 : 1ll << (l - 1);
    d += p;
  }
  CHK(getNumDOFSGConjoint(part, c.lmin) == d, "conjoint.dof", getNumDOFSGConjoint(part, c.lmin) << " expected " << d);
}

static std::string writeScheme(Rng& r, const std::vector<LevelVector>& g, const std::vector<double>& c, const std::vector<int>* grp, const std::string& f) {
  int style = (int)r.in(0, 3);
  if (vh::st().rank == 0) {
    std::ofstream o(f);
    o.precision(17);
    const char* nl = style & 1 ? "\n" : " ";
    o << "[" << nl;
    for (size_t i = 0; i < g.size(); ++i) {
      std::ostringstream lv;
      lv << "\"level\": [";
      for (size_t d = 0; d < g[i].size(); ++d) lv << (d ? ", " : "") << g[i][d];
      lv << "]";
      o << "{" << nl;
      if (style & 2) o << lv.str() << "," << nl;
      o << "\"coeff\": " << c[i];
      if (!(style & 2)) o << "," << nl << lv.str();
      if (grp) o << "," << nl << "\"group_no\": " << (*grp)[i];
      o << nl << "}" << (i + 1 < g.size() ? "," : "") << nl;
    }
    o << "]" << nl;
  }
  MPI_Barrier(MPI_COMM_WORLD);
  return f;
}

static uint64_t sigOf(const std::vector<LevelVector>& l, const std::vector<double>& c, const std::vector<size_t>& id) {
  uint64_t h = 1469598103934665603ull;
  for (auto& x : l) for (auto y : x) h = vh::mix(h, (uint64_t)y);
  for (auto x : c) { uint64_t u; memcpy(&u, &x, 8); h = vh::mix(h, u); }
  for (auto x : id) h = vh::mix(h, x + 3);
  return h;
}
static void sameEverywhere(uint64_t h, const char* key) {
  uint64_t a, b;
  MPI_Allreduce(&h, &a, 1, MPI_UINT64_T, MPI_MIN, MPI_COMM_WORLD);
  MPI_Allreduce(&h, &b, 1, MPI_UINT64_T, MPI_MAX, MPI_COMM_WORLD);
  CHK(a == b, key, "processes got different results");
}

static void fileCase(Rng& r, const SC& c) {
  CombiMinMaxScheme sch((DimType)c.dim, c.lmin, c.lmax);
  sch.createAdaptiveCombischeme();
  auto g = sch.getCombiSpaces();
  auto co = sch.getCoeffs();
  if (r.chance(0.4)) for (auto& x : co) x = vh::hashVal(r.next(), 1) * (r.chance(0.5) ? 1. : 1e-3);
  if (r.chance(0.3)) {  // any order
    std::vector<size_t> p(g.size());
    std::iota(p.begin(), p.end(), 0);
    r.shuffle(p);
    auto g2 = g;
    auto c2 = co;
    for (size_t i = 0; i < p.size(); ++i) { g2[i] = g[p[i]]; c2[i] = co[p[i]]; }
    g = g2;
    co = c2;
  }
  int ngroup = (int)r.in(1, std::min<long>(6, (long)g.size()));
  std::vector<int> grp(g.size());
  for (size_t i = 0; i < grp.size(); ++i) grp[i] = i < (size_t)ngroup ? (int)i : (int)r.in(0, ngroup - 1);
  r.shuffle(grp);
  bool withGroup = r.chance(0.8);
  std::string f = writeScheme(r, g, co, withGroup ? &grp : nullptr, "scheme_" + std::to_string(vh::st().curCase) + ".json");
  CombiMinMaxSchemeFromFile fs((DimType)c.dim, c.lmin, c.lmax, f, MPI_COMM_WORLD);
  CHK(fs.getCombiSpaces() == g, "file.levels", "levels read differ from those written");
  CHK(fs.getCoeffs() == co, "file.coefficients", "coefficients read differ from those written");
  if (withGroup) {
    CHK(std::vector<int>(fs.getProcessGroupNumbers().begin(), fs.getProcessGroupNumbers().end()) == grp, "file.groups", "group numbers read differ");
    std::map<size_t, int> owner;
    for (int k = 0; k < ngroup; ++k) {
      std::vector<LevelVector> l;
      std::vector<real> q;
      std::vector<size_t> id;
      size_t n = getAssignedLevels(fs, k, l, q, id);
      CHK(n == g.size(), "assign.total", n << " expected " << g.size());
      CHK(l.size() == q.size() && l.size() == id.size(), "assign.lengths", "");
      for (size_t i = 0; i < id.size() && i < l.size(); ++i) {
        bool ok = id[i] < g.size() && g[id[i]] == l[i] && co[id[i]] == q[i] && grp[id[i]] == k;
        if (!CHK(ok, "assign.file", "group " << k << " got task " << id[i])) break;
        if (!CHK(owner.emplace(id[i], k).second, "assign.twice", "task " << id[i] << " assigned twice")) break;
      }
    }
    CHK(owner.size() == g.size(), "assign.all", owner.size() << " of " << g.size() << " tasks assigned");
  } else
    CHK(fs.getProcessGroupNumbers().empty(), "file.groups", "group numbers appeared");
  sameEverywhere(sigOf(fs.getCombiSpaces(), fs.getCoeffs(), {}), "file.agree");
  MPI_Barrier(MPI_COMM_WORLD);
  if (vh::st().rank == 0) remove(f.c_str());
  vh::count("files");
}

static void assignCase(Rng& r, const SC& c) {
  CombiMinMaxScheme full((DimType)c.dim, c.lmin, c.lmax);
  full.createAdaptiveCombischeme();
  auto g = full.getCombiSpaces();
  auto co = full.getCoeffs();
  if (r.chance(0.3))
    for (size_t i = 0; i < g.size(); ++i) co[i] = vh::hashVal(7, i);
  CombiMinMaxScheme sch(g, co);
  int ngroup = (int)(r.chance(0.1) ? (long)g.size() : r.in(1, std::min<long>(r.chance(0.3) ? 64 : 8, (long)g.size())));
  std::vector<BoundaryType> b(c.dim);
  for (auto& x : b) x = (BoundaryType)r.in(0, 2);
  for (int method = 0; method < 2; ++method) {
    const char* mn = method ? "balanced" : "roundrobin";
    std::map<size_t, int> owner;
    std::vector<double> load(ngroup, 0), smallest(ngroup, 1e300);
    std::vector<size_t> number(ngroup, 0);
    uint64_t h = 17;
    for (int k = 0; k < ngroup; ++k) {
      std::vector<LevelVector> l;
      std::vector<real> q;
      std::vector<size_t> id;
      size_t n = method ? getLoadBalancedLevels(sch, k, (size_t)ngroup, b, l, q, id) : getRoundRobinLevels(sch, k, (size_t)ngroup, l, q, id);
      CHK(n == g.size(), std::string(mn) + ".total", n << " expected " << g.size());
      if (!CHK(l.size() == q.size() && l.size() == id.size(), std::string(mn) + ".lengths", "")) return;
      number[k] = l.size();
      for (size_t i = 0; i < id.size(); ++i) {
        bool ok = id[i] < g.size() && g[id[i]] == l[i] && co[id[i]] == q[i];
        if (!CHK(ok, std::string(mn) + ".task", "group " << k << " got task " << id[i] << " with wrong level or coefficient")) return;
        CHK(owner.emplace(id[i], k).second, std::string(mn) + ".twice", "task " << id[i] << " assigned twice");
        double p = 1;
        for (int d = 0; d < c.dim; ++d) p *= std::ldexp(1., l[i][d]) - 1 + b[d];
        load[k] += p;
        smallest[k] = std::min(smallest[k], p);
      }
      h = vh::mix(h, sigOf(l, q, id));
    }
    CHK(owner.size() == g.size(), std::string(mn) + ".all", owner.size() << " of " << g.size() << " tasks assigned");
    sameEverywhere(h, "assign.agree");
    if (method == 0) {
      auto mm = std::minmax_element(number.begin(), number.end());
      CHK(*mm.second - *mm.first <= 1, "roundrobin.balance", "groups have between " << *mm.first << " and " << *mm.second << " tasks");
    } else {
      size_t mx = (size_t)(std::max_element(load.begin(), load.end()) - load.begin());
      double mnl = *std::min_element(load.begin(), load.end());
      // largest first, always to the least loaded group: no group exceeds another by more than its smallest task
      CHK(load[mx] - mnl <= smallest[mx] * (1 + 1e-12), "balanced.balance", "loads between " << mnl << " and " << load[mx] << ", smallest task of the fullest group " << smallest[mx]);
    }
    vh::count(std::string("distributions_") + mn);
  }
}

// ---------------------------------------------------------------------------------------- load models
static void loadCase(Rng& r, const SC& c) {
  LinearLoadModel lin;
  std::vector<LevelVector> levels;
  {
    std::set<LevelVector> s;
    int n = (int)r.in(1, 6);
    for (int i = 0; i < n; ++i) {
      LevelVector l(c.dim);
      for (auto& x : l) x = (LevelType)r.in(1, 9);
      s.insert(l);
    }
    levels.assign(s.begin(), s.end());
  }
  auto linRef = [](const LevelVector& l) {
    int s = 0;
    for (auto x : l) s += x;
    return std::ldexp(1., s);
  };
  for (auto& l : levels) CHK(lin.eval(l) == linRef(l), "load.linear", lin.eval(l) << " expected " << linRef(l) << " for " << vh::vstr(l));
  int mag = (int)r.in(0, 3);
  auto dur = [&]() -> unsigned long {
    switch (mag) {
      case 0: return (unsigned long)r.in(0, 10);
      case 1: return (unsigned long)r.in(0, 5000000);
      case 2: return (unsigned long)r.in(1000000000l, 9000000000l);  // up to hours
      default: return (unsigned long)r.in(0, r.chance(0.5) ? 100 : 100000000000l);
    }
  };
  auto info = [&](unsigned long d) {
    DurationInformation i;
    i.task_id = 0;
    i.duration = d;
    i.simtime_now = r.unit();
    i.real_dt = r.unit();
    i.pgroup_id = (int)r.in(0, 7);
    i.nProcesses = 4;
    return i;
  };
  {
    unsigned n = (unsigned)r.in(1, 6);
    AverageOfLastNLoadModel m(n, levels, std::unique_ptr<LoadModel>(new LinearLoadModel()));
    std::map<LevelVector, std::vector<unsigned long>> hist;
    int ops = (int)r.in(1, 60);
    for (int k = 0; k < ops; ++k) {
      const LevelVector& l = levels[(size_t)r.in(0, (long)levels.size() - 1)];
      if (r.chance(0.6)) {
        unsigned long d = dur();
        m.addDurationInformation(info(d), l);
        hist[l].push_back(d);
      } else {
        double got = m.eval(l), want;
        auto& h = hist[l];
        if (h.empty()) want = linRef(l);
        else {
          size_t cnt = std::min<size_t>(n, h.size());
          long double s = 0;
          for (size_t i = h.size() - cnt; i < h.size(); ++i) s += h[i];
          want = (double)(s / cnt);
          double us = (double)m.evalSpecificUOT(l).count();
          CHK(std::abs(us - want) <= 1. + 1e-9 * want, "load.lastNmicro", us << " expected " << want << " (last " << n << " of " << h.size() << ")");
        }
        CHK(std::isfinite(got) && got >= 0 && std::abs(got - want) <= 1. + 1e-9 * want, "load.lastN", got << " expected " << want << " (last " << n << " of " << h.size() << " records)");
        vh::count("load_queries");
      }
    }
  }
  {  // averaging model, several program runs sharing the files in the working directory
    std::map<LevelVector, std::vector<unsigned long>> onDisk;
    int runs = (int)r.in(1, 4);
    bool preCreated = r.chance(0.2);
    if (preCreated) {  // a file from elsewhere
      std::ofstream o("l_" + toString(levels[0]) + ".durations");
      int n = (int)r.in(1, 5);
      for (int i = 0; i < n; ++i) { unsigned long d = dur(); o << d << " 0.1 0.2 3 \n"; onDisk[levels[0]].push_back(d); }
    }
    for (int run = 0; run < runs; ++run) {
      std::map<LevelVector, std::vector<unsigned long>> mem;
      auto before = onDisk;
      {
        AveragingLoadModel m(levels);
        int ops = (int)r.in(0, run == 0 || r.chance(0.5) ? 40 : 260);
        for (int k = 0; k < ops; ++k) {
          const LevelVector& l = ops > 100 ? levels[0] : levels[(size_t)r.in(0, (long)levels.size() - 1)];
          if (r.chance(0.8)) {
            unsigned long d = dur();
            m.addDurationInformation(info(d), l);
            mem[l].push_back(d);
          } else {
            double got = m.eval(l);
            auto& h = mem[l];
            auto avg = [](const std::vector<unsigned long>& v, size_t from) {
              long double s = 0;
              for (size_t i = from; i < v.size(); ++i) s += v[i];
              return (double)(s / (long double)(v.size() - from));
            };
            bool ok;
            double want = 0;
            if (h.empty() && before[l].empty()) ok = got == (want = linRef(l));
            else if (h.empty()) { want = avg(before[l], 0); ok = std::abs(got - want) <= 1. + 1e-9 * want; }
            else {
              // all records of this run, or those not yet moved to the file
              want = avg(h, 0);
              ok = std::abs(got - want) <= 1. + 1e-9 * want;
              if (h.size() > 50) {
                size_t moved = (h.size() - 1) / 50 * 50;
                double w2 = avg(h, moved);
                ok = ok || std::abs(got - w2) <= 1. + 1e-9 * w2;
              }
            }
            CHK(ok && std::isfinite(got) && got >= 0, "load.averaging", got << " expected " << want << " (" << h.size() << " records in this run, " << before[l].size() << " on disk)");
            vh::count("load_queries");
          }
        }
      }
      for (auto& kv : mem) for (auto x : kv.second) onDisk[kv.first].push_back(x);
      for (auto& l : levels) {
        std::ifstream in("l_" + toString(l) + ".durations");
        std::vector<unsigned long> v;
        std::string line;
        while (std::getline(in, line)) v.push_back(std::stoul(line));
        CHK(v == onDisk[l], "load.file", "file of " << vh::vstr(l) << " has " << v.size() << " records, expected " << onDisk[l].size());
      }
      vh::count("load_model_lifetimes");
    }
    for (auto& l : levels) remove(("l_" + toString(l) + ".durations").c_str());
  }
}

// ---------------------------------------------------------------------------------------- rescheduling decisions
static void reschedCase(Rng& r, const SC&) {
  int dim = (int)r.in(1, 3);
  int nt = (int)r.in(1, 24), ng = (int)r.in(1, 8);
  std::set<LevelVector> s;
  while ((int)s.size() < nt) {
    LevelVector l(dim);
    for (auto& x : l) x = (LevelType)r.in(1, dim == 1 ? 40 : 9);
    s.insert(l);
  }
  std::map<LevelVector, int> where;
  std::map<LevelVector, unsigned long> took;
  int mag = (int)r.in(0, 3);
  for (auto& l : s) {
    where[l] = r.chance(0.3) ? 0 : (int)r.in(0, ng - 1);
    took[l] = mag == 0 ? (unsigned long)r.in(0, 3) : mag == 1 ? (unsigned long)r.in(0, 2000) : mag == 2 ? (unsigned long)r.in(1, 8000000000l) : (r.chance(0.8) ? 10ul : (unsigned long)r.in(0, 100000));
  }
  unsigned iters = (unsigned)r.in(0, 30);
  double imb = r.chance(0.5) ? 1. + r.unit() : r.unit() * 3;
  AverageOfLastNLoadModel m(1, std::vector<LevelVector>(s.begin(), s.end()), std::unique_ptr<LoadModel>(new LinearLoadModel()));
  std::set<int> groups;
  for (auto& l : s) {
    DurationInformation i{};
    i.duration = took[l];
    m.addDurationInformation(i, l);
    groups.insert(where[l]);
  }
  RebalancingTaskRescheduler rs(iters, imb);
  auto moves = rs.eval(where, took, &m);
  auto load = [&](const std::map<LevelVector, int>& w) {
    std::map<int, double> x;
    for (int g : groups) x[g] = 0;
    for (auto& kv : w) x[kv.second] += (double)took[kv.first];
    double mx = 0;
    for (auto& kv : x) mx = std::max(mx, kv.second);
    return mx;
  };
  auto after = where;
  std::set<LevelVector> moved;
  for (auto& mv : moves) {
    CHK(where.count(mv.first) == 1, "resched.task", "moves an unknown task " << vh::vstr(mv.first));
    CHK(groups.count(mv.second) == 1, "resched.group", "moves to unknown group " << mv.second);
    CHK(moved.insert(mv.first).second, "resched.twice", "moves a task twice");
    after[mv.first] = mv.second;
  }
  CHK(after.size() == where.size(), "resched.count", "");
  CHK(moves.size() <= iters, "resched.iterations", moves.size() << " moves with at most " << iters << " iterations");
  CHK(load(after) <= load(where), "resched.imbalance", "largest group load " << load(where) << " -> " << load(after));
  std::map<int, int> num;
  for (auto& kv : after) ++num[kv.second];
  for (int g : groups) CHK(num[g] > 0, "resched.empty", "group " << g << " is left without a task");
  double tot = 0;
  for (auto& kv : took) tot += (double)kv.second;
  if (load(where) < imb * std::floor(tot / (double)groups.size()) * 0.999) CHK(moves.empty(), "resched.threshold", "moved tasks although the imbalance " << load(where) * (double)groups.size() / tot << " is below the threshold " << imb);
  // clearly imbalanced and improvable: something has to move
  vh::count("decisions");
  vh::count("moves", (long)moves.size());
  StaticTaskRescheduler st({});
  CHK(st.eval(where, took, &m).empty(), "resched.static", "");
}

// ---------------------------------------------------------------------------------------- fault recovery optimisation
static void lpCase(Rng& r, const SC& c0) {
  SC c = c0;
  bool any = false;
  for (int d = 0; d < c.dim; ++d) any |= c.lmax[d] > c.lmin[d];
  if (!any) { c.lmax[0] = c.lmin[0] + 1; }
  // uniform difference in the non-dummy dimensions
  int k = 0;
  for (int d = 0; d < c.dim; ++d) k = std::max<int>(k, c.lmax[d] - c.lmin[d]);
  for (int d = 0; d < c.dim; ++d)
    if (c.lmax[d] > c.lmin[d]) c.lmax[d] = c.lmin[d] + k;
  CombiMinMaxScheme sch((DimType)c.dim, c.lmin, c.lmax);
  if (r.chance(0.5)) sch.createAdaptiveCombischeme();
  else sch.createClassicalCombischeme();
  sch.makeFaultTolerant();
  auto grids = sch.getCombiSpaces();
  auto coeffs = sch.getCoeffs();
  CombigridDict dict;
  for (size_t i = 0; i < grids.size(); ++i) dict[grids[i]] = coeffs[i];
  int nf = (int)r.in(1, std::max<long>(1, std::min<long>((long)grids.size() - 1, r.chance(0.5) ? 3 : 9)));
  std::vector<size_t> p(grids.size());
  std::iota(p.begin(), p.end(), 0);
  r.shuffle(p);
  if (r.chance(0.4)) {  // many losses on the two upper diagonals
    int t = 0;
    for (int d = 0; d < c.dim; ++d) t += c.lmin[d];
    t += k;
    auto up = [&](size_t i) { return std::accumulate(grids[i].begin(), grids[i].end(), 0) >= t - 1; };
    auto mid = std::stable_partition(p.begin(), p.end(), up);
    long n = (long)(mid - p.begin());
    nf = (int)r.in(1, std::max<long>(1, std::min<long>((long)grids.size() - 1, (long)((0.3 + 0.5 * r.unit()) * (double)n))));
  }
  LevelVectorList faults;
  std::set<LevelVector> fs;
  for (int i = 0; i < nf; ++i) { faults.push_back(grids[p[i]]); fs.insert(grids[p[i]]); }
  int eff = 0, top = 0;
  for (int d = 0; d < c.dim; ++d) { eff += c.lmax[d] > c.lmin[d]; top += c.lmin[d]; }
  top += k;
  // the active part of the sparse grid (levels between lmin and the front)
  std::set<LevelVector> A;
  box(c.lmin, c.lmax, [&](const LevelVector& l) {
    int s = 0;
    for (auto x : l) s += x;
    if (s <= top) A.insert(l);
  });
  auto lsum = [](const LevelVector& l) { int s = 0; for (auto x : l) s += x; return s; };
  long relevant = 0;
  for (auto& f : faults) relevant += lsum(f) >= top - 1;
  LP_OPT_INTERP opt({c.lmin, c.lmax}, c.dim, GLP_MAX, dict, faults);
  CHK(opt.getNumFaults() == relevant, "lp.numFaults", opt.getNumFaults() << " faults on the two upper diagonals, expected " << relevant);
  std::ostringstream fd;
  for (auto& f : faults) fd << vh::vstr(f);
  if (relevant == 0) { vh::count("lp_nothing_to_optimize"); return; }
  opt.init_opti_prob("x");
  opt.set_constr_matrix();
  opt.solve_opti_problem();
  LevelVectorList recomp;
  CombigridDict res = opt.get_results(recomp);
  CHK(res.size() == dict.size(), "lp.size", res.size() << " coefficients, expected " << dict.size());
  for (auto& kv : dict) if (!CHK(res.count(kv.first), "lp.missing", vh::vstr(kv.first))) return;
  std::set<LevelVector> rc(recomp.begin(), recomp.end());
  double sum = 0;
  for (auto& kv : res) {
    sum += kv.second;
    CHK(std::abs(kv.second - std::round(kv.second)) < 1e-6, "lp.integral", "coefficient " << kv.second << " of " << vh::vstr(kv.first) << ", faults " << fd.str());
    if (fs.count(kv.first) && !rc.count(kv.first)) CHK(std::abs(kv.second) < 1e-6, "lp.usesLost", "lost grid " << vh::vstr(kv.first) << " gets coefficient " << kv.second << ", faults " << fd.str());
  }
  for (auto& l : rc) CHK(fs.count(l) && lsum(l) < top - 1 && std::abs(res[l]) > 1e-9, "lp.recompute", "asks to recompute " << vh::vstr(l) << " faults " << fd.str());
  CHK(std::abs(sum - 1) < 1e-6, "lp.sum", "coefficients add up to " << sum << ", faults " << fd.str());
  // inclusion-exclusion: every subspace is covered exactly zero times or once, downward closed
  std::map<LevelVector, double> w;
  for (auto& l : A) {
    double s = 0;
    for (auto& kv : res) {
      bool ge = true;
      for (int d = 0; d < c.dim; ++d) ge &= kv.first[d] >= l[d];
      if (ge) s += kv.second;
    }
    w[l] = s;
  }
  double obj = 0;
  for (auto& kv : w) {
    CHK(std::abs(kv.second) < 1e-6 || std::abs(kv.second - 1) < 1e-6, "lp.cover", "subspace " << vh::vstr(kv.first) << " is covered " << kv.second << " times, faults " << fd.str());
    for (int d = 0; d < c.dim; ++d) {
      LevelVector x = kv.first;
      if (x[d] == c.lmin[d]) continue;
      --x[d];
      CHK(kv.second <= w[x] + 1e-6, "lp.downset", "not downward closed at " << vh::vstr(kv.first));
    }
    obj += kv.second * std::pow(4., -(lsum(kv.first) - top + k));
  }
  // optimality by enumeration: which of the upper-diagonal grids stay decides everything
  std::vector<LevelVector> tops;
  for (auto& l : A)
    if (lsum(l) == top && !fs.count(l)) {
      bool choice = false;  // only those above a lost second-diagonal grid are not trivially kept
      for (int d = 0; d < c.dim; ++d) {
        LevelVector x = l;
        --x[d];
        if (A.count(x) && fs.count(x)) choice = true;
      }
      if (choice) tops.push_back(l);
    }
  if (tops.size() <= 16) {
    double best = -1;
    for (size_t m = 0; m < (1u << tops.size()); ++m) {
      std::set<LevelVector> on;
      for (size_t i = 0; i < tops.size(); ++i) if (m >> i & 1) on.insert(tops[i]);
      double o = 0;
      bool ok = true;
      for (auto& l : A) {
        int s = lsum(l);
        double v = 1;
        if (s == top) v = fs.count(l) ? 0 : std::find(tops.begin(), tops.end(), l) == tops.end() ? 1 : on.count(l) ? 1 : 0;
        else if (s == top - 1 && fs.count(l)) {
          v = 0;
          for (int d = 0; d < c.dim; ++d) {
            LevelVector x = l;
            ++x[d];
            if (A.count(x) && !fs.count(x) && (on.count(x) )) v += 1;
          }
          if (v > 1) ok = false;
        }
        o += v * std::pow(4., -(s - top + k));
      }
      if (ok) best = std::max(best, o);
    }
    CHK(std::abs(best - obj) <= 1e-6 * best, "lp.optimal", "objective " << obj << ", best possible " << best << ", faults " << fd.str());
    vh::count("lp_optima_enumerated");
  }
  vh::count("lp_solved");
  vh::count("lp_recomputed", (long)rc.size());
}

static void staticFaults(Rng& r) {
  FaultsInfo fi;
  int n = (int)r.in(0, 6);
  fi.numFaults_ = n;
  std::set<std::pair<int, int>> s;
  for (int i = 0; i < n; ++i) {
    fi.iterationFaults_.push_back((IndexType)r.in(0, 5));
    fi.globalRankFaults_.push_back((IndexType)r.in(0, 5));
    s.emplace(fi.iterationFaults_.back(), fi.globalRankFaults_.back());
  }
  StaticFaults f(fi);
  for (int i = 0; i < 7; ++i)
    for (int g = 0; g < 7; ++g) CHK(f.failNow(i, 0.1, g) == (s.count({i, g}) == 1), "faults.static", "iteration " << i << " rank " << g);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  std::string suite = s.suite;
  glp_term_out(GLP_OFF);
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(suite)));
    SC c = suite == "lp" ? genScheme(r, 4, 1200, true, 5) : suite == "scheme" ? genScheme(r, 6, 20000, false, r.chance(0.1) ? 12 : 5) : genScheme(r, 5, 6000, false, 5);
    std::string desc = suite + " case " + std::to_string(i) + " " + c.desc;
    vh::caseBegin(i, desc);
    vh::distinct(vh::strSig(c.desc) ^ (suite == "load" || suite == "resched" || suite == "lp" ? (uint64_t)i : 0));
    vh::count("cases");
    if (s.rank == 0) vh::sample(desc);
    vh::guarded([&]() {
      if (suite == "scheme") { schemeCase(r, c); splitCase(r, c); }
      else if (suite == "file") fileCase(r, c);
      else if (suite == "assign") assignCase(r, c);
      else if (suite == "load") loadCase(r, c);
      else if (suite == "resched") reschedCase(r, c);
      else if (suite == "lp") { lpCase(r, c); staticFaults(r); }
    });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
