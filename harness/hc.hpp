// Shared pieces of the harnesses that run whole combinations: random configurations, a task with
// hashed data, and the serial reference of the combination technique.
#pragma once
#include <algorithm>
#include <boost/serialization/export.hpp>
#include <memory>
#include <unordered_map>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "task/Task.hpp"
#include "vh.hpp"

namespace hc {
using namespace combigrid;
using vh::IV;
using vh::Rng;

struct Conf {
  int D = 1;
  IV lmin, lmax, b, basis, procs, reduce;
  std::vector<bool> hdims, periodicData;
  std::vector<IndexVector> decomp;
  bool forward = false;
  int ngroup = 1, nprocs = 1, variant = 0, numGrids = 1, chunk = 1;
  std::vector<IV> levels;
  std::vector<double> coeffs;
  IV group;                 // owner group per task
  std::vector<size_t> ids;  // id per task
  bool schemeCoeffs = true, big = false;
  uint64_t dseed = 1;
  // effective minimum level of the hierarchization
  IV hlmin() const {
    for (int x : b) if (x == 0) return IV((size_t)D, 0);
    return lmin;
  }
  std::string desc() const {
    static const char* vn[] = {"sparseGridReduce", "subspaceReduce", "outgroup", "chunkedOutgroup"};
    std::ostringstream o;
    o << "variant=" << vn[variant] << " groups=" << ngroup << " procs=" << vh::vstr(procs) << " lmin=" << vh::vstr(lmin)
      << " lmax=" << vh::vstr(lmax) << " boundary=" << vh::vstr(b) << " basis=" << vh::vstr(basis)
      << " hdims=" << vh::vstr(hdims) << " decomp=";
    for (auto& d : decomp) o << vh::vstr(d);
    o << " numGrids=" << numGrids << " chunk=" << chunk << " tasks=" << levels.size() << " coeffs=" << (schemeCoeffs ? "scheme" : vh::vstr(coeffs))
      << " owner=" << vh::vstr(group) << " ids=" << vh::vstr(ids);
    if (!reduce.empty()) o << " lmaxReduction=" << vh::vstr(reduce);
    if (big) o << " big";
    return o.str();
  }
};

// what a task writes into its grid in step `step`; a function of the point only
inline double taskVal(const Conf& c, size_t id, int grid, int step, const IV& l, IV idx) {
  for (int d = 0; d < c.D; ++d)
    if (c.b[(size_t)d] == 2 && c.periodicData[(size_t)d] && idx[(size_t)d] == (1 << l[(size_t)d])) idx[(size_t)d] = 0;
  uint64_t h = vh::mix(c.dseed, id * 977 + (uint64_t)grid * 131 + (uint64_t)step * 7919);
  for (int d = 0; d < c.D; ++d) h = h * 1000003ull + (uint64_t)idx[(size_t)d];
  return vh::hashVal(h, 17);
}
inline IV toIV(const LevelVector& l) { return IV(l.begin(), l.end()); }
template <class V>
inline LevelVector toLV(const V& l) { LevelVector r; for (auto x : l) r.push_back((LevelType)x); return r; }

// monitor log of one process: which task did what
struct TaskEvents {
  std::map<size_t, std::vector<int>> runs;  // id -> steps run here
  std::map<size_t, int> inits, dtors, diags, recvDiags;
  void clear() { runs.clear(); inits.clear(); dtors.clear(); diags.clear(); recvDiags.clear(); }
};
inline TaskEvents& events() { static TaskEvents e; return e; }
inline const Conf*& current() { static const Conf* c = nullptr; return c; }

class VTask : public combigrid::Task<> {
 public:
  VTask(const LevelVector& l, const std::vector<BoundaryType>& boundary, real coeff, LoadModel* lm)
      : Task<>(l, boundary, coeff, lm) {}
  VTask(const LevelVector& l, const std::vector<BoundaryType>& boundary, real coeff, LoadModel* lm, FaultCriterion* fc)
      : Task<>(l, boundary, coeff, lm, fc) {}
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& dec) override {
    events().inits[getID()]++;
    std::vector<int> p;
    for (auto& d : dec) p.push_back((int)d.size());
    for (int n = 0; n < current()->numGrids; ++n) {
      g_.push_back(std::make_unique<OwningDistributedFullGrid<CombiDataType>>(getDim(), getLevelVector(), lcomm, getBoundary(), p, false, dec));
      std::fill(g_.back()->getData(), g_.back()->getData() + g_.back()->getNrLocalElements(), CombiDataType(0));
    }
  }
  void run(CommunicatorType lcomm) override {
    ++step_;
    events().runs[getID()].push_back(step_);
    if (this->faultCriterion_) {
      real t = 0;
      if (faulty_ && this->faultCriterion_->failNow(step_ - 1, t, theMPISystem()->getGlobalRank())) {
        theMPISystem()->sendFailedSignal();
        StatusType status = PROCESS_GROUP_FAIL;
        MASTER_EXCLUSIVE_SECTION {
          simft::Sim_FT_MPI_Send(&status, 1, MPI_INT, theMPISystem()->getManagerRank(), TRANSFER_STATUS_TAG,
                                 theMPISystem()->getGlobalCommFT());
        }
        theMPISystem()->sendFailedSignal();
        simft::Sim_FT_kill_me();
      }
    }
    addStep(step_);
    setFinished(true);
  }
  void addStep(int step) {
    IV l = toIV(getLevelVector());
    for (int n = 0; n < current()->numGrids; ++n) {
      auto& g = *g_[(size_t)n];
      eachLocal(g, [&](long li, const IV& idx) { g.getData()[li] += taskVal(*current(), getID(), n, step, l, idx); });
    }
  }
  template <class F>
  static void eachLocal(const DistributedFullGrid<CombiDataType>& g, F f) {
    IV lo(g.getLowerBounds().begin(), g.getLowerBounds().end()), up(g.getUpperBounds().begin(), g.getUpperBounds().end());
    for (size_t d = 0; d < lo.size(); ++d) --up[d];
    long li = 0;
    vh::boxDo(lo, up, [&](const IV& i) { f(li++, i); });
  }
  void getFullGrid(FullGrid<CombiDataType>& fg, RankType r, CommunicatorType lcomm, int n) override { g_[(size_t)n]->gatherFullGrid(fg, r); }
  DistributedFullGrid<CombiDataType>& getDistributedFullGrid(size_t n) override { return *g_[n]; }
  const DistributedFullGrid<CombiDataType>& getDistributedFullGrid(size_t n) const override { return *g_[n]; }
  void setZero() override {
    for (auto& g : g_) std::fill(g->getData(), g->getData() + g->getNrLocalElements(), CombiDataType(0));
  }
  real getCurrentTime() const override { return step_; }
  CombiDataType analyticalSolution(const std::vector<real>& x, int n) const override {
    double s = 0.25;
    for (size_t d = 0; d < x.size(); ++d) s += (double)(d + 1) * x[d];
    return s;
  }
  void doDiagnostics() override { events().diags[getID()]++; }
  void receiveDiagnostics() override { events().recvDiags[getID()]++; }
  ~VTask() { events().dtors[getID()]++; }
  int step() const { return step_; }
  static bool faulty_;

 protected:
  VTask() {}

 private:
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<Task>(*this);
    ar& step_;
  }
  std::vector<std::unique_ptr<OwningDistributedFullGrid<CombiDataType>>> g_;
  int step_ = 0;
};
inline bool VTask::faulty_ = false;

// ------------------------------------------------------------------ serial reference
struct Ref {
  const Conf& c;
  // [grid][task] -> nodal values
  std::vector<std::vector<std::vector<double>>> u;
  std::vector<int> step;
  double scale = 1;
  explicit Ref(const Conf& conf) : c(conf) {
    u.resize((size_t)c.numGrids);
    for (auto& g : u) {
      g.resize(c.levels.size());
      for (size_t t = 0; t < g.size(); ++t) g[t].assign((size_t)vh::total(vh::shape(c.levels[t], c.b)), 0.);
    }
    step.assign(c.levels.size(), 0);
  }
  void run() { for (size_t t = 0; t < c.levels.size(); ++t) runOne(t); }
  void runOne(size_t t) {
    ++step[t];
    IV s = vh::shape(c.levels[t], c.b);
    for (int n = 0; n < c.numGrids; ++n)
      for (long i = 0; i < vh::total(s); ++i)
        u[(size_t)n][t][(size_t)i] += taskVal(c, c.ids[t], n, step[t], c.levels[t], vh::unlin(i, s));
  }
  static uint64_t key(const IV& idx, const IV& l, const IV& lmax, const IV& b) {
    uint64_t k = 0;
    for (size_t d = 0; d < l.size(); ++d) {
      uint64_t x = (uint64_t)((idx[d] + (b[d] == 0)) << (lmax[d] - l[d]));
      k = k * (uint64_t)((1 << lmax[d]) + 1) + x;
    }
    return k;
  }
  // hierarchical surplus sums, per grid
  std::vector<std::unordered_map<uint64_t, double>> coef;
  void combine(const std::vector<double>* otherCoeffs = nullptr, const std::vector<bool>* take = nullptr) {
    const auto& cf = otherCoeffs ? *otherCoeffs : c.coeffs;
    coef.assign((size_t)c.numGrids, {});
    IV hl = c.hlmin();
    for (int n = 0; n < c.numGrids; ++n) {
      auto& m = coef[(size_t)n];
      auto& un = u[(size_t)n];
      for (size_t t = 0; t < un.size(); ++t) {
        vh::transform(un[t], c.levels[t], c.b, c.hdims, c.basis, hl, true);
        if (take && !(*take)[t]) continue;
        IV s = vh::shape(c.levels[t], c.b);
        for (long i = 0; i < vh::total(s); ++i) {
          double v = cf[t] * un[t][(size_t)i];
          m[key(vh::unlin(i, s), c.levels[t], c.lmax, c.b)] += v;
        }
      }
      for (size_t t = 0; t < un.size(); ++t) {
        IV s = vh::shape(c.levels[t], c.b);
        for (long i = 0; i < vh::total(s); ++i) {
          auto it = m.find(key(vh::unlin(i, s), c.levels[t], c.lmax, c.b));
          un[t][(size_t)i] = it == m.end() ? 0. : it->second;
        }
        vh::transform(un[t], c.levels[t], c.b, c.hdims, c.basis, hl, false);
        for (double v : un[t]) scale = std::max(scale, std::abs(v));
      }
    }
  }
  double interp(const std::vector<double>& x, int n = 0) const {
    double r = 0;
    for (size_t t = 0; t < c.levels.size(); ++t) r += c.coeffs[t] * vh::interp(u[(size_t)n][t], c.levels[t], c.b, x);
    return r;
  }
};

// compare all grids of the worker with the reference
inline void compareTasks(const ProcessGroupWorker<>& w, const Ref& ref, const std::string& key, const std::string& where) {
  const Conf& c = ref.c;
  for (const auto& task : w.getTasks()) {
    size_t t = 0;
    while (t < c.ids.size() && c.ids[t] != task->getID()) ++t;
    if (t == c.ids.size()) { vh::fail(key + ".foreign", where + ": unknown task id " + std::to_string(task->getID())); continue; }
    IV s = vh::shape(c.levels[t], c.b);
    for (int n = 0; n < c.numGrids; ++n) {
      const auto& g = task->getDistributedFullGrid((size_t)n);
      int bad = 0;
      VTask::eachLocal(g, [&](long li, const IV& idx) {
        double e = ref.u[(size_t)n][t][(size_t)vh::lin(idx, s)], a = g.getData()[li];
        if (!(std::abs(a - e) <= 1e-10 * ref.scale) && ++bad <= 2)
          vh::fail(key, where + ": task " + std::to_string(task->getID()) + " level " + vh::vstr(c.levels[t]) + " grid " + std::to_string(n) +
                            " index " + vh::vstr(idx) + " is " + vh::tos(a) + " should be " + vh::tos(e));
        vh::count("values_compared");
      });
    }
  }
}

// ------------------------------------------------------------------ configuration generator
struct GenOpt {
  int maxProcs = 8, maxGroups = 8, minGroups = 1, maxD = 5;
  long maxPts = 12000;  // over all component grids
  bool variants = true, multiGrid = true, reduction = true, randomCoeffs = true, allBases = true, dimSwitch = true, bigCases = true;
  int minTasks = 1;
  int boundary = -1;
};
inline Conf gen(Rng& r, const GenOpt& o) {
  for (int attempt = 0;; ++attempt) {
    Conf c;
    c.dseed = r.next();
    c.big = o.bigCases && r.chance(0.05);
    c.D = c.big ? 2 : std::min(o.maxD, (int)r.pick(IV{1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4, 5}));
    size_t D = (size_t)c.D;
    int mode = (int)r.in(0, 4);
    if (o.boundary >= 0) mode = o.boundary;
    for (size_t d = 0; d < D; ++d) c.b.push_back(mode < 3 ? mode : (int)r.in(0, 2));
    int span = (int)r.in(r.chance(0.9) ? 1 : 0, c.D == 2 ? 4 : c.D == 3 ? 3 : 2);
    int base = (int)r.in(1, c.D <= 2 ? 3 : c.D <= 4 ? 2 : 1);
    bool anis = r.chance(0.4);
    for (size_t d = 0; d < D; ++d) {
      int lo = base + (anis ? (int)r.in(0, 1) : 0);
      c.lmin.push_back(lo);
      c.lmax.push_back(lo + span);
    }
    if (anis && r.chance(0.5) && D > 1) c.lmax[(size_t)r.in(0, (int64_t)D - 1)] = -1;
    for (size_t d = 0; d < D; ++d) if (c.lmax[d] < 0) c.lmax[d] = c.lmin[d] + (int)r.in(0, span);
    if (c.big) { c.lmin = r.chance(0.5) ? IV{9, 9} : IV{8, 10}; c.lmax = {c.lmin[0] + 1, c.lmin[1] + 1}; }
   
    // scheme
    CombiMinMaxScheme scheme((DimType)c.D, toLV(c.lmin), toLV(c.lmax));
    scheme.createAdaptiveCombischeme();
    long pts = 0;
    for (auto& l : scheme.getCombiSpaces()) { c.levels.push_back(toIV(l)); pts += vh::total(vh::shape(toIV(l), c.b)); }
    for (auto x : scheme.getCoeffs()) c.coeffs.push_back((double)x);
    if (c.levels.empty() || (int)c.levels.size() < o.minTasks) continue;
    if (!c.big && pts > o.maxPts) continue;
    if (o.randomCoeffs && r.chance(0.25)) {
      c.schemeCoeffs = false;
      for (auto& x : c.coeffs) x = r.chance(0.2) ? 0.0 : r.sym() * 2;
    }
    // process layout: each process has at least one point of the coarsest grid
    IV cap;
    for (size_t d = 0; d < D; ++d) cap.push_back(vh::npts(c.lmin[d], c.b[d]));
    int maxG = std::min<int>(o.maxGroups, (int)c.levels.size());
    if (maxG < o.minGroups) continue;
    c.ngroup = (int)r.in(o.minGroups, maxG);
    if (r.chance(0.6)) c.ngroup = std::max(o.minGroups, std::min(maxG, (int)r.in(1, 4)));
    if (c.big) c.ngroup = std::max(2, c.ngroup);
    if (c.ngroup > o.maxProcs) continue;
    c.procs = c.big ? IV{1, 1} : vh::randProcs(r, cap, o.maxProcs / c.ngroup);
    c.nprocs = (int)vh::total(c.procs);
    for (size_t d = 0; d < D; ++d) {
      // choose cuts on the coarsest grid, then move them on the finest grid without changing who owns coarse points
      IV cc = vh::randCuts(r, cap[d], c.procs[d]);
      int f = 1 << (c.lmax[d] - c.lmin[d]);
      IndexVector v;
      for (size_t k = 0; k < cc.size(); ++k) {
        int off = c.b[d] == 0 ? 1 : 0;
        int hi = (cc[k] + off) * f - off;                    // finest index of the first coarse point
        int lo = k == 0 ? 0 : hi - (f - 1);                  // any index after the previous coarse point
        v.push_back(k == 0 ? 0 : r.chance(0.5) ? hi : (int)r.in(lo, hi));
      }
      c.decomp.push_back(v);
    }
    c.hdims.assign(D, true);
    c.periodicData.assign(D, false);
    for (size_t d = 0; d < D; ++d) {
      int bs = c.b[d] == 1 ? vh::HATP : vh::HAT;
      if (o.allBases && r.chance(0.6)) {
        if (c.b[d] == 1) bs = r.pick(IV{vh::HATP, vh::FWP, vh::BIOP});
        else if (c.b[d] == 2) bs = r.pick(IV{vh::HAT, vh::FW, vh::BIO, vh::HATP, vh::FWP, vh::BIOP});
      }
      c.basis.push_back(bs);
      c.periodicData[d] = bs == vh::HATP || bs == vh::FWP || bs == vh::BIOP;
    }
    (void)o.dimSwitch;
    c.variant = o.variants ? (int)r.in(0, 3) : 0;
    c.numGrids = o.multiGrid && c.variant != 3 && !c.big && r.chance(0.25) ? (int)r.in(2, 3) : 1;
    c.chunk = c.big ? 1 : (int)r.pick(IV{1, 16, 64, 2048, 16384, 65536, 1000000});
    if (o.reduction && c.schemeCoeffs && r.chance(0.15)) {
      bool ok = true;
      int sp = c.lmax[0] - c.lmin[0];
      for (size_t d = 0; d < D; ++d) ok = ok && c.lmax[d] - c.lmin[d] == sp && sp >= 1;
      if (ok && c.D > 1) c.reduce.assign(D, 1);
    }
    // owners: every group has at least one task
    c.group.resize(c.levels.size());
    std::vector<int> perm;
    for (size_t t = 0; t < c.levels.size(); ++t) { perm.push_back((int)t); c.ids.push_back(t); }
    r.shuffle(perm);
    for (size_t t = 0; t < perm.size(); ++t) c.group[(size_t)perm[t]] = (int)t < c.ngroup ? (int)t : (int)r.in(0, c.ngroup - 1);
    if (r.chance(0.5)) r.shuffle(c.ids);
    return c;
  }
}

inline BasisFunctionBasis* makeBasis(int b) {
  switch (b) {
    case vh::HAT: return new HierarchicalHatBasisFunction();
    case vh::HATP: return new HierarchicalHatPeriodicBasisFunction();
    case vh::FW: return new FullWeightingBasisFunction();
    case vh::FWP: return new FullWeightingPeriodicBasisFunction();
    case vh::BIO: return new BiorthogonalBasisFunction();
    default: return new BiorthogonalPeriodicBasisFunction();
  }
}
inline CombinationVariant variantOf(int v) {
  static const CombinationVariant vs[] = {CombinationVariant::sparseGridReduce, CombinationVariant::subspaceReduce,
                                          CombinationVariant::outgroupSparseGridReduce, CombinationVariant::chunkedOutgroupSparseGridReduce};
  return vs[v];
}
inline std::vector<BoundaryType> bOf(const Conf& c) {
  std::vector<BoundaryType> r;
  for (int x : c.b) r.push_back((BoundaryType)x);
  return r;
}
inline CombiParameters paramsOf(const Conf& c, size_t ncombi = 3) {
  CombiParameters p((DimType)c.D, toLV(c.lmin), toLV(c.lmax), bOf(c), ncombi, (IndexType)c.numGrids, variantOf(c.variant),
                    c.procs, LevelVector(0), toLV(c.reduce), (uint32_t)c.chunk, c.forward);
  p.setDecomposition(c.decomp);
  std::vector<BasisFunctionBasis*> bs;
  for (int b : c.basis) bs.push_back(makeBasis(b));
  p.setHierarchicalBases(bs);
  return p;
}
// communicator of the first n world ranks (cached: never freed, created collectively)
inline MPI_Comm firstRanks(int n) {
  static std::map<int, MPI_Comm> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  MPI_Comm sub = MPI_COMM_NULL;
  MPI_Comm_split(MPI_COMM_WORLD, vh::st().rank < n ? 0 : MPI_UNDEFINED, vh::st().rank, &sub);
  cache[n] = sub;
  return sub;
}
inline void myTasks(const Conf& c, int g, std::vector<LevelVector>& l, std::vector<real>& co, std::vector<size_t>& ids) {
  for (size_t t = 0; t < c.levels.size(); ++t)
    if (c.group[t] == g) { l.push_back(toLV(c.levels[t])); co.push_back(c.coeffs[t]); ids.push_back(c.ids[t]); }
}
}  // namespace hc
