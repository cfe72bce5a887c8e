// Monitored whole-system combinations without manager (worker-only): suite combi (values of all
// grids after every combination), suite interp (evaluation of the combined solution).
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <fstream>

#include "hc.hpp"
#include "utils/BoostExports.hpp"
BOOST_CLASS_EXPORT(hc::VTask)

using namespace hc;

static void combiCase(const Conf& c, Rng& r) {
  MPI_Comm comm = firstRanks(c.ngroup * c.nprocs);
  if (comm == MPI_COMM_NULL) return;
  combigrid::Stats::initialize();
  theMPISystem()->initWorldReusable(comm, (size_t)c.ngroup, (size_t)c.nprocs, false);
  current() = &c;
  events().clear();
  {
    LinearLoadModel lm;
    ProcessGroupWorker<> w;
    w.setCombiParameters(paramsOf(c));
    std::vector<LevelVector> l;
    std::vector<real> co;
    std::vector<size_t> ids;
    myTasks(c, (int)theMPISystem()->getProcessGroupNumber(), l, co, ids);
    w.initializeAllTasks<VTask>(l, co, ids, &lm);
    w.initCombinedDSGVector();
    w.zeroDsgsData();
    Ref ref(c);
    int steps = c.big ? 1 : (int)r.in(1, 3);
    for (int s = 0; s < steps; ++s) {
      w.runAllTasks();
      ref.run();
      compareTasks(w, ref, "combi.run", "after run " + std::to_string(s));
      bool split = c.variant != 3 && r.chance(0.3);
      if (split) {
        w.combineSystemWide();
        w.updateFullFromCombinedSparseGrids();
      } else {
        w.combineAtOnce();
      }
      ref.combine();
      compareTasks(w, ref, "combi.value", "after combination " + std::to_string(s));
      vh::count("combinations");
      vh::count("combinations_variant" + std::to_string(c.variant));
    }
    if ((int)w.getCurrentNumberOfCombinations() != steps)
      vh::fail("combi.count", "number of combinations is " + std::to_string(w.getCurrentNumberOfCombinations()));
    w.exit();
  }
  combigrid::Stats::finalize();
  MPI_Barrier(comm);
}


#define CHK(cond, key, msg) \
  do { vh::count("checks"); if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); } } while (0)

struct System {
  MPI_Comm comm;
  std::unique_ptr<ProcessGroupWorker<>> w;
  LinearLoadModel lm;
  int group = 0;
  explicit System(const Conf& c) {
    comm = firstRanks(c.ngroup * c.nprocs);
    if (comm == MPI_COMM_NULL) return;
    combigrid::Stats::initialize();
    theMPISystem()->initWorldReusable(comm, (size_t)c.ngroup, (size_t)c.nprocs, false);
    current() = &c;
    events().clear();
    w = std::make_unique<ProcessGroupWorker<>>();
    w->setCombiParameters(paramsOf(c));
    std::vector<LevelVector> l;
    std::vector<real> co;
    std::vector<size_t> ids;
    group = (int)theMPISystem()->getProcessGroupNumber();
    myTasks(c, group, l, co, ids);
    w->initializeAllTasks<VTask>(l, co, ids, &lm);
    w->initCombinedDSGVector();
    w->zeroDsgsData();
  }
  ~System() {
    if (comm == MPI_COMM_NULL) return;
    w->exit();
    w.reset();
    combigrid::Stats::finalize();
    MPI_Barrier(comm);
  }
};

// evaluation of the combined solution
static void interpCase(const Conf& c, Rng& r) {
  System sys(c);
  uint64_t pseed = r.next();
  if (sys.comm == MPI_COMM_NULL) return;
  auto& w = *sys.w;
  Ref ref(c);
  Rng q(pseed);
  for (int s = 0; s < 2; ++s) {
    w.runAllTasks();
    ref.run();
    for (int comb = 0; comb < 2; ++comb) {
      if (comb) { w.combineAtOnce(); ref.combine(); }
      int np = (int)q.in(1, 40);
      std::vector<std::vector<real>> pts;
      for (int k = 0; k < np; ++k) {
        std::vector<real> x;
        for (int d = 0; d < c.D; ++d) {
          int lv = (int)q.in(c.lmin[(size_t)d], c.lmax[(size_t)d]);
          switch (q.in(0, 4)) {
            case 0: x.push_back((double)q.in(0, 1 << lv) / (1 << lv)); break;
            case 1: x.push_back(q.chance(0.5) ? 0. : 1.); break;
            default: x.push_back(q.unit());
          }
        }
        pts.push_back(x);
      }
      auto vals = w.interpolateValues(pts);
      CHK(vals.size() == pts.size(), "interp.size", vals.size() << " values for " << pts.size() << " points");
      for (size_t k = 0; k < std::min(vals.size(), pts.size()); ++k) {
        double e = ref.interp(pts[k]);
        CHK(std::abs(vals[k] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "interp.value",
            "step " << s << (comb ? " combined" : " uncombined") << " at " << vh::vstr(pts[k]) << " is " << vals[k] << " should be " << e);
      }
      auto norms = w.getLpNorms(0);
      CHK(norms.size() == w.getTasks().size(), "interp.norms", norms.size() << " norms");
      for (size_t k = 0; k < norms.size() && k < w.getTasks().size(); ++k) {
        size_t t = 0;
        while (c.ids[t] != w.getTasks()[k]->getID()) ++t;
        double mx = 0;
        for (double v : ref.u[0][t]) mx = std::max(mx, std::abs(v));
        CHK(std::abs(norms[k] - mx) <= 1e-10 * ref.scale, "interp.norms", "max norm of task " << c.ids[t] << " is " << norms[k] << " should be " << mx);
      }
      bool hat = true;
      for (int b : c.basis) hat = hat && (b == vh::HAT || b == vh::HATP);
      if (comb && hat && c.schemeCoeffs && c.variant == 0 && c.reduce.empty()) {
        // evaluation on a uniform grid, by one group
        IV le;
        for (int d = 0; d < c.D; ++d) le.push_back((int)q.in(c.lmin[(size_t)d], c.lmax[(size_t)d]));
        int g = (int)q.in(0, c.ngroup - 1);
        if (vh::total(vh::shape(le, c.b)) < 20000 && sys.group == g) {
          std::string fn = "eval.raw", fn0 = "eval_0.raw";
          w.parallelEvalUniform(fn, toLV(le));
          MPI_Barrier(theMPISystem()->getLocalComm());
          std::ifstream in(fn0, std::ios::binary);
          std::stringstream b;
          b << in.rdbuf();
          IV sh = vh::shape(le, c.b);
          size_t hdr = 0;
          CHK(b.str().size() == hdr + sizeof(double) * (size_t)vh::total(sh), "interp.uniform", "file has " << b.str().size() << " bytes");
          if (b.str().size() == hdr + sizeof(double) * (size_t)vh::total(sh)) {
            std::vector<double> v((size_t)vh::total(sh));
            memcpy(v.data(), b.str().data() + hdr, v.size() * sizeof(double));
            for (size_t i = 0; i < v.size(); ++i) {
              IV idx = vh::unlin((long)i, sh);
              std::vector<double> x;
              for (size_t d = 0; d < idx.size(); ++d) x.push_back((double)(idx[d] + (c.b[d] == 0)) / (1 << le[d]));
              double e = ref.interp(x);
              CHK(std::abs(v[i] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "interp.uniform",
                  "on level " << vh::vstr(le) << " at " << vh::vstr(x) << " is " << v[i] << " should be " << e);
            }
            vh::count("uniform_evaluations");
          }
          MPI_Barrier(theMPISystem()->getLocalComm());
          if (theMPISystem()->getLocalRank() == 0) { unlink(fn0.c_str()); unlink((fn0 + "_header").c_str()); }
          MPI_Barrier(theMPISystem()->getLocalComm());
        }
      }
      vh::count("interpolations", np);
    }
  }
}

// number of 1d points of hierarchical level k on the finest grid inside [a,b)
static long pts1(int k, int lmax, int bnd, long a, long b) {
  long n = 0;
  for (long i = a; i < b; ++i) n += vh::hlevel1((int)i, lmax, bnd) == k;
  return n;
}
static void sizesCase(const Conf& c, Rng& r) {
  System sys(c);
  if (sys.comm == MPI_COMM_NULL) return;
  auto& w = *sys.w;
  const size_t D = (size_t)c.D;
  // my sub-domain, from the bounds of the task grids
  const auto& g0 = w.getTasks()[0]->getDistributedFullGrid(0);
  IV part(D);
  for (size_t d = 0; d < D; ++d) {
    // process index in dimension d: number of cuts at or below the first point of my part
    int lv = w.getTasks()[0]->getLevelVector()[d];
    int off = c.b[d] == 0;
    long first = ((long)(g0.getLowerBounds()[d] + off) << (c.lmax[d] - lv)) - off;
    int k = 0;
    for (size_t j = 0; j < c.decomp[d].size(); ++j) if (c.decomp[d][j] <= first) k = (int)j;
    part[d] = k;
  }
  auto boxOf = [&](const IV& p, size_t d) {
    long a = c.decomp[d][(size_t)p[d]];
    long b = (size_t)p[d] + 1 < c.decomp[d].size() ? c.decomp[d][(size_t)p[d] + 1] : vh::npts(c.lmax[d], c.b[d]);
    return std::make_pair(a, b);
  };
  std::map<std::pair<size_t, int>, long> cache;
  auto local = [&](const IV& k) {
    long n = 1;
    for (size_t d = 0; d < D; ++d) {
      auto key = std::make_pair(d, k[d]);
      auto it = cache.find(key);
      if (it == cache.end()) it = cache.emplace(key, pts1(k[d], c.lmax[d], c.b[d], boxOf(part, d).first, boxOf(part, d).second)).first;
      n *= it->second;
    }
    return n;
  };
  auto has = [&](const IV& k, int g) {
    for (size_t t = 0; t < c.levels.size(); ++t) {
      if (c.group[t] != g) continue;
      bool in = true;
      for (size_t d = 0; d < D; ++d) in = in && k[d] <= c.levels[t][d];
      if (in) return true;
    }
    return false;
  };
  for (auto& dsg : w.getCombinedDSGVector()) {
    std::map<IV, size_t> pos;
    size_t total = 0;
    std::map<size_t, IV> sharers;
    for (size_t i = 0; i < (size_t)dsg->getNumSubspaces(); ++i) {
      IV k = toIV(dsg->getLevelVector(i));
      CHK(pos.emplace(k, i).second, "sizes.duplicate", "subspace " << vh::vstr(k) << " occurs twice");
      IV who;
      for (int g = 0; g < c.ngroup; ++g) if (has(k, g)) who.push_back(g);
      bool mine = std::find(who.begin(), who.end(), sys.group) != who.end();
      long e = local(k);
      bool stored = c.variant == 0 ? !who.empty() : c.variant == 1 ? mine : (mine || who.size() > 1);
      if (!stored) e = 0;
      CHK((long)dsg->getDataSize(i) == e, "sizes.registered", "subspace " << vh::vstr(k) << " has size " << dsg->getDataSize(i) << " on part " << vh::vstr(part) << " group " << sys.group << " should be " << e);
      total += (size_t)e;
      if (who.size() > 1 && local(k) > 0) sharers[i] = who;
      vh::count("subspaces_checked");
    }
    CHK(dsg->getAccumulatedDataSize() == total, "sizes.total", "total " << dsg->getAccumulatedDataSize() << " should be " << total);
    if (c.variant != 3) CHK(dsg->getRawDataSize() == total, "sizes.allocated", "allocated " << dsg->getRawDataSize() << " should be " << total);
    // every subspace of every grid is part of the sparse grid
    if (c.reduce.empty())
      for (auto& l : c.levels)
        vh::boxDo(IV(D, 1), l, [&](const IV& k) { CHK(pos.count(k), "sizes.missing", "subspace " << vh::vstr(k) << " of grid " << vh::vstr(l) << " is missing"); });
    if (c.variant > 0) {
      std::map<size_t, int> seen;
      for (auto& cs : dsg->getSubspacesByCommunicator()) {
        int n, me;
        MPI_Comm_size(cs.first, &n);
        MPI_Comm_rank(cs.first, &me);
        // world ranks / groups behind the communicator
        std::vector<int> gr((size_t)n);
        MPI_Allgather(&sys.group, 1, MPI_INT, gr.data(), 1, MPI_INT, cs.first);
        std::sort(gr.begin(), gr.end());
        for (auto i : cs.second) {
          ++seen[(size_t)i];
          auto it = sharers.find((size_t)i);
          CHK(it != sharers.end(), "sizes.shared", "subspace " << i << " is exchanged but not shared");
          if (it != sharers.end() && c.variant == 1)
            CHK(gr == it->second, "sizes.shared", "subspace " << i << " is exchanged between groups " << vh::vstr(gr) << " but is shared by " << vh::vstr(it->second));
        }
      }
      for (auto& sh : sharers) {
        bool mine = std::find(sh.second.begin(), sh.second.end(), sys.group) != sh.second.end();
        int e = mine || c.variant > 1 ? 1 : 0;
        CHK(seen[sh.first] == e, "sizes.shared", "subspace " << sh.first << " is exchanged " << seen[sh.first] << " times, should be " << e);
      }
    }
  }
  // predictions
  long long all = 0, pred = 0;
  for (const auto& t : w.getTasks()) {
    long long n = (long long)t->getDistributedFullGrid(0).getNrLocalElements(), s = 0;
    MPI_Allreduce(&n, &s, 1, MPI_LONG_LONG, MPI_SUM, theMPISystem()->getLocalComm());
    pred = getCombiDegreesOfFreedom(t->getLevelVector(), bOf(c));
    CHK(s == pred, "sizes.grid", "grid " << vh::vstr(toIV(t->getLevelVector())) << " has " << s << " points, predicted " << pred);
  }
  bool two = true;
  for (int b : c.b) two = two && b == 2;
  if (two && c.reduce.empty()) {
    auto parts = getPartitionedNumDOFSGAdaptive(toLV(c.lmin), toLV(c.lmax), toLV(c.lmax), c.decomp);
    CHK((int)parts.size() == c.nprocs, "sizes.predicted", "prediction for " << parts.size() << " processes");
    long me = vh::lin(part, c.procs);
    long long mine = 0;
    auto& dsg = w.getCombinedDSGVector()[0];
    for (size_t i = 0; i < (size_t)dsg->getNumSubspaces(); ++i) {
      bool any = false;
      for (int g = 0; g < c.ngroup; ++g) any = any || has(toIV(dsg->getLevelVector(i)), g);
      if (any) mine += local(toIV(dsg->getLevelVector(i)));
    }
    if (c.variant == 0) mine = (long long)dsg->getAccumulatedDataSize();
    if ((int)parts.size() == c.nprocs)
      CHK(parts[(size_t)me] == mine, "sizes.predicted", "part " << vh::vstr(part) << " stores " << mine << ", predicted " << parts[(size_t)me]);
    MPI_Allreduce(&mine, &all, 1, MPI_LONG_LONG, MPI_SUM, theMPISystem()->getLocalComm());
    pred = printSGDegreesOfFreedomAdaptive(toLV(c.lmin), toLV(c.lmax));
    CHK(all == pred, "sizes.predicted", "stored " << all << " predicted " << pred);
    vh::count("predictions");
  }
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    GenOpt o;
    if (s.suite == "sizes" && r.chance(0.4)) o.boundary = 2;
    if (s.suite == "interp") { o.multiGrid = false; o.bigCases = false; o.maxPts = 6000; }
    if (s.suite == "sizes") { o.bigCases = false; o.maxPts = 60000; }
    Conf c = gen(r, o);
    vh::caseBegin(i, c.desc());
    vh::distinct(vh::strSig(c.desc()));
    vh::count("cases");
    vh::count("cases_groups" + std::to_string(c.ngroup));
    if (s.rank == 0) vh::sample(c.desc());
    vh::guarded([&]() {
      if (s.suite == "combi") combiCase(c, r);
      else if (s.suite == "interp") interpCase(c, r);
      else if (s.suite == "sizes") sizesCase(c, r);
    });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
