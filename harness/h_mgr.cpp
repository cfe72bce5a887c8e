// Monitored manager/worker systems: suite ops (random sequences of manager operations, delays in the tasks).
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

#include "fault_tolerance/LPOptimizationInterpolation.hpp"
#include "hc.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
using namespace hc;

#define CHK(cond, key, msg) \
  do { vh::count("checks"); if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); } } while (0)

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
struct RunEv { double id, step, t0, t1, group; };  // t1 < 0: not the master process
static std::vector<RunEv> runLog;
static int maxDelay = 0;
static uint64_t delaySeed = 1;

class MTask : public VTask {
 public:
  MTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* lm) : VTask(l, b, c, lm) {}
  void run(CommunicatorType comm) override {
    double t0 = now();
    Rng r(vh::mix(delaySeed, (uint64_t)getID() * 31 + (uint64_t)step() * 1009 + (uint64_t)vh::st().rank * 17));
    if (maxDelay && r.chance(0.5)) usleep((useconds_t)r.in(0, maxDelay));
    VTask::run(comm);
    if (maxDelay && r.chance(0.5)) usleep((useconds_t)r.in(0, maxDelay));
    runLog.push_back({(double)getID(), (double)step(), t0, theMPISystem()->getLocalRank() == 0 ? now() : -1., (double)theMPISystem()->getProcessGroupNumber()});
  }
  void doDiagnostics() override {
    Rng r(vh::mix(delaySeed, (uint64_t)getID() * 37 + (uint64_t)vh::st().rank));
    if (maxDelay) usleep((useconds_t)r.in(0, maxDelay));
    VTask::doDiagnostics();
  }
 private:
  MTask() : VTask() {}
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<VTask>(*this); }
};
BOOST_CLASS_EXPORT(hc::VTask)
BOOST_CLASS_EXPORT(MTask)

// rescheduler that follows a random plan
class RandomRescheduler : public TaskRescheduler {
 public:
  Rng r;
  int groups;
  std::map<LevelVector, int>* last;
  RandomRescheduler(uint64_t seed, int g, std::map<LevelVector, int>* l) : r(seed), groups(g), last(l) {}
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& owner, const std::map<LevelVector, unsigned long>&, LoadModel*) override {
    *last = owner;
    std::vector<std::pair<LevelVector, int>> out;
    std::vector<int> load((size_t)groups, 0);
    for (auto& o : owner) load[(size_t)o.second]++;
    for (auto& o : owner) {
      if (!r.chance(0.35)) continue;
      int to = (int)r.in(0, groups - 1);
      // every group keeps a task
      if (to == o.second || load[(size_t)o.second] < 2) continue;
      load[(size_t)o.second]--; load[(size_t)to]++;
      out.push_back({o.first, to});
      (*last)[o.first] = to;
    }
    vh::count("migrations", (long long)out.size());
    return out;
  }
};

enum Op { COMB, RUNN, INTERP, NORMS, NORM, DIAG, UPDP, RESCHED, EVALG, MINMAX, NOPS, FAULT, RESTORE };
static const char* opName[] = {"combine", "runnext", "interpolate", "norms", "norm", "diagnostics", "update", "reschedule", "eval", "minmax", "", "fault", "restore"};

struct Plan {
  std::vector<int> ops;
  int delay = 0;
  bool lateInit = false;
  uint64_t seed = 1;
  std::vector<std::vector<size_t>> faults;            // of each fault op
  std::vector<std::vector<double>> coeffs;            // after each update signal
  std::vector<std::vector<size_t>> recomp;            // ids to recompute, of each fault op
  std::string desc() const {
    std::string s = "ops=";
    for (int o : ops) s += std::string(opName[o]) + ",";
    return s + " delay=" + std::to_string(delay) + (lateInit ? " lateInit" : "");
  }
};

static std::vector<std::vector<real>> points(const Conf& c, Rng& q) {
  std::vector<std::vector<real>> pts;
  int np = q.chance(0.1) ? (int)q.in(300, 3000) : (int)q.in(1, 40);
  for (int k = 0; k < np; ++k) {
    std::vector<real> x;
    for (int d = 0; d < c.D; ++d) {
      int lv = (int)q.in(c.lmin[(size_t)d], c.lmax[(size_t)d]);
      switch (q.in(0, 4)) {
        case 0: x.push_back((double)q.in(0, 1 << lv) / (1 << lv)); break;
        case 1: x.push_back(q.chance(0.5) ? 0. : 1.); break;
        default: x.push_back(q.unit());
      }
    }
    pts.push_back(x);
  }
  return pts;
}

static void managerSide(const Conf& c, const Plan& pl, Ref& ref, std::vector<double>& returns, std::map<size_t, int>& owner, int& diags) {
  ProcessGroupManagerContainer<> pgroups;
  for (int i = 0; i < c.ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
  std::unique_ptr<LoadModel> lm(new LinearLoadModel());
  TaskContainer<> tasks;
  std::vector<LevelVector> lv;
  for (size_t t = 0; t < c.levels.size(); ++t) {
    Task<>* k = new MTask(toLV(c.levels[t]), bOf(c), c.coeffs[t], lm.get());
    k->setID(c.ids[t]);
    tasks.push_back(k);
    lv.push_back(toLV(c.levels[t]));
  }
  CombiParameters p((DimType)c.D, toLV(c.lmin), toLV(c.lmax), bOf(c), lv, std::vector<real>(c.coeffs.begin(), c.coeffs.end()), c.ids, 3,
                    (IndexType)c.numGrids, variantOf(c.variant), c.procs, LevelVector(0), toLV(c.reduce), (uint32_t)c.chunk, c.forward);
  p.setDecomposition(c.decomp);
  std::vector<BasisFunctionBasis*> bs;
  for (int b : c.basis) bs.push_back(makeBasis(b));
  p.setHierarchicalBases(bs);
  std::map<LevelVector, int> assigned;
  ProcessManager<> m(pgroups, tasks, p, std::move(lm), std::unique_ptr<TaskRescheduler>(new RandomRescheduler(pl.seed, c.ngroup, &assigned)));
  if (pl.lateInit) {
    CHK(m.runfirst(false), "mgr.runfirst", "runfirst reports failure");
    returns.push_back(now());
    m.initDsgus();
  } else {
    CHK(m.runfirst(), "mgr.runfirst", "runfirst reports failure");
    returns.push_back(now());
  }
  ref.run();
  Rng q(pl.seed * 3 + 1);
  int nev = 0;
  size_t nup = 1, nf = 0;
  for (int o : pl.ops) {
    vh::count(std::string("op_") + opName[o]);
    switch (o) {
      case COMB: m.combine(); ref.combine(pl.coeffs.empty() ? nullptr : &pl.coeffs[nup - 1]); break;
      case RUNN:
        CHK(m.runnext(), "mgr.runnext", "runnext reports failure");
        returns.push_back(now());
        ref.run();
        break;
      case INTERP: {
        auto pts = points(c, q);
        auto vals = m.interpolateValues(pts);
        CHK(vals.size() == pts.size(), "mgr.interpolate", vals.size() << " values for " << pts.size() << " points");
        for (size_t k = 0; k < std::min(vals.size(), pts.size()); ++k) {
          double e = ref.interp(pts[k]);
          CHK(std::abs(vals[k] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "mgr.interpolate", "at " << vh::vstr(pts[k]) << " is " << vals[k] << " should be " << e);
        }
        break;
      }
      case NORMS:
      case NORM: {
        auto maxNorm = [&](size_t t) { double mx = 0; for (double v : ref.u[0][t]) mx = std::max(mx, std::abs(v)); return mx; };
        if (o == NORMS) {
          int pn = (int)q.in(0, 2);
          auto n = m.getLpNorms(pn);
          CHK(n.size() == c.levels.size(), "mgr.norms", n.size() << " norms");
          for (size_t t = 0; t < c.levels.size(); ++t) {
            CHK(n.count(c.ids[t]), "mgr.norms", "no norm of task " << c.ids[t]);
            if (pn == 0) CHK(std::abs(n[c.ids[t]] - maxNorm(t)) <= 1e-10 * ref.scale, "mgr.norms", "max norm of task " << c.ids[t] << " is " << n[c.ids[t]] << " should be " << maxNorm(t));
          }
        } else {
          double e = 0;
          for (size_t t = 0; t < c.levels.size(); ++t) e += c.coeffs[t] * maxNorm(t);
          double a = m.getLpNorm(0);
          CHK(std::abs(a - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "mgr.norm", "combined max norm is " << a << " should be " << e);
        }
        break;
      }
      case DIAG: {
        size_t t = (size_t)q.in(0, (long)c.levels.size() - 1);
        m.doDiagnostics(c.ids[t]);
        ++diags;
        break;
      }
      case UPDP: m.updateCombiParameters(); ++nup; break;
      case RESTORE: m.restoreCombischeme(); ++nup; break;
      case FAULT: {
        auto f = pl.faults[nf];
        std::vector<size_t> redist, recomp;
        m.recomputeOptimumCoefficients("p", f, redist, recomp);
        std::vector<size_t> e = pl.recomp[nf], all = pl.faults[nf], got = redist;
        std::sort(recomp.begin(), recomp.end());
        std::sort(e.begin(), e.end());
        CHK(recomp == e, "mgr.fault", "tasks to recompute " << vh::vstr(recomp) << " should be " << vh::vstr(e));
        got.insert(got.end(), recomp.begin(), recomp.end());
        std::sort(got.begin(), got.end());
        std::sort(all.begin(), all.end());
        if (!got.empty()) CHK(got == all, "mgr.fault", "of the lost tasks " << vh::vstr(all) << " are restored " << vh::vstr(got));
        m.updateCombiParameters();
        ++nup; ++nf;
        break;
      }
      case RESCHED: m.reschedule(); break;
      case EVALG: {
        LevelVector le;
        for (int d = 0; d < c.D; ++d) le.push_back((LevelType)q.in(c.lmin[(size_t)d], c.lmax[(size_t)d]));
        int g = (int)q.in(0, c.ngroup - 1);
        std::string fn = "mgr" + std::to_string(nev) + ".raw", f0 = "mgr" + std::to_string(nev) + "_0.raw";
        ++nev;
        m.parallelEval(le, fn, (size_t)g);
        std::ifstream in(f0, std::ios::binary);
        std::stringstream b;
        b << in.rdbuf();
        IV l = toIV(le), sh = vh::shape(l, c.b);
        CHK(b.str().size() == sizeof(double) * (size_t)vh::total(sh), "mgr.eval", "file for level " << vh::vstr(l) << " has " << b.str().size() << " bytes");
        if (b.str().size() == sizeof(double) * (size_t)vh::total(sh)) {
          std::vector<double> v((size_t)vh::total(sh));
          memcpy(v.data(), b.str().data(), v.size() * sizeof(double));
          for (size_t i = 0; i < v.size(); ++i) {
            IV idx = vh::unlin((long)i, sh);
            std::vector<double> x;
            for (size_t d = 0; d < idx.size(); ++d) x.push_back((double)(idx[d] + (c.b[d] == 0)) / (1 << l[d]));
            double e = ref.interp(x);
            CHK(std::abs(v[i] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "mgr.eval", "on level " << vh::vstr(l) << " at " << vh::vstr(x) << " is " << v[i] << " should be " << e);
          }
        }
        unlink(f0.c_str());
        unlink((f0 + "_header").c_str());
        break;
      }
      case MINMAX: {
        m.writeSparseGridMinMaxCoefficients("mgr_minmax");
        m.waitForAllGroupsToWait();
        for (int n = 0; n < c.numGrids; ++n) {
          // smallest and largest coefficient of every subspace of the combined solution
          std::map<std::string, std::pair<double, double>> e, a;
          for (size_t t = 0; t < c.levels.size(); ++t) {
            IV sh = vh::shape(c.levels[t], c.b);
            for (long i = 0; i < vh::total(sh); ++i) {
              IV idx = vh::unlin(i, sh), hl;
              for (size_t d = 0; d < idx.size(); ++d) hl.push_back(std::max(vh::hlevel1(idx[d], c.levels[t][d], c.b[d]), 1));
              auto it = ref.coef[(size_t)n].find(Ref::key(idx, c.levels[t], c.lmax, c.b));
              double v = it == ref.coef[(size_t)n].end() ? 0. : it->second;
              std::ostringstream k;
              k << toLV(hl);
              auto x = e.insert({k.str(), {v, v}});
              x.first->second.first = std::min(x.first->second.first, v);
              x.first->second.second = std::max(x.first->second.second, v);
            }
          }
          std::string fn = "mgr_minmax_" + std::to_string(n) + ".txt", line;
          std::ifstream in(fn);
          CHK(in.good(), "mgr.minmax", "no file " << fn);
          while (std::getline(in, line)) {
            auto p = line.find(" : ");
            double lo, hi;
            if (p == std::string::npos || sscanf(line.c_str() + p + 3, "%lf, %lf", &lo, &hi) != 2) { CHK(false, "mgr.minmax", "line " << line); continue; }
            a[line.substr(0, p)] = {lo, hi};
          }
          for (auto& x : e) {
            CHK(a.count(x.first), "mgr.minmax", "no line for subspace " << x.first);
            if (!a.count(x.first)) continue;
            CHK(std::abs(a[x.first].first - x.second.first) <= 1e-5 * ref.scale && std::abs(a[x.first].second - x.second.second) <= 1e-5 * ref.scale, "mgr.minmax",
                "subspace " << x.first << " has " << a[x.first].first << ", " << a[x.first].second << " should be " << x.second.first << ", " << x.second.second);
          }
          CHK(a.size() == e.size(), "mgr.minmax", a.size() << " lines for " << e.size() << " subspaces");
          unlink(fn.c_str());
        }
        break;
      }
    }
    // the manager's books: every task in exactly one group
    std::map<size_t, int> seen;
    for (size_t g = 0; g < pgroups.size(); ++g)
      for (auto t : pgroups[g]->getTaskContainer()) seen[t->getID()]++;
    for (size_t t = 0; t < c.ids.size(); ++t)
      CHK(seen[c.ids[t]] == 1, "mgr.books", "after " << opName[o] << " task " << c.ids[t] << " is in " << seen[c.ids[t]] << " groups");
    CHK(seen.size() == c.ids.size(), "mgr.books", "after " << opName[o] << " " << seen.size() << " tasks");
    if (o == RESCHED)
      for (size_t g = 0; g < pgroups.size(); ++g)
        for (auto t : pgroups[g]->getTaskContainer())
          CHK(assigned[t->getLevelVector()] == (int)g, "mgr.resched", "task " << t->getID() << " is in group " << g << " instead of " << assigned[t->getLevelVector()]);
  }
  for (size_t g = 0; g < pgroups.size(); ++g)
    for (auto t : pgroups[g]->getTaskContainer()) owner[t->getID()] = (int)g;
  m.exit();
  // tasks are owned by the user
  for (auto& g : pgroups) for (auto t : g->getTaskContainer()) delete t;
}

static void workerSide(const Conf& c, const Plan& pl, Ref& ref) {
  ProcessGroupWorker<> w;
  ref.run();
  SignalType sig = -1;
  int nsig = 0;
  size_t nup = 0, pos = 0;
  int runs = 0, planned = 0;
  while (sig != EXIT) {
    sig = w.wait();
    if (getenv("VH_DEBUG")) fprintf(stderr, "signal %d done, %zu tasks\n", (int)sig, w.getTasks().size());
    ++nsig;
    vh::count("signals");
    if (sig == EXIT) break;
    // a group without tasks does not take part in running: catch up before combining
    if (sig == RUN_NEXT) { ref.run(); ++runs; }
    if (sig == COMBINE) {
      int before = 0;
      for (; pos < pl.ops.size() && pl.ops[pos] != COMB; ++pos) before += pl.ops[pos] == RUNN;
      ++pos;
      for (planned += before; runs < planned; ++runs) ref.run();
    }
    if (sig == UPDATE_COMBI_PARAMETERS) ++nup;
    if (sig == COMBINE) ref.combine(pl.coeffs.empty() ? nullptr : &pl.coeffs[nup - 1]);
    compareTasks(w, ref, "mgr.value", "after signal " + std::to_string(sig) + " (number " + std::to_string(nsig) + ")");
  }
}

static void opsCase(const Conf& c, const Plan& pl) {
  MPI_Comm comm = firstRanks(c.ngroup * c.nprocs + 1);
  if (comm == MPI_COMM_NULL) return;
  combigrid::Stats::initialize();
  theMPISystem()->initWorldReusable(comm, (size_t)c.ngroup, (size_t)c.nprocs, true);
  current() = &c;
  events().clear();
  runLog.clear();
  maxDelay = pl.delay;
  delaySeed = pl.seed;
  int size;
  MPI_Comm_size(comm, &size);
  std::vector<double> returns;
  std::map<size_t, int> owner;
  int diags = 0;
  {
    Ref ref(c);
    bool mgr = false;
    WORLD_MANAGER_EXCLUSIVE_SECTION { mgr = true; }
    if (mgr) managerSide(c, pl, ref, returns, owner, diags);
    else workerSide(c, pl, ref);
  }
  // ledger of all runs, gathered at the manager (highest rank)
  int n = (int)runLog.size() * 5, root = size - 1;
  std::vector<int> len((size_t)size), off((size_t)size);
  MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, root, comm);
  int tot = 0;
  for (int i = 0; i < size; ++i) { off[(size_t)i] = tot; tot += vh::st().rank == root ? len[(size_t)i] : 0; }
  std::vector<double> all((size_t)tot);
  MPI_Gatherv(runLog.data(), n, MPI_DOUBLE, all.data(), len.data(), off.data(), MPI_DOUBLE, root, comm);
  std::vector<int> dg(c.ids.size(), 0), dgs(c.ids.size(), 0);
  for (size_t t = 0; t < c.ids.size(); ++t) dg[t] = events().diags.count(c.ids[t]) ? events().diags[c.ids[t]] : 0;
  MPI_Reduce(dg.data(), dgs.data(), (int)dg.size(), MPI_INT, MPI_SUM, root, comm);
  if (vh::st().rank == root) {
    std::map<std::pair<int, int>, std::map<int, int>> seen;  // (id, step) -> group -> processes
    std::map<int, double> endOf;
    std::vector<std::pair<double, std::string>> order;
    for (int i = 0; i + 4 < tot; i += 5) {
      const double* e = &all[(size_t)i];
      seen[{(int)e[0], (int)e[1]}][(int)e[4]]++;
      endOf[(int)e[1]] = std::max(endOf[(int)e[1]], e[3]);
      order.push_back({e[2], std::to_string((int)e[0]) + "@" + std::to_string((int)e[4])});
      vh::count("run_events");
    }
    int steps = 1;
    for (int o : pl.ops) steps += o == RUNN;
    for (size_t t = 0; t < c.ids.size(); ++t)
      for (int s = 1; s <= steps; ++s) {
        auto& x = seen[{(int)c.ids[t], s}];
        CHK(x.size() == 1, "mgr.once", "task " << c.ids[t] << " step " << s << " was run in " << x.size() << " groups");
        if (x.size() == 1) CHK(x.begin()->second == c.nprocs, "mgr.once", "task " << c.ids[t] << " step " << s << " was run by " << x.begin()->second << " of " << c.nprocs << " processes");
      }
    CHK((int)seen.size() == steps * (int)c.ids.size(), "mgr.once", seen.size() << " task steps were run, should be " << steps * (int)c.ids.size());
    CHK((int)returns.size() == steps, "mgr.once", "steps");
    for (int s = 1; s <= steps && s <= (int)returns.size(); ++s)
      CHK(endOf[s] <= returns[(size_t)s - 1], "mgr.early", "step " << s << " was reported complete " << endOf[s] - returns[(size_t)s - 1] << " s before the last task was done");
    for (size_t t = 0; t < c.ids.size(); ++t) {
      int r = events().recvDiags.count(c.ids[t]) ? events().recvDiags[c.ids[t]] : 0;
      CHK(dgs[t] == r * c.nprocs, "mgr.diag", "diagnostics of task " << c.ids[t] << " on " << dgs[t] << " processes, received " << r);
    }
    std::sort(order.begin(), order.end());
    std::string sig;
    for (auto& x : order) sig += x.second + ";";
    vh::distinct(vh::strSig(sig));
    vh::count("schedules");
  }
  combigrid::Stats::finalize();
  MPI_Barrier(comm);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  glp_term_out(GLP_OFF);
  auto& s = vh::st();
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    GenOpt o;
    o.maxProcs = 7; o.maxGroups = 7; o.maxPts = 3000; o.bigCases = false;
    bool resched = s.suite == "resched" || r.chance(0.3);
    bool one = r.chance(0.8);
    o.multiGrid = !one;
    o.reduction = false;
    if (resched) o.variants = false;
    if (s.suite == "resched") o.minGroups = 2;
    Conf c = gen(r, o);
    Plan pl;
    pl.seed = r.next();
    pl.delay = r.chance(0.7) ? (int)r.in(100, 3000) : 0;
    pl.lateInit = r.chance(0.2);
    bool hat = true;
    for (int b : c.basis) hat = hat && (b == vh::HAT || b == vh::HATP);
    bool combined = false;
    int n = (int)r.in(1, 10);
    for (int k = 0; k < n; ++k) {
      int op = (int)r.in(0, NOPS - 1);
      if (s.suite == "resched" && r.chance(0.5)) op = r.chance(0.5) ? RESCHED : r.chance(0.5) ? RUNN : COMB;
      if (op == INTERP && c.numGrids > 1) op = COMB;
      if (op == RESCHED && (!combined || !resched)) op = COMB;  // moved tasks get the combined solution
      if (op == EVALG && (!combined || !hat || !c.schemeCoeffs || c.variant != 0 || c.numGrids > 1)) op = RUNN;

      if (op == MINMAX && (!combined || c.variant == 3)) op = COMB;  // needs the sparse grid data
      if (op == COMB) combined = true;
      if (op == RUNN) combined = false;
      pl.ops.push_back(op);
    }
    if (s.suite == "fault") {
      c.variant = 0;  // lost tasks are restored from the sparse grid data, as moved ones are
      // fault tolerant scheme with the same range of levels in all dimensions
      int k = c.D == 1 ? (int)r.in(1, 3) : c.D <= 3 ? (int)r.in(1, 2) : 1;
      for (int d = 0; d < c.D; ++d) c.lmax[(size_t)d] = c.lmin[(size_t)d] + k;
      for (size_t d = 0; d < (size_t)c.D; ++d) {
        c.decomp[d].clear();
        for (int x : vh::randCuts(r, vh::npts(c.lmin[d], c.b[d]), c.procs[d])) {
          int off = c.b[d] == 0 ? 1 : 0;
          c.decomp[d].push_back(x == 0 ? 0 : (x + off) * (1 << k) - off);
        }
      }
      CombiMinMaxScheme sch((DimType)c.D, toLV(c.lmin), toLV(c.lmax));
      sch.createAdaptiveCombischeme();
      sch.makeFaultTolerant();
      auto grids = sch.getCombiSpaces();
      auto co = sch.getCoeffs();
      CombigridDict dict;
      c.levels.clear(); c.coeffs.clear(); c.ids.clear(); c.group.clear();
      for (size_t t = 0; t < grids.size(); ++t) {
        c.levels.push_back(toIV(grids[t]));
        c.coeffs.push_back((double)co[t]);
        c.ids.push_back(t);
        c.group.push_back(0);
        dict[grids[t]] = co[t];
      }
      if (r.chance(0.5)) { size_t b0 = (size_t)r.in(1, 50); for (auto& x : c.ids) x = x * 3 + b0; }
      r.shuffle(c.ids);
      c.schemeCoeffs = true;
      c.ngroup = (int)std::min<size_t>((size_t)c.ngroup, c.levels.size());
      pl.ops.clear();
      pl.coeffs.push_back(c.coeffs);  // the manager sends the parameters when it is made
      std::vector<double> cur = c.coeffs;
      int m = (int)r.in(2, 8);
      bool lossy = false;  // the next losses come after the scheme is restored, as in the examples
      for (int q = 0; q < m; ++q) {
        int op = r.pick(IV{COMB, COMB, RUNN, FAULT, FAULT, RESTORE, UPDP});
        if (op == FAULT && lossy) op = RESTORE;
        if (op == FAULT) {
          std::vector<size_t> f, rec;
          LevelVectorList fl, rl;
          for (size_t t = 0; t < grids.size(); ++t) if (r.chance(0.15)) { f.push_back(c.ids[t]); fl.push_back(grids[t]); }
          if (f.empty() || f.size() == grids.size()) op = COMB;
          else {
            lossy = true;
            LP_OPT_INTERP lp({toLV(c.lmin), toLV(c.lmax)}, c.D, GLP_MAX, dict, fl);
            if (lp.getNumFaults() != 0) {
              lp.init_opti_prob("q");
              lp.set_constr_matrix();
              lp.solve_opti_problem();
              dict = lp.get_results(rl);
              for (size_t t = 0; t < grids.size(); ++t) cur[t] = dict[grids[t]];
              for (auto& l : rl) rec.push_back(c.ids[(size_t)(std::find(grids.begin(), grids.end(), l) - grids.begin())]);
            }
            pl.faults.push_back(f);
            pl.recomp.push_back(rec);
            vh::count("losses", (long long)f.size());
          }
        }
        if (op == RESTORE) {
          lossy = false;
          cur = c.coeffs;
          for (size_t t = 0; t < grids.size(); ++t) dict[grids[t]] = co[t];
        }
        if (op == RESTORE || op == FAULT || op == UPDP) pl.coeffs.push_back(cur);
        pl.ops.push_back(op);
        if (op == FAULT || op == RESTORE) pl.ops.push_back(COMB);
      }
    }
    std::string d = pl.desc() + " " + c.desc();
    vh::caseBegin(i, d);
    vh::distinct(vh::strSig(d));
    vh::count("cases");
    if (s.rank == 0) vh::sample(d);
    vh::guarded([&]() { opsCase(c, pl); });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
