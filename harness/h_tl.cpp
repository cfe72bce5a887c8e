// Two systems, each with a manager and its groups, connected by the real broker: suite tl.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <filesystem>
#include <fstream>

#include "broker.hpp"
#include "hc.hpp"
#include "iomon.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessManager.hpp"
#include "utils/BoostExports.hpp"
using namespace hc;

#define CHK(cond, key, msg) \
  do { vh::count("checks"); if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); } } while (0)

extern "C" void fragSet(uint64_t seed, int mode);
extern "C" uint64_t fragSplits();
static int maxDelay = 0;
static uint64_t delaySeed = 1;

class DTask : public VTask {
 public:
  DTask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* lm) : VTask(l, b, c, lm) {}
  void run(CommunicatorType comm) override {
    Rng r(vh::mix(delaySeed, (uint64_t)getID() * 31 + (uint64_t)step() * 1009 + (uint64_t)vh::st().rank * 17));
    if (maxDelay && r.chance(0.5)) iomon::us((long)r.in(0, maxDelay));
    VTask::run(comm);
  }
 private:
  DTask() : VTask() {}
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<VTask>(*this); }
};
BOOST_CLASS_EXPORT(hc::VTask)
BOOST_CLASS_EXPORT(DTask)

enum Op { RUNN, TCP, FWRITE_READ, FBOTH, MC, INTERP, LOCAL, NOPS };
static const char* opName[] = {"runnext", "combine3", "write+read", "file", "montecarlo", "interpolate", "combine local"};

struct Plan {
  std::vector<int> ops;
  IV first;                    // first group of each system, and the end
  int pg[2] = {0, 0};          // group that talks to the other system
  int delay = 0, mode = 0, brokerMode = 0, names = 0;
  size_t chunk = 131072;
  uint64_t seed = 1;
  bool extra = false;          // exchange only what both systems have
  std::string desc() const {
    std::ostringstream o;
    o << "ops=";
    for (int k : ops) o << opName[k] << ",";
    o << " groups from " << vh::vstr(first) << " exchange by group " << pg[0] << "," << pg[1] << " delay=" << delay << " fragments=" << mode << "," << brokerMode << " chunk=" << chunk << (extra ? " extra" : "");
    return o.str();
  }
};
static std::string fname(int sys, size_t k) { return "vt_sg_" + std::to_string(k) + "_of" + std::to_string(sys); }
static std::string tname(int sys, size_t k) { return "vt_token_" + std::to_string(k) + "_of" + std::to_string(sys); }

static void managerSide(const Conf& c, const Plan& pl, int sys, int port, Ref& ref) {
  int ng = pl.first[(size_t)sys + 1] - pl.first[(size_t)sys];
  ProcessGroupManagerContainer<> pgroups;
  for (int i = 0; i < ng; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<>>(i));
  std::unique_ptr<LoadModel> lm(new LinearLoadModel());
  TaskContainer<> tasks;
  std::vector<LevelVector> lv;
  std::vector<real> co;
  std::vector<size_t> ids, mine;
  for (size_t t = 0; t < c.levels.size(); ++t) {
    if (c.group[t] < pl.first[(size_t)sys] || c.group[t] >= pl.first[(size_t)sys + 1]) continue;
    Task<>* k = new DTask(toLV(c.levels[t]), bOf(c), c.coeffs[t], lm.get());
    k->setID(c.ids[t]);
    tasks.push_back(k);
    mine.push_back(t);
    lv.push_back(toLV(c.levels[t]));
    co.push_back(c.coeffs[t]);
    ids.push_back(c.ids[t]);
  }
  Rng q(vh::mix(pl.seed, (uint64_t)sys + 1));
  auto nap = [&]() { if (pl.delay && q.chance(0.4)) iomon::us((long)q.in(0, pl.delay * 3)); };
  CombiParameters p((DimType)c.D, toLV(c.lmin), toLV(c.lmax), bOf(c), lv, co, ids, 3, (IndexType)c.numGrids, variantOf(c.variant), c.procs,
                    LevelVector(0), toLV(c.reduce), (uint32_t)c.chunk, c.forward, "localhost", (unsigned short)port, (size_t)pl.pg[sys]);
  p.setDecomposition(c.decomp);
  std::vector<BasisFunctionBasis*> bs;
  for (int b : c.basis) bs.push_back(makeBasis(b));
  p.setHierarchicalBases(bs);
  nap();
  ProcessManager<> m(pgroups, tasks, p, std::move(lm));
  CHK(m.runfirst(), "tl.runfirst", "runfirst reports failure");
  ref.run();
  nap();
  size_t sz = m.unifySubspaceSizesThirdLevel(pl.extra), pts = 0;
  {
    std::set<IV> subs[2];  // hierarchical subspaces of each system
    std::map<uint64_t, IV> all;
    for (size_t t = 0; t < c.levels.size(); ++t) {
      IV sh = vh::shape(c.levels[t], c.b);
      for (long i = 0; i < vh::total(sh); ++i) {
        IV idx = vh::unlin(i, sh), hl;
        for (size_t d = 0; d < idx.size(); ++d) hl.push_back(std::max(vh::hlevel1(idx[d], c.levels[t][d], c.b[d]), 1));
        subs[c.group[t] >= pl.first[1]].insert(hl);
        all[Ref::key(idx, c.levels[t], c.lmax, c.b)] = hl;
      }
    }
    for (auto& x : all) pts += !pl.extra || (subs[0].count(x.second) && subs[1].count(x.second));
  }
  CHK(sz == pts, "tl.sizes", "unified sparse grid has " << sz << " points, should have " << pts);
  size_t k = 0;
  for (int o : pl.ops) {
    ++k;
    nap();
    vh::count(std::string("op_") + opName[o]);
    switch (o) {
      case RUNN: CHK(m.runnext(), "tl.runnext", "runnext reports failure"); ref.run(); break;
      case TCP: m.combineThirdLevel(); ref.combine(); break;
      case FWRITE_READ:
        m.combineThirdLevelFileBasedWrite(fname(sys, k), tname(sys, k));
        nap();
        m.combineThirdLevelFileBasedReadReduce(fname(1 - sys, k), tname(1 - sys, k));
        ref.combine();
        break;
      case FBOTH: m.combineThirdLevelFileBased(fname(sys, k), tname(sys, k), fname(1 - sys, k), tname(1 - sys, k)); ref.combine(); break;
      case MC: {
        std::vector<std::vector<real>> x;
        std::vector<CombiDataType> v;
        size_t n = pl.seed % 5 == 0 ? 2000 : 20;  // the same on both systems
        m.monteCarloThirdLevel(n, x, v);
        CHK(x.size() == n && v.size() == n, "tl.mc", x.size() << " coordinates, " << v.size() << " values of " << n);
        for (size_t i = 0; i < std::min(x.size(), v.size()); ++i) {
          double e = ref.interp(x[i]);
          CHK(std::abs(v[i] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "tl.mc", "at " << vh::vstr(x[i]) << " is " << v[i] << " should be " << e);
        }
        break;
      }
      case INTERP: {
        std::vector<std::vector<real>> x;
        for (int i = (int)q.in(1, 20); i > 0; --i) {
          std::vector<real> y;
          for (int d = 0; d < c.D; ++d) y.push_back(q.unit());
          x.push_back(y);
        }
        auto v = m.interpolateValues(x);
        for (size_t i = 0; i < x.size(); ++i) {
          double e = 0;
          for (size_t t : mine) e += c.coeffs[t] * vh::interp(ref.u[0][t], c.levels[t], c.b, x[i]);
          CHK(std::abs(v[i] - e) <= 1e-10 * ref.scale * (double)c.levels.size(), "tl.interp", "at " << vh::vstr(x[i]) << " is " << v[i] << " should be " << e);
        }
        break;
      }
      default: break;
    }
  }
  nap();
  m.exit();
  for (auto& g : pgroups) for (auto t : g->getTaskContainer()) delete t;
}

static void workerSide(const Plan& pl, Ref& ref) {
  ProcessGroupWorker<> w;
  ref.run();
  SignalType sig = -1;
  int nsig = 0, runs = 0, planned = 0;
  size_t pos = 0;
  auto combineRef = [&]() {
    int before = 0;
    auto comb = [](int o) { return o == TCP || o == FWRITE_READ || o == FBOTH; };
    for (; pos < pl.ops.size() && !comb(pl.ops[pos]); ++pos) before += pl.ops[pos] == RUNN;
    ++pos;
    for (planned += before; runs < planned; ++runs) ref.run();
    ref.combine();
  };
  bool done = true;  // nodal values are those of the reference
  while (sig != EXIT) {
    sig = w.wait();
    ++nsig;
    vh::count("signals");
    if (getenv("VH_DEBUG")) fprintf(stderr, "%d: signal %d done\n", vh::st().rank, (int)sig);
    if (sig == EXIT) break;
    if (sig == RUN_NEXT) { ref.run(); ++runs; }
    if (sig == COMBINE_LOCAL_AND_GLOBAL) { done = false; continue; }
    if (sig == COMBINE_THIRD_LEVEL || sig == WAIT_FOR_TL_COMBI_RESULT || sig == COMBINE_READ_DSGS_AND_REDUCE || sig == COMBINE_THIRD_LEVEL_FILE) {
      combineRef();
      done = true;
      vh::count("exchanges");
    }
    if (done) compareTasks(w, ref, "tl.value", "after signal " + std::to_string(sig) + " (number " + std::to_string(nsig) + ")");
  }
}

static std::vector<std::string> clean() {
  std::vector<std::string> rm;
  for (auto& e : std::filesystem::directory_iterator(".")) if (e.path().filename().string().compare(0, 3, "vt_") == 0) rm.push_back(e.path().string());
  for (auto& n : rm) std::remove(n.c_str());
  return rm;
}

static void tlCase(const Conf& c, const Plan& pl, int idx) {
  auto& s = vh::st();
  int sys = -1, at = 0;
  for (int k = 0; k < 2; ++k) {
    int n = (pl.first[(size_t)k + 1] - pl.first[(size_t)k]) * c.nprocs + 1;
    if (s.rank >= at && s.rank < at + n) sys = k;
    at += n;
  }
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, sys < 0 ? MPI_UNDEFINED : sys, s.rank, &comm);
  Broker b;
  std::string dir = s.out + "/broker" + std::to_string(idx);
  int port = 0;
  if (s.rank == 0) {
    if (!b.start(s.opt["broker"], dir, pl.chunk, pl.seed, pl.brokerMode, pl.seed % 3 == 0)) CHK(false, "tl.broker", "did not start: " << b.text);
    port = b.port;
  }
  MPI_Bcast(&port, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (sys >= 0 && port > 0) {
    combigrid::Stats::initialize();
    int ng = pl.first[(size_t)sys + 1] - pl.first[(size_t)sys];
    theMPISystem()->initWorldReusable(comm, (size_t)ng, (size_t)c.nprocs, true);
    current() = &c;
    events().clear();
    maxDelay = pl.delay;
    delaySeed = pl.seed;
    fragSet(pl.seed + (uint64_t)s.rank, pl.mode);
    iomon::start("", "vt_", (unsigned)pl.seed + (unsigned)s.rank * 77u, pl.delay, 40);
    {
      Ref ref(c);
      bool mgr = false;
      WORLD_MANAGER_EXCLUSIVE_SECTION { mgr = true; }
      if (mgr) managerSide(c, pl, sys, port, ref);
      else workerSide(pl, ref);
    }
    fragSet(0, 0);
    // files are written under the names the manager was given, the token after the content
    bool files = false;
    for (size_t k = 0; k < pl.ops.size(); ++k) files = files || pl.ops[k] == FWRITE_READ || pl.ops[k] == FBOTH;
    auto ev = iomon::stop();
    for (auto& e : ev) {
      if (e.kind != 'c' && e.kind != 'C') continue;
      bool ok = false;
      std::string want;
      for (size_t k = 1; k <= pl.ops.size(); ++k)
        if (pl.ops[k - 1] == FWRITE_READ || pl.ops[k - 1] == FBOTH) {
          ok = ok || e.path == fname(sys, k) + "_0.part0" || e.path == tname(sys, k) + ".part0";
          want += " " + fname(sys, k) + "_0.part0 " + tname(sys, k) + ".part0";
        }
      vh::count("files_written");
      CHK(ok, "tl.name", "system " << sys << " writes file " << e.path << ", it was asked to write" << want);
    }
    combigrid::Stats::finalize();
    static std::vector<MPI_Comm> old;
    old.push_back(comm);
  }
  if (s.rank == 0) {
    if (port > 0) {
      int st = b.finish();
      CHK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "tl.end", "broker ended with " << (WIFSIGNALED(st) ? "signal " : "exit code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
      std::ifstream in(dir + "/stats.json");
      std::stringstream ss;
      ss << in.rdbuf();
      int nc = 0;
      for (int o : pl.ops) nc += o == TCP || o == FWRITE_READ || o == FBOTH;
      CHK(statOf(ss.str(), "numCombinations") == nc, "tl.stats", "broker counts " << statOf(ss.str(), "numCombinations") << " combinations instead of " << nc);
    }
    std::filesystem::remove_all(dir);
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (s.rank == 0) {
    auto rm = clean();
    CHK(rm.empty(), "tl.left", "file " << rm[0] << " was read but not removed");
  }
  MPI_Barrier(MPI_COMM_WORLD);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  if (s.rank == 0) clean();  // left by an earlier run that was ended
  MPI_Barrier(MPI_COMM_WORLD);
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    GenOpt o;
    o.multiGrid = false;
    o.reduction = false;
    o.bigCases = false;
    o.maxPts = 5000;
    o.maxProcs = vh::st().size - 2;
    o.minGroups = 2;
    o.minTasks = 3;
    if (r.chance(0.4)) o.maxGroups = 2;
    Conf c = gen(r, o);
    c.variant = 0;  // what the exchanging group has is complete
    Plan pl;
    pl.first = {0, (int)r.in(1, c.ngroup - 1), c.ngroup};
    bool single = true;  // the groups that exchange are also those that write files
    for (int k = 0; k < 2; ++k) {
      int ng = pl.first[(size_t)k + 1] - pl.first[(size_t)k];
      pl.pg[k] = (int)r.in(0, ng - 1);
      single = single && ng == 1;
    }
    pl.delay = r.chance(0.6) ? (int)r.pick(IV{300, 2000, 6000}) : 0;
    pl.mode = r.chance(0.5) ? 0 : (int)r.in(2, 4);
    pl.brokerMode = r.chance(0.5) ? 0 : (int)r.in(2, 4);
    pl.chunk = r.chance(0.5) ? 131072 : (size_t)r.in(16, 3000);
    pl.seed = r.next() >> 1;
    pl.extra = single && r.chance(0.6);  // only the group that writes files can keep them apart
    int n = (int)r.in(1, 7);
    for (int k = 0; k < n; ++k) {
      int op = r.pick(IV{RUNN, TCP, TCP, MC, INTERP, FWRITE_READ, FBOTH});
      if ((op == FWRITE_READ || op == FBOTH) && !(single && pl.extra)) op = TCP;
      pl.ops.push_back(op);
    }
    std::string d = pl.desc() + " " + c.desc();
    vh::caseBegin(i, d);
    vh::distinct(vh::strSig(d));
    vh::count("cases");
    if (s.rank == 0) vh::sample(d);
    vh::guarded([&]() { tlCase(c, pl, i); });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
