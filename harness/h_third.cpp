// Several systems (own communicators, own managers-less workers) that exchange their conjoint sparse
// grids through files; suite file.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <filesystem>
#include <fstream>
#include <set>
#include <thread>

#include "hc.hpp"
#include "iomon.hpp"
#include "utils/BoostExports.hpp"
BOOST_CLASS_EXPORT(hc::VTask)

using namespace hc;
#define CHK(cond, key, msg) \
  do { vh::count("checks"); if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); } } while (0)

struct Third {
  int S = 2, parts = 1, steps = 1, names = 0, maxDelay = 0;
  IV first;  // first group of each system, and the end
  bool courier = false, overwriteOwn = false, pauses = false, keep = false, onlyWrite = false;
  std::string desc() const {
    std::ostringstream o;
    o << "systems=" << S << " groups from " << vh::vstr(first) << " parts=" << parts << " steps=" << steps << " names=" << names << " delay=" << maxDelay
      << (courier ? " courier" : "") << (overwriteOwn ? " own file" : "") << (pauses ? " pauses" : "") << (keep ? " keep" : "");
    return o.str();
  }
};

// file names: unrelated, one the prefix of the other, or one the suffix of the other
static std::string fname(const Third& t, const std::string& kind, int sys, int step) {
  static const char* n[3][3] = {{"sys0", "sys1", "sys2"}, {"a", "aa", "aaa"}, {"a", "ba", "cba"}};
  std::string s = n[t.names][sys];
  if (t.courier) s = "own" + std::to_string(sys);
  if (t.names == 2) return s + "vx_" + kind + (step < 0 ? "" : "_step_" + std::to_string(step));
  return "vx_" + kind + "_" + (step < 0 ? "" : "step_" + std::to_string(step) + "_") + s;
}

static std::string packEv(const std::vector<iomon::Ev>& v, int rank, int sys) {
  std::ostringstream o;
  o.precision(17);
  for (auto& e : v) o << e.t0 << ' ' << e.t1 << ' ' << e.kind << ' ' << rank << ' ' << sys << ' ' << e.path << '\n';
  return o.str();
}
struct GEv { double t0, t1; char kind; int rank, sys; std::string path; };
static std::vector<GEv> gatherEv(const std::string& mine) {
  auto& s = vh::st();
  int n = (int)mine.size(), np;
  MPI_Comm_size(MPI_COMM_WORLD, &np);
  std::vector<int> len((size_t)np), off((size_t)np);
  MPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0;
  for (int i = 0; i < np; ++i) { off[(size_t)i] = tot; tot += s.rank == 0 ? len[(size_t)i] : 0; }
  std::string all((size_t)tot, 0);
  MPI_Gatherv(mine.data(), n, MPI_CHAR, &all[0], len.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
  std::vector<GEv> r;
  std::istringstream in(all);
  GEv e;
  while (in >> e.t0 >> e.t1 >> e.kind >> e.rank >> e.sys >> e.path) r.push_back(e);
  std::sort(r.begin(), r.end(), [](const GEv& a, const GEv& b) { return a.t0 < b.t0; });
  return r;
}

// trace specification: token only after the content, no use before the token, no use after removal
static void checkTrace(const std::vector<GEv>& ev, const Third& t) {
  auto writerOf = [](const std::vector<const GEv*>& v) { for (auto e : v) { if (e->kind == 'c' || e->kind == 'w') return e->sys; if (e->kind == 'C') return -2; } return -1; };
  std::map<std::string, std::vector<const GEv*>> by;
  for (auto& e : ev) by[e.path].push_back(&e);
  for (auto& f : by) {
    const std::string& p = f.first;
    if (p.find("_token.txt") != std::string::npos) continue;
    // name of the token of this data file
    std::string tok;
    auto k = p.find("_0.part");
    if (p.find("vx_sizes") != std::string::npos) tok = p + "_token.txt";
    else if (k != std::string::npos) tok = p.substr(0, k) + "_token.txt" + p.substr(k + 2);
    else continue;
    int owner = writerOf(f.second);
    auto it = by.find(tok);
    double made = -1;
    if (it != by.end()) for (auto e : it->second) if ((e->kind == 'c' || e->kind == 'C') && made < 0) made = e->t0;
    double lastWrite = -1;
    int nw = 0, nr = 0;
    for (auto e : f.second) {
      if (e->kind == 'w' || e->kind == 'W') { lastWrite = std::max(lastWrite, e->t1); ++nw; }
      if ((e->kind == 'r' || e->kind == 'o') && e->sys != owner) {
        ++nr;
        CHK(made >= 0 && e->t0 >= made, "third.early", "system " << e->sys << " uses " << p << " before token " << tok);
      }
    }
    CHK(made >= 0, "third.token", "no token " << tok << " for " << p);
    CHK(made < 0 || lastWrite <= made, "third.order", "token " << tok << " is visible " << (lastWrite - made) << " s before the content of " << p << " is complete");
    vh::count("files_written");
    vh::count("file_events", nw + nr);
    vh::count("token_ordering_checks");
  }
  // interleaving observed: order in which systems complete their tokens and start reading
  std::string sig;
  for (auto& e : ev)
    if (e.path.find("_token.txt") != std::string::npos && (e.kind == 'c' || e.kind == 'C' || e.kind == 'u')) sig += e.kind + std::to_string(e.sys) + ";";
  vh::distinct(vh::strSig(sig));
}

// carries complete files (those with a token) from each system's directory to the others, piece by piece
struct Courier {
  std::string root;
  int nsys, maxDelay;
  Rng r;
  std::atomic<bool> end{false};
  std::thread th;
  std::set<std::string> done;
  long carried = 0;
  Courier(const std::string& d, int n, int md, uint64_t seed) : root(d), nsys(n), maxDelay(md), r(seed) {
    th = std::thread([this]() { iomon::courier() = true; run(); });
  }
  ~Courier() { stop(); }
  void stop() { end = true; if (th.joinable()) th.join(); }
  void copy(const std::string& a, const std::string& b) {
    std::ifstream in(a, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string x = ss.str();
    FILE* f = fopen(b.c_str(), "wb");
    size_t cut = x.empty() ? 0 : (size_t)r.in(0, (int64_t)x.size());
    if (cut) { fwrite(x.data(), 1, cut, f); fflush(f); }
    if (maxDelay) iomon::us((long)r.in(0, maxDelay));
    if (cut < x.size()) { fwrite(x.data() + cut, 1, x.size() - cut, f); fflush(f); }
    fclose(f);
  }
  void run() {
    while (!end) {
      iomon::us(1000);
      std::vector<std::pair<int, std::string>> todo;
      for (int k = 0; k < nsys; ++k)
        for (auto& e : std::filesystem::directory_iterator(root + "/d" + std::to_string(k))) {
          std::string n = e.path().filename().string();
          if (n.find("_token.txt") == std::string::npos || n.find("own" + std::to_string(k)) == std::string::npos) continue;
          if (done.insert(n).second) todo.push_back({k, n});
        }
      r.shuffle(todo);
      for (auto& x : todo) {
        auto pos = x.second.find("_token.txt");
        std::string data = x.second.substr(0, pos) + (x.second.find("vx_sg") != std::string::npos ? "_0" : "") + x.second.substr(pos + 10);
        for (int k = 0; k < nsys; ++k) {
          if (k == x.first) continue;
          std::string from = root + "/d" + std::to_string(x.first) + "/", to = root + "/d" + std::to_string(k) + "/";
          copy(from + data, to + data);
          copy(from + x.second, to + x.second);
          ++carried;
        }
      }
    }
  }
};

static void fileCase(const Conf& c, const Third& t, Rng& r) {
  auto& s = vh::st();
  int sys = -1;
  int nsys = (int)t.first.size() - 1;
  for (int k = 0; k < nsys; ++k)
    if (s.rank >= t.first[(size_t)k] * c.nprocs && s.rank < t.first[(size_t)k + 1] * c.nprocs) sys = k;
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, sys < 0 ? MPI_UNDEFINED : sys, s.rank, &comm);
  uint64_t ds = r.next();
  std::string root = std::filesystem::current_path().string();
  if (t.courier) {
    if (s.rank == 0) for (int k = 0; k < nsys; ++k) std::filesystem::create_directories("d" + std::to_string(k));
    MPI_Barrier(MPI_COMM_WORLD);
    if (sys >= 0) std::filesystem::current_path("d" + std::to_string(sys));
  }
  std::unique_ptr<Courier> courier;
  if (sys >= 0) {
    Rng q(vh::mix(ds, (uint64_t)s.rank));
    Rng q0(ds);
    combigrid::Stats::initialize();
    int ng = t.first[(size_t)sys + 1] - t.first[(size_t)sys];
    theMPISystem()->initWorldReusable(comm, (size_t)ng, (size_t)c.nprocs, false);
    if (t.parts > 1 || q0.chance(0.5)) theMPISystem()->initOutputGroupComm((uint16_t)t.parts);
    current() = &c;
    events().clear();
    iomon::start(t.courier ? "d" + std::to_string(sys) + "/" : "", "vx_", (unsigned)ds + (unsigned)s.rank * 77u, t.maxDelay, 40);
    if (t.courier && s.rank == 0) courier = std::make_unique<Courier>(root, nsys, t.maxDelay, ds);
    auto pause = [&]() { if (t.pauses && q.chance(0.4)) iomon::us((long)q.in(0, 15000)); };
    {
      LinearLoadModel lm;
      ProcessGroupWorker<> w;
      w.setCombiParameters(paramsOf(c));
      std::vector<LevelVector> l;
      std::vector<real> co;
      std::vector<size_t> ids;
      int g = t.first[(size_t)sys] + (int)theMPISystem()->getProcessGroupNumber();
      myTasks(c, g, l, co, ids);
      w.initializeAllTasks<VTask>(l, co, ids, &lm);
      w.initCombinedDSGVector();
      std::vector<std::string> rf, rt;
      for (int k = 0; k < nsys; ++k)
        if (k != sys || t.overwriteOwn) { rf.push_back(fname(t, "sizes", k, -1)); rt.push_back(rf.back() + "_token.txt"); }
      std::string own = fname(t, "sizes", sys, -1);
      pause();
      w.reduceExtraSubspaceSizesFileBased(own, own + "_token.txt", rf, rt);
      Ref ref(c);
      for (int st = 0; st < t.steps; ++st) {
        pause();
        w.runAllTasks();
        ref.run();
        own = fname(t, "sg", sys, st);
        rf.clear();
        rt.clear();
        for (int k = 0; k < nsys; ++k)
          if (k != sys || t.overwriteOwn) { rf.push_back(fname(t, "sg", k, st)); rt.push_back(rf.back() + "_token.txt"); }
        w.combineSystemWideAndWrite(own, own + "_token.txt");
        // one system may be much later than the others
        if (t.pauses && (vh::mix(ds, (uint64_t)(st * 10)) % 3) == (uint64_t)sys) iomon::us(40000);
        pause();
        w.combineReadDistributeSystemWide(rf, rt, t.overwriteOwn, t.keep);
        ref.combine();
        compareTasks(w, ref, "third.value", "system " + std::to_string(sys) + " after combination " + std::to_string(st));
        vh::count("exchanges");
        vh::count("exchanges_variant" + std::to_string(c.variant));
      }
      CHK((int)w.getCurrentNumberOfCombinations() == t.steps, "third.count", "number of combinations is " << w.getCurrentNumberOfCombinations());
      w.exit();
    }
    combigrid::Stats::finalize();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  if (courier) { courier->stop(); vh::count("files_carried", courier->carried); }
  std::filesystem::current_path(root);
  std::string mine = packEv(iomon::stop(), s.rank, sys);
  MPI_Barrier(MPI_COMM_WORLD);
  auto ev = gatherEv(mine);
  if (s.rank == 0) {
    checkTrace(ev, t);
    int left = 0;
    std::string ex;
    std::vector<std::string> rm;
    for (auto& e : std::filesystem::recursive_directory_iterator(".")) {
      std::string n = e.path().filename().string();
      if (n.find("vx_") == std::string::npos) continue;
      rm.push_back(e.path().string());
      // files of a system stay in its own directory
      auto o = n.find("own");
      if (o != std::string::npos && e.path().parent_path().filename().string() == "d" + n.substr(o + 3, 1)) continue;
      if (n.find("vx_sg") != std::string::npos) { bool tok = n.find("_token.txt") != std::string::npos; if (tok || !t.keep) { ++left; ex = n; } }
    }
    for (auto& n : rm) std::remove(n.c_str());
    CHK(left == 0, "third.left", left << " files were read but not removed, like " << ex);
  }
  if (sys >= 0) {
    // communicators of the old layout are released by the next initialization
    static std::vector<MPI_Comm> old;
    old.push_back(comm);
  }
  MPI_Barrier(MPI_COMM_WORLD);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  if (s.rank == 0) {  // left by an earlier run that was ended
    std::vector<std::string> rm;
    for (auto& e : std::filesystem::recursive_directory_iterator("."))
      if (e.path().filename().string().find("vx_s") != std::string::npos) rm.push_back(e.path().string());
    for (auto& n : rm) std::remove(n.c_str());
  }
  MPI_Barrier(MPI_COMM_WORLD);
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    GenOpt o;
    o.multiGrid = false;
    o.bigCases = false;
    o.maxPts = 8000;
    o.minGroups = 2;
    o.minTasks = 3;
    Conf c = gen(r, o);
    if (c.variant == 1) c.variant = (int)r.pick(IV{0, 2, 3});
    Third t;
    t.S = c.ngroup >= 3 && r.chance(0.4) ? 3 : 2;
    t.overwriteOwn = r.chance(0.12);
    t.first = {0};
    if (!t.overwriteOwn) {
      if (t.S == 2) t.first.push_back((int)r.in(1, c.ngroup - 1));
      else { int a = (int)r.in(1, c.ngroup - 2); t.first.push_back(a); t.first.push_back((int)r.in(a + 1, c.ngroup - 1)); }
    } else t.S = 1;
    t.first.push_back(c.ngroup);
    IV div;
    for (int k = 1; k <= c.nprocs; ++k) if (c.nprocs % k == 0) div.push_back(k);
    t.parts = r.pick(div);
    t.steps = (int)r.in(1, 3);
    t.names = (int)r.in(0, 2);
    t.maxDelay = r.chance(0.6) ? (int)r.pick(IV{500, 3000, 10000}) : 0;
    t.pauses = r.chance(0.5);
    t.keep = r.chance(0.2);
    t.courier = !t.overwriteOwn && (t.S == 3 || r.chance(0.5));
    std::string d = t.desc() + " " + c.desc();
    vh::caseBegin(i, d);
    vh::distinct(vh::strSig(d));
    vh::count("cases");
    vh::count("cases_systems" + std::to_string(t.S));
    vh::count("cases_parts" + std::to_string(t.parts));
    if (s.rank == 0) vh::sample(d);
    vh::guarded([&]() { fileCase(c, t, r); });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
