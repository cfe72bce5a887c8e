// Process layout (C15), timing records (C14), and transfer of parameters, tasks and grids (C16).
#define OMPI_SKIP_MPICXX 1
#include <boost/property_tree/ini_parser.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <chrono>
#include <fstream>
#include <numeric>
#include <thread>

#include "combicom/CombiCom.hpp"
#include "fault_tolerance/StaticFaults.hpp"
#include "fault_tolerance/WeibullFaults.hpp"
#include "hc.hpp"
#include "io/BroadcastParameters.hpp"
#include "utils/BoostExports.hpp"
#include "utils/MonteCarlo.hpp"
using namespace combigrid;
using namespace hc;
using vh::Rng;

#define CHK(cond, key, msg) \
  ([&]() -> bool { vh::count("checks"); if (cond) return true; std::ostringstream o_; o_ << msg; vh::fail(key, o_.str()); return false; }())

// ---------------------------------------------------------------- layout
static std::vector<int> membersOf(MPI_Comm c, MPI_Comm world) {
  std::vector<int> out;
  if (c == MPI_COMM_NULL) return out;
  MPI_Group g, w;
  MPI_Comm_group(c, &g);
  MPI_Comm_group(world, &w);
  int n;
  MPI_Group_size(g, &n);
  std::vector<int> in((size_t)n);
  std::iota(in.begin(), in.end(), 0);
  out.resize((size_t)n);
  MPI_Group_translate_ranks(g, n, in.data(), w, out.data());
  MPI_Group_free(&g);
  MPI_Group_free(&w);
  return out;
}
static std::vector<std::vector<int>> gatherAll(const std::vector<int>& v, MPI_Comm comm) {
  int n, me = (int)v.size();
  MPI_Comm_size(comm, &n);
  std::vector<int> cnt((size_t)n), dis((size_t)n);
  MPI_Allgather(&me, 1, MPI_INT, cnt.data(), 1, MPI_INT, comm);
  int tot = 0;
  for (int i = 0; i < n; ++i) { dis[(size_t)i] = tot; tot += cnt[(size_t)i]; }
  std::vector<int> all((size_t)std::max(tot, 1));
  MPI_Allgatherv(v.data(), me, MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, comm);
  std::vector<std::vector<int>> out;
  for (int i = 0; i < n; ++i) out.emplace_back(all.begin() + dis[(size_t)i], all.begin() + dis[(size_t)i] + cnt[(size_t)i]);
  return out;
}

static void checkLayout(MPI_Comm comm, int G, int P, bool mgr, int parts) {
  auto sys = theMPISystem();
  int W = G * P + (mgr ? 1 : 0);
  int me = sys->getWorldRank();
  int rr;
  MPI_Comm_rank(comm, &rr);
  CHK(me == rr, "layout.world", "world rank " << me << " instead of " << rr);
  CHK(sys->getWorldSize() == W, "layout.world", "world size " << sys->getWorldSize());
  CHK((int)sys->getNumGroups() == G && (int)sys->getNumProcs() == P, "layout.world", "groups and processes");
  bool isMgr = sys->isWorldManager();
  auto info = gatherAll({sys->getProcessGroupNumber(), isMgr ? -1 : sys->getLocalRank(), (int)isMgr, (int)sys->isProcessGroupMaster(),
                         isMgr ? -1 : sys->getGlobalReduceRank(), sys->getOutputGroupComm() != MPI_COMM_NULL, sys->getOutputGroupComm() != MPI_COMM_NULL ? sys->getOutputGroupRank() : -1,
                         isMgr ? -1 : sys->getOutputRankInGlobalReduceComm(), sys->getOutputGroupComm() != MPI_COMM_NULL ? sys->getFilePartNumber() : -1, sys->getManagerRankWorld()}, comm);
  auto local = gatherAll(isMgr ? std::vector<int>() : membersOf(sys->getLocalComm(), comm), comm);
  auto reduce = gatherAll(isMgr ? std::vector<int>() : membersOf(sys->getGlobalReduceComm(), comm), comm);
  auto global = gatherAll(membersOf(sys->getGlobalComm(), comm), comm);
  auto outg = gatherAll(membersOf(sys->getOutputGroupComm(), comm), comm);
  auto outc = gatherAll(sys->getOutputGroupComm() != MPI_COMM_NULL ? membersOf(sys->getOutputComm(), comm) : std::vector<int>(), comm);
  int nm = 0;
  for (auto& x : info) nm += x[2];
  CHK(nm == (mgr ? 1 : 0), "layout.manager", nm << " managers");
  if (isMgr) CHK(me == sys->getManagerRankWorld(), "layout.manager", "rank " << sys->getManagerRankWorld());
  for (auto& x : info) CHK(x[9] == (mgr ? W - 1 : MPI_PROC_NULL), "layout.manager", "manager rank in the world is " << x[9]);
  // groups: complete and disjoint, every local rank once
  std::map<std::pair<int, int>, int> at;
  for (int r = 0; r < W; ++r)
    if (!info[(size_t)r][2]) {
      int g = info[(size_t)r][0], l = info[(size_t)r][1];
      CHK(g >= 0 && g < G && l >= 0 && l < P, "layout.group", "rank " << r << " group " << g << " local rank " << l);
      CHK(at.emplace(std::make_pair(g, l), r).second, "layout.group", "two processes have rank " << l << " in group " << g);
    }
  CHK((int)at.size() == G * P, "layout.group", at.size() << " workers");
  if ((int)at.size() != G * P) return;
  std::vector<int> masters;
  for (int g = 0; g < G; ++g) {
    std::vector<int> e;
    for (int l = 0; l < P; ++l) e.push_back(at[{g, l}]);
    int nmaster = 0;
    for (int r : e) {
      CHK(local[(size_t)r] == e, "layout.local", "local communicator of rank " << r << " is " << vh::vstr(local[(size_t)r]) << " should be " << vh::vstr(e));
      nmaster += info[(size_t)r][3];
      if (info[(size_t)r][3]) masters.push_back(r);
    }
    CHK(nmaster == 1, "layout.master", nmaster << " masters in group " << g);
  }
  if (mgr) CHK(info[(size_t)W - 1][3] == 0, "layout.master", "the manager is a group master");
  // same sub-domain in all groups
  for (int l = 0; l < P; ++l) {
    std::vector<int> e;
    for (int g = 0; g < G; ++g) e.push_back(at[{g, l}]);
    int nout = 0;
    for (int g = 0; g < G; ++g) {
      int r = e[(size_t)g];
      CHK(reduce[(size_t)r] == e, "layout.reduce", "global reduce communicator of rank " << r << " is " << vh::vstr(reduce[(size_t)r]) << " should be " << vh::vstr(e));
      CHK(info[(size_t)r][4] == g, "layout.reduce", "global reduce rank of rank " << r << " is " << info[(size_t)r][4]);
      nout += info[(size_t)r][5];
      int o = info[(size_t)r][7];
      CHK(o >= 0 && o < G && info[(size_t)e[(size_t)std::min(std::max(o, 0), G - 1)]][5], "layout.output", "sub-domain " << l << ": rank " << o << " of the reduce communicator is not in the output group");
    }
    CHK(nout == 1, "layout.output", nout << " processes write sub-domain " << l);
  }
  // global communicator: masters and manager
  std::vector<int> eg = masters;
  if (mgr) eg.push_back(W - 1);
  for (int r = 0; r < W; ++r) {
    bool in = std::find(eg.begin(), eg.end(), r) != eg.end();
    CHK(global[(size_t)r] == (in ? eg : std::vector<int>()), "layout.global", "global communicator of rank " << r << " is " << vh::vstr(global[(size_t)r]));
  }
  // output group: ordered by sub-domain, split in file parts of equal size
  std::vector<int> eo((size_t)P, -1);
  for (int r = 0; r < W; ++r) if (info[(size_t)r][5] && info[(size_t)r][1] >= 0) eo[(size_t)info[(size_t)r][1]] = r;
  for (int r = 0; r < W; ++r) {
    if (!info[(size_t)r][5]) { CHK(outg[(size_t)r].empty(), "layout.output", "rank " << r); continue; }
    std::vector<int> so = outg[(size_t)r];
    CHK(so == eo, "layout.output", "output group of rank " << r << " is " << vh::vstr(so) << " should be " << vh::vstr(eo));
    int orank = info[(size_t)r][6], sz = P / parts;
    CHK(orank >= 0 && orank < P && eo[(size_t)std::min(std::max(orank, 0), P - 1)] == r, "layout.output", "output group rank " << orank << " of rank " << r);
    std::vector<int> ec(eo.begin() + orank / sz * sz, eo.begin() + orank / sz * sz + sz);
    CHK(outc[(size_t)r] == ec, "layout.output", "output communicator of rank " << r << " is " << vh::vstr(outc[(size_t)r]) << " should be " << vh::vstr(ec));
    CHK(info[(size_t)r][8] == orank / sz, "layout.output", "file part " << info[(size_t)r][8] << " of output rank " << orank);
  }
  // third level communicators
  std::vector<int> tl;
  for (auto& c : sys->getThirdLevelComms()) {
    auto m = membersOf(c, comm);
    tl.push_back((int)m.size());
    for (int x : m) tl.push_back(x);
  }
  auto tls = gatherAll(tl, comm);
  for (int r = 0; r < W; ++r) {
    std::vector<int> e;
    if (mgr)
      for (int g = 0; g < G; ++g) {
        if (r != W - 1 && info[(size_t)r][0] != g) continue;
        e.push_back(P + 1);
        for (int l = 0; l < P; ++l) e.push_back(at[{g, l}]);
        e.push_back(W - 1);
      }
    CHK(tls[(size_t)r] == e, "layout.thirdLevel", "third level communicators of rank " << r << " are " << vh::vstr(tls[(size_t)r]) << " should be " << vh::vstr(e));
  }
  if (mgr) CHK(sys->isThirdLevelManager() == isMgr, "layout.thirdLevel", "third level manager");
  // the communicators work
  if (!isMgr) {
    int v[2] = {me, me}, s[2];
    MPI_Allreduce(&v[0], &s[0], 1, MPI_INT, MPI_SUM, sys->getLocalComm());
    MPI_Allreduce(&v[1], &s[1], 1, MPI_INT, MPI_SUM, sys->getGlobalReduceComm());
    int e0 = 0, e1 = 0;
    for (int x : local[(size_t)me]) e0 += x;
    for (int x : reduce[(size_t)me]) e1 += x;
    CHK(s[0] == e0 && s[1] == e1, "layout.use", "sums over the communicators");
  }
  vh::count("layouts");
}

static void layoutCase(Rng& r, int world) {
  combigrid::Stats::initialize();
  int rounds = (int)r.in(1, 4);
  for (int k = 0; k < rounds; ++k) {
    bool mgr = r.chance(0.5);
    int G = (int)r.in(1, world - (mgr ? 1 : 0));
    int P = (int)r.in(1, (world - (mgr ? 1 : 0)) / G);
    MPI_Comm comm = firstRanks(G * P + (mgr ? 1 : 0));
    vh::distinct(vh::strSig("layout" + std::to_string(G) + "," + std::to_string(P) + "," + std::to_string(mgr)));
    bool wrong = r.chance(0.2);
    int dg = (int)r.in(1, 2);
    std::vector<int> div;
    for (int d = 1; d <= P; ++d) if (P % d == 0) div.push_back(d);
    std::vector<int> parts;
    for (int q = (int)r.in(0, 2); q > 0; --q) parts.push_back(r.pick(div));
    bool useCart = r.chance(0.3);
    if (comm == MPI_COMM_NULL) continue;
    if (wrong) {  // a number of processes that does not fit is rejected
      bool thrown = false;
      try { theMPISystem()->initWorldReusable(comm, (size_t)(G + dg), (size_t)P, mgr); } catch (std::invalid_argument&) { thrown = true; }
      CHK(thrown, "layout.reject", "layout with " << dg << " groups too many was accepted");
      vh::count("rejected");
    }
    theMPISystem()->initWorldReusable(comm, (size_t)G, (size_t)P, mgr);
    checkLayout(comm, G, P, mgr, 1);
    for (int q : parts) {
      theMPISystem()->initOutputGroupComm((uint16_t)q);
      checkLayout(comm, G, P, mgr, q);
    }
    if (useCart) {  // as the workers do when they get the parameters
      if (!theMPISystem()->isWorldManager()) {
        int dims[1] = {P}, per[1] = {0};
        MPI_Comm cart;
        MPI_Cart_create(theMPISystem()->getLocalComm(), 1, dims, per, 0, &cart);
        theMPISystem()->storeLocalComm(cart);
      }
      checkLayout(comm, G, P, mgr, parts.empty() ? 1 : parts.back());
    }
  }
  combigrid::Stats::finalize();
}

// ---------------------------------------------------------------- timing records
// strict JSON reader for objects, arrays, strings and integers that keeps duplicates
struct J {
  enum T { OBJ, ARR, STR, NUM } t = NUM;
  std::vector<std::pair<std::string, J>> o;
  std::vector<J> a;
  std::string s;
  long long n = 0;
  const J* get(const std::string& k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; }
};
struct JP {
  const std::string& d;
  size_t p = 0;
  explicit JP(const std::string& s) : d(s) {}
  [[noreturn]] void bad(const char* m) { throw std::runtime_error(std::string("JSON: ") + m + " at " + std::to_string(p)); }
  void ws() { while (p < d.size() && (d[p] == ' ' || d[p] == '\n' || d[p] == '\t' || d[p] == '\r')) ++p; }
  char peek() { ws(); if (p >= d.size()) bad("end"); return d[p]; }
  void eat(char c) { if (peek() != c) bad("unexpected character"); ++p; }
  std::string str() {
    eat('"');
    std::string o;
    while (true) {
      if (p >= d.size()) bad("unterminated string");
      unsigned char c = (unsigned char)d[p++];
      if (c == '"') return o;
      if (c < 0x20) bad("control character");
      if (c != '\\') { o += (char)c; continue; }
      if (p >= d.size()) bad("escape");
      char e = d[p++];
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'n': o += '\n'; break;
        case 't': o += '\t'; break;
        case 'r': o += '\r'; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'u': {
          int v = 0;
          for (int i = 0; i < 4; ++i) { if (p >= d.size() || !isxdigit((unsigned char)d[p])) bad("hex"); v = v * 16 + (isdigit((unsigned char)d[p]) ? d[p] - '0' : (d[p] | 32) - 'a' + 10); ++p; }
          if (v > 0x7f) bad("not expected");
          o += (char)v;
          break;
        }
        default: bad("escape");
      }
    }
  }
  J val() {
    J j;
    char c = peek();
    if (c == '{') {
      j.t = J::OBJ; ++p;
      if (peek() == '}') { ++p; return j; }
      while (true) {
        std::string k = str();
        eat(':');
        j.o.push_back({k, val()});
        if (peek() == ',') { ++p; continue; }
        eat('}');
        return j;
      }
    }
    if (c == '[') {
      j.t = J::ARR; ++p;
      if (peek() == ']') { ++p; return j; }
      while (true) {
        j.a.push_back(val());
        if (peek() == ',') { ++p; continue; }
        eat(']');
        return j;
      }
    }
    if (c == '"') { j.t = J::STR; j.s = str(); return j; }
    j.t = J::NUM;
    size_t b = p;
    if (d[p] == '-') ++p;
    while (p < d.size() && isdigit((unsigned char)d[p])) ++p;
    if (b == p) bad("number");
    j.n = std::stoll(d.substr(b, p - b));
    return j;
  }
  J doc() { J j = val(); ws(); if (p != d.size()) bad("text behind the end"); return j; }
};

using clk = std::chrono::high_resolution_clock;
struct Ev { long long s0, s1, e0, e1; bool done; };
static long long us(clk::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }

static std::string readFile(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

// events of all the files, per name, in the order of the files
static bool parseStats(const std::vector<std::string>& files, int rank, int nranks, const std::map<std::string, std::string>& attr, std::map<std::string, std::vector<std::pair<long long, long long>>>& ev) {
  for (auto& f : files) {
    std::string d = readFile(f);
    if (!CHK(!d.empty(), "stats.file", "no file " << f)) return false;
    J j;
    try { JP p(d); j = p.doc(); } catch (std::exception& e) {
      CHK(false, "stats.json", f << ": " << e.what());
      return false;
    }
    CHK(j.t == J::OBJ && (int)j.o.size() == nranks, "stats.json", f << " has " << j.o.size() << " processes");
    for (int r = 0; r < nranks; ++r) {
      int cnt = 0;
      for (auto& x : j.o) cnt += x.first == "rank" + std::to_string(r);
      CHK(cnt == 1, "stats.json", f << " has rank" << r << " " << cnt << " times");
    }
    const J* me = j.get("rank" + std::to_string(rank));
    if (!me) return false;
    const J *a = me->get("attributes"), *e = me->get("events");
    if (!CHK(a && e && me->o.size() == 2 && a->t == J::OBJ && e->t == J::OBJ, "stats.json", f << ": content of rank" << rank)) return false;
    if (&f == &files.back()) {
      CHK(a->o.size() == attr.size(), "stats.attribute", a->o.size() << " attributes instead of " << attr.size());
      for (auto& x : attr) {
        const J* v = a->get(x.first);
        CHK(v && v->t == J::STR && v->s == x.second, "stats.attribute", "attribute " << x.first << " is " << (v ? v->s : "missing") << " instead of " << x.second);
      }
    }
    std::set<std::string> names;
    for (auto& x : e->o) {
      CHK(names.insert(x.first).second, "stats.event", "event name " << x.first << " occurs twice in " << f);
      CHK(x.second.t == J::ARR && !x.second.a.empty(), "stats.event", "event " << x.first << " without times");
      for (auto& i : x.second.a)
        if (CHK(i.t == J::ARR && i.a.size() == 2, "stats.event", "times of " << x.first)) ev[x.first].push_back({i.a[0].n, i.a[1].n});
    }
  }
  return true;
}

static void statsCase(Rng& r, int i, int world) {
  int n = (int)r.in(1, world);
  MPI_Comm comm = firstRanks(n);
  bool partial = r.chance(0.6);
  int rounds = partial ? (int)r.in(1, 4) : 1;
  bool layout = r.chance(0.3);
  uint64_t seed = r.next();
  if (comm == MPI_COMM_NULL) return;
  int me;
  MPI_Comm_rank(comm, &me);
  Rng q(vh::mix(seed, (uint64_t)me + 1));
  std::vector<std::string> names;
  const std::vector<std::string> odd = {"", "combine", "with space", "quote\"d", "back\\slash", "line\nbreak", "tab\t", "{\"a\":[", "umlaut \xc3\xa4", "a/b", "\x01", "rank0", "\\u0041"};
  for (int k = (int)q.in(0, 8); k > 0; --k) names.push_back(q.chance(0.5) ? q.pick(odd) : "event " + std::to_string(q.in(0, 30)));
  std::map<std::string, std::string> attr;
  std::map<std::string, std::vector<Ev>> log;
  clk::time_point i0 = clk::now();
  combigrid::Stats::initialize();
  clk::time_point i1 = clk::now();
  CHK(combigrid::Stats::isInitialized(), "stats.init", "not initialized");
  if (layout) {
    theMPISystem()->initWorldReusable(comm, 1, (size_t)n, false);
    attr["group"] = "0";
    attr["group_manager"] = me == 0 ? "1" : "0";
  }
  std::map<std::string, bool> open;
  std::vector<std::string> files;
  std::string base = "stats_" + std::to_string(i) + ".json";
  long long nev = 0;
  for (int round = 0; round < rounds; ++round) {
    int steps = names.empty() ? 0 : (int)q.in(0, q.chance(0.1) ? 600 : 40);
    for (int k = 0; k < steps; ++k) {
      const std::string& x = q.pick(names);
      if (open[x]) {
        auto t0 = clk::now();
        auto e = combigrid::Stats::stopEvent(x);
        auto t1 = clk::now();
        log[x].back().e0 = us(t0); log[x].back().e1 = us(t1); log[x].back().done = true;
        open[x] = false;
        auto dur = us(e.end) - us(e.start);
        auto lo = log[x].back().e0 - log[x].back().s1, hi = log[x].back().e1 - log[x].back().s0;
        CHK(dur >= lo && dur <= hi, "stats.duration", "event " << x << " took " << dur << " ns, should be between " << lo << " and " << hi);
        CHK((long long)combigrid::Stats::getEventDurationInUsec(e) == dur / 1000 && (long long)combigrid::Stats::getEventDuration(e) == dur / 1000000 &&
            (long long)combigrid::Stats::getDuration(x) == dur / 1000000, "stats.duration", "duration of " << x << " in other units");
        ++nev;
      } else {
        auto t0 = clk::now();
        combigrid::Stats::startEvent(x);
        auto t1 = clk::now();
        log[x].push_back({us(t0), us(t1), 0, 0, false});
        open[x] = true;
      }
      if (q.chance(0.05)) std::this_thread::sleep_for(std::chrono::microseconds(q.in(0, 300)));
      if (q.chance(0.1)) {
        std::string a = q.chance(0.3) ? q.pick(odd) : "attribute " + std::to_string(q.in(0, 5)), v = q.chance(0.3) ? q.pick(odd) : std::to_string(q.next());
        combigrid::Stats::setAttribute(a, v);
        attr[a] = v;
      }
    }
    bool last = round == rounds - 1;
    if (last) for (auto& x : open) if (x.second) {
      auto t0 = clk::now();
      combigrid::Stats::stopEvent(x.first);
      log[x.first].back().e0 = us(t0); log[x.first].back().e1 = us(clk::now()); log[x.first].back().done = true;
      x.second = false;
      ++nev;
    }
    if (partial) {
      if (q.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(q.in(0, 500)));
      combigrid::Stats::writePartial(base, comm);
      files.push_back(std::to_string(round) + "_" + base);
    }
  }
  combigrid::Stats::finalize();
  auto check = [&](const std::vector<std::string>& fs, const char* what) {
    std::map<std::string, std::vector<std::pair<long long, long long>>> ev;
    if (!parseStats(fs, me, n, attr, ev)) return;
    for (auto& x : log) {
      auto& a = ev[x.first];
      std::sort(a.begin(), a.end());
      if (!CHK(a.size() == x.second.size(), "stats.once", what << ": event " << x.first << " was recorded " << x.second.size() << " times, written " << a.size() << " times")) continue;
      for (size_t k = 0; k < a.size(); ++k) {
        const Ev& e = x.second[k];
        long long s = a[k].first, t = a[k].second;
        CHK(t >= s, "stats.order", what << ": event " << x.first << " ends before it starts");
        auto lo = [&](long long v) { return (v - us(i1)) / 1000 - 1; };
        auto hi = [&](long long v) { return (v - us(i0)) / 1000 + 1; };
        CHK(s >= lo(e.s0) && s <= hi(e.s1) && t >= lo(e.e0) && t <= hi(e.e1), "stats.time", what << ": event " << x.first << " number " << k << " is [" << s << "," << t << "] us, should start in [" << lo(e.s0) << "," << hi(e.s1)
            << "] and end in [" << lo(e.e0) << "," << hi(e.e1) << "]");
      }
    }
    for (auto& x : ev) CHK(log.count(x.first) || x.second.empty(), "stats.once", what << ": event " << x.first << " was not recorded");
  };
  // in one file the times of a name are in the order of recording
  MPI_Barrier(comm);
  if (partial) check(files, "partial files");
  if (!partial || r.chance(0.5)) {
    combigrid::Stats::write(base, comm);
    MPI_Barrier(comm);
    check({base}, "final file");
    std::map<std::string, std::vector<std::pair<long long, long long>>> ev;
    if (parseStats({base}, me, n, attr, ev))
      for (auto& x : ev) CHK(std::is_sorted(x.second.begin(), x.second.end()), "stats.order", "events " << x.first << " are not in order");
  }
  MPI_Barrier(comm);
  if (me == 0) {
    unlink(base.c_str());
    for (auto& f : files) unlink(f.c_str());
  }
  vh::count("events", nev);
  vh::count("stat_files", (long long)files.size() + 1);
  vh::distinct(vh::strSig("stats" + std::to_string(n) + "," + std::to_string(rounds) + "," + std::to_string(partial) + "," + std::to_string(nev)));
}

// ---------------------------------------------------------------- transfers
class STask : public VTask {
 public:
  STask(const LevelVector& l, const std::vector<BoundaryType>& b, real c, LoadModel* lm, FaultCriterion* fc) : VTask(l, b, c, lm, fc) {}
  std::string text;
  std::vector<double> data;
  FaultCriterion* fault() { return this->faultCriterion_; }
 private:
  STask() : VTask() {}
  friend class boost::serialization::access;
  template <class A> void serialize(A& ar, const unsigned int) { ar& boost::serialization::base_object<VTask>(*this); ar& text; ar& data; }
};
BOOST_CLASS_EXPORT(hc::VTask)
BOOST_CLASS_EXPORT(STask)

static std::string randText(Rng& r, int maxLen) {
  std::string s;
  for (int k = (int)r.in(0, maxLen); k > 0; --k) s += r.chance(0.7) ? (char)r.in(32, 126) : (char)r.in(-128, 127);
  return s;
}
static double randReal(Rng& r) {
  switch (r.in(0, 5)) {
    case 0: return 0.;
    case 1: return (double)r.in(-5, 5);
    case 2: return r.sym() * 1e-300;
    case 3: return r.sym() * 1e300;
    case 4: return 1. / (double)r.in(1, 99);
    default: return r.sym();
  }
}
template <class T> static T randVal(Rng& r) {
  if constexpr (std::is_same<T, std::complex<double>>::value || std::is_same<T, std::complex<float>>::value) return T((typename T::value_type)r.sym(), (typename T::value_type)r.sym());
  else if constexpr (std::is_floating_point<T>::value) return (T)(r.sym() * 1e3) + (T)r.sym() / (T)7;
  else return (T)r.next();
}
template <class T> static void container(Rng& r, MPI_Comm comm, const char* name) {
  int n, me;
  MPI_Comm_size(comm, &n);
  MPI_Comm_rank(comm, &me);
  int root = (int)r.in(0, n - 1);
  size_t len = (size_t)r.in(0, r.chance(0.1) ? 100000 : 20);
  std::vector<T> e;
  for (size_t k = 0; k < len; ++k) e.push_back(randVal<T>(r));
  size_t other = (size_t)r.in(0, 30);
  std::vector<T> a = me == root ? e : std::vector<T>(other, T(1));
  MPIUtils::broadcastContainer(a, root, comm);
  CHK(a == e, "transfer.container", len << " values of type " << name << " from rank " << root);
  vh::count("containers");
}

static CombiParameters randParams(Rng& r, std::string& desc) {
  int D = (int)r.in(1, 6);
  LevelVector lmin, lmax, red;
  std::vector<BoundaryType> b;
  std::vector<bool> hd;
  std::vector<int> procs;
  std::vector<IndexVector> dec;
  for (int d = 0; d < D; ++d) {
    lmin.push_back((LevelType)r.in(1, 5));
    lmax.push_back((LevelType)(lmin.back() + r.in(0, 4)));
    b.push_back((BoundaryType)r.in(0, 2));
    hd.push_back(r.chance(0.8));
    red.push_back((LevelType)r.in(0, 2));
    procs.push_back((int)r.in(1, 3));
    IndexVector v;
    for (int k = 0; k < procs.back(); ++k) v.push_back(k == 0 ? 0 : v.back() + (IndexType)r.in(1, 3));
    dec.push_back(v);
  }
  std::vector<LevelVector> lv;
  std::vector<real> co;
  std::vector<size_t> id;
  std::set<LevelVector> have;
  for (int k = (int)r.in(1, 20); k > 0; --k) {
    LevelVector l;
    for (int d = 0; d < D; ++d) l.push_back((LevelType)r.in(1, 9));
    if (!have.insert(l).second) continue;
    lv.push_back(l);
    co.push_back(randReal(r));
    id.push_back((size_t)lv.size() * 7 + (size_t)r.in(0, 6) + (r.chance(0.1) ? (size_t)1 << 40 : 0));
  }
  std::vector<BasisFunctionBasis*> bs;
  for (int d = 0; d < D; ++d) bs.push_back(makeBasis((int)r.in(0, 5)));
  std::ostringstream o;
  o << D << vh::vstr(lmin) << vh::vstr(lmax) << lv.size();
  desc = o.str();
  auto variant = variantOf((int)r.in(0, 3));
  if (r.chance(0.3)) {
    CombiParameters p((DimType)D, lmin, lmax, b, (size_t)r.in(0, 100), (IndexType)r.in(1, 4), variant, procs, LevelVector(0), r.chance(0.5) ? red : LevelVector(0), (uint32_t)r.in(1, 4000), r.chance(0.5), randText(r, 40), (unsigned short)r.in(0, 65535), (size_t)r.in(0, 100));
    p.setHierarchicalBases(bs);
    if (r.chance(0.7)) p.setDecomposition(dec);
    return p;
  }
  CombiParameters p((DimType)D, lmin, lmax, b, lv, co, hd, id, (size_t)r.in(0, 100), (IndexType)r.in(1, 4), variant, red, r.chance(0.5) ? red : LevelVector(0), (uint32_t)r.in(1, 4000), r.chance(0.5), randText(r, 40), (unsigned short)r.in(0, 65535), (size_t)r.in(0, 100));
  if (r.chance(0.7)) { p.setParallelization(procs); p.setDecomposition(dec); }
  p.setHierarchicalBases(bs);
  if (r.chance(0.3)) p.setCoeff(id[0], randReal(r));
  return p;
}
static void sameParams(CombiParameters& a, CombiParameters& e, const char* how) {
#define SAME(X) CHK(a.X == e.X, "transfer.params", how << ": " #X " differs")
  SAME(getDim()); SAME(getLMin()); SAME(getLMax()); SAME(getLMaxReductionVector()); SAME(getBoundary()); SAME(getLevelsDict()); SAME(getHierarchizationDims());
  SAME(getNumLevels()); SAME(getNumGrids()); SAME(getParallelization()); SAME(isParallelizationSet()); SAME(getDecomposition()); SAME(getForwardDecomposition());
  SAME(getNumberOfCombinations()); SAME(getCombinationVariant()); SAME(getChunkSizeInMebibybtePerThread()); SAME(getThirdLevelHost()); SAME(getThirdLevelPort()); SAME(getThirdLevelPG());
  SAME(getLevelsToIDs()); SAME(getCombiDict());
#undef SAME
  std::vector<size_t> ia, ie;
  std::vector<real> ca, ce;
  a.getCoeffs(ia, ca);
  e.getCoeffs(ie, ce);
  CHK(ia == ie && ca == ce, "transfer.params", how << ": coefficients differ");
  for (auto x : ie) CHK(a.getLevel(x) == e.getLevel(x), "transfer.params", how << ": level of task " << x);
  auto& ba = a.getHierarchicalBases();
  auto& be = e.getHierarchicalBases();
  bool ok = ba.size() == be.size();
  for (size_t d = 0; ok && d < be.size(); ++d) ok = (ba[d] == nullptr) == (be[d] == nullptr) && (!be[d] || typeid(*ba[d]) == typeid(*be[d]));
  CHK(ok, "transfer.params", how << ": bases differ");
  vh::count("parameters");
}

template <class T>
static void dsgCase(Rng& r, MPI_Comm comm) {
  int n, me;
  MPI_Comm_size(comm, &n);
  MPI_Comm_rank(comm, &me);
  int D = (int)r.in(1, 3);
  LevelVector lmin((size_t)D, 1), lmax((size_t)D, (LevelType)r.in(2, D == 1 ? 6 : 4));
  DistributedSparseGridUniform<T> dsg((DimType)D, lmax, lmin, comm);
  const size_t N = (size_t)dsg.getNumSubspaces();
  using SI = AnyDistributedSparseGrid::SubspaceIndexType;
  std::vector<std::vector<SubspaceSizeType>> sizes((size_t)n + 1);
  bool big = r.chance(0.1);
  for (auto& v : sizes) {
    for (size_t k = 0; k < N; ++k) v.push_back((SubspaceSizeType)(r.chance(0.3) ? 0 : r.in(1, big ? 4000 : 12)));
    if (v[0] == 0) v[0] = 1;
  }
  auto setSizes = [&](const std::vector<SubspaceSizeType>& v) {
    dsg.deleteSubspaceData();
    for (size_t k = 0; k < N; ++k) dsg.setDataSize((SI)k, v[k]);
  };
  auto haveSizes = [&](const std::vector<SubspaceSizeType>& v, const char* how) {
    bool ok = dsg.getSubspaceDataSizes().size() == N;
    for (size_t k = 0; ok && k < N; ++k) ok = dsg.getDataSize((SI)k) == v[k];
    CHK(ok, "transfer.sizes", how << ": subspace sizes on rank " << me << " are " << vh::vstr(dsg.getSubspaceDataSizes()) << " should be " << vh::vstr(v));
    vh::count("size_transfers");
  };
  auto val = [](uint64_t s, size_t k) { Rng q(vh::mix(s, k)); return randVal<T>(q); };
  auto fill = [&](uint64_t s) { for (size_t k = 0; k < dsg.getRawDataSize(); ++k) dsg.getRawData()[k] = val(s, k); };
  auto haveData = [&](uint64_t s, const char* how) {
    size_t bad = 0;
    for (size_t k = 0; k < dsg.getRawDataSize(); ++k) bad += !(dsg.getRawData()[k] == val(s, k));
    CHK(bad == 0, "transfer.grid", how << ": " << bad << " of " << dsg.getRawDataSize() << " values differ on rank " << me);
    vh::count("grid_values", (long long)dsg.getRawDataSize());
  };
  int root = (int)r.in(0, n - 1), collector = (int)r.in(0, n - 1);
  uint64_t seed = r.next();
  // sizes: broadcast, maximum, gather and scatter
  setSizes(sizes[(size_t)me]);
  CombiCom::broadcastSubspaceSizes(dsg, comm, root);
  haveSizes(sizes[(size_t)root], "broadcast");
  setSizes(sizes[(size_t)me]);
  CombiCom::reduceSubspaceSizes(dsg, comm);
  std::vector<SubspaceSizeType> mx(N, 0);
  for (int q = 0; q < n; ++q) for (size_t k = 0; k < N; ++k) mx[k] = std::max(mx[k], sizes[(size_t)q][k]);
  haveSizes(mx, "reduce");
  setSizes(sizes[(size_t)me]);
  {  // the collector plays the manager
    std::vector<int> num((size_t)n, -1), dis((size_t)n, 0);
    MPI_Datatype dt = getMPIDatatype(abstraction::getabstractionDataType<SubspaceSizeType>());
    std::vector<SubspaceSizeType> all;
    if (me == collector) {
      int mine = 0;
      MPI_Gather(&mine, 1, MPI_INT, num.data(), 1, MPI_INT, collector, comm);
      size_t tot = 0;
      for (int q = 0; q < n; ++q) { dis[(size_t)q] = (int)tot; tot += (size_t)num[(size_t)q]; CHK(num[(size_t)q] == (q == me ? 0 : (int)N), "transfer.sizes", "gather: " << num[(size_t)q] << " sizes from rank " << q); }
      all.resize(tot);
      MPI_Gatherv(nullptr, 0, dt, all.data(), num.data(), dis.data(), dt, collector, comm);
      for (int q = 0; q < n; ++q)
        for (int k = 0; k < num[(size_t)q]; ++k) {
          auto& x = all[(size_t)(dis[(size_t)q] + k)];
          CHK(x == sizes[(size_t)q][(size_t)k], "transfer.sizes", "gather: size " << x << " of subspace " << k << " from rank " << q);
          x = sizes[(size_t)(q + 1)][(size_t)k];
        }
      MPI_Scatterv(all.data(), num.data(), dis.data(), dt, nullptr, 0, dt, collector, comm);
    } else {
      CombiCom::sendSubspaceSizesWithGather(dsg, comm, collector);
      haveSizes(sizes[(size_t)me], "after gather");
      CombiCom::receiveSubspaceSizesWithScatter(dsg, comm, collector);
      haveSizes(sizes[(size_t)me + 1], "scatter");
    }
  }
  // data
  setSizes(sizes[(size_t)root]);
  dsg.createSubspaceData();
  size_t tot = 0;
  for (auto x : sizes[(size_t)root]) tot += x;
  CHK(dsg.getRawDataSize() == tot, "transfer.grid", dsg.getRawDataSize() << " values instead of " << tot);
  fill(me == root ? seed : seed + 1 + (uint64_t)me);
  MPI_Request req = MPI_REQUEST_NULL;
  CombiCom::asyncBcastDsgData(dsg, root, comm, &req);
  MPI_Wait(&req, MPI_STATUS_IGNORE);
  haveData(seed, "broadcast");
  fill(me == root ? seed + 99 : seed + 1 + (uint64_t)me);
  if (n > 1) {
    if (me == root) {
      CombiCom::sendDsgData(dsg, (me + 1) % n, comm);
      fill(seed + 1000);
      CombiCom::recvDsgData(dsg, (me + n - 1) % n, comm);
    } else {
      CombiCom::recvDsgData(dsg, (me + n - 1) % n, comm);
      CombiCom::sendDsgData(dsg, (me + 1) % n, comm);
    }
    haveData(seed + 99, "ring");
  }
}

static void transferCase(Rng& r, int i, int world) {
  int n = (int)r.in(1, world);
  MPI_Comm comm = firstRanks(n);
  if (comm == MPI_COMM_NULL) return;
  int me;
  MPI_Comm_rank(comm, &me);
  int root = (int)r.in(0, n - 1);
  // parameters
  std::string desc;
  for (int k = (int)r.in(1, 2); k > 0; --k) {
    CombiParameters e = randParams(r, desc), a;
    std::string d2;
    Rng q(vh::mix(r.s, 77));
    bool had = r.chance(0.5);
    if (had) a = randParams(q, d2);  // received over other parameters
    if (had) CHK(a.getDim() > 0, "transfer.params", "generated");
    CombiParameters recv = a;
    if (me == root) recv = e;
    MPIUtils::broadcastClass(&recv, root, comm);
    sameParams(recv, e, "broadcast");
    if (n > 1) {  // around the ring
      CombiParameters x;
      if (me == root) MPIUtils::sendClass(&e, (me + 1) % n, comm);
      MPIUtils::receiveClass(&x, (me + n - 1) % n, comm);
      if (me != root) MPIUtils::sendClass(&x, (me + 1) % n, comm);
      sameParams(x, e, "ring");
    }
    vh::distinct(vh::strSig("p" + desc));
  }
  // strings
  {
    std::string e = randText(r, r.chance(0.05) ? 200000 : 60), a;
    if (me == root) a = e;
    MPIUtils::broadcastClass(&a, root, comm);
    CHK(a == e, "transfer.string", "string of " << e.size() << " characters");
    std::string f = e, g = me == root ? f : "other";
    MPIUtils::broadcastContainer(g, root, comm);
    CHK(g == f, "transfer.string", "characters of a string of length " << f.size());
    vh::count("strings", 2);
  }
  container<char>(r, comm, "char");
  container<float>(r, comm, "float");
  container<double>(r, comm, "double");
  container<long double>(r, comm, "long double");
  container<std::complex<double>>(r, comm, "complex double");
  container<std::complex<float>>(r, comm, "complex float");
  container<long long>(r, comm, "long long");
  container<long>(r, comm, "long");
  container<size_t>(r, comm, "size_t");
  container<uint32_t>(r, comm, "uint32_t");
  container<int32_t>(r, comm, "int32_t");
  container<int16_t>(r, comm, "int16_t");
  // tasks
  {
    static LinearLoadModel lm;
    int D = (int)r.in(1, 6);
    LevelVector l;
    std::vector<BoundaryType> b;
    for (int d = 0; d < D; ++d) { l.push_back((LevelType)r.in(1, 12)); b.push_back((BoundaryType)r.in(0, 2)); }
    std::vector<std::pair<int, int>> inj;
    for (int k = (int)r.in(0, 4); k > 0; --k) inj.push_back({(int)r.in(0, 9), (int)r.in(0, 9)});
    int kind = (int)r.in(0, 1);
    FaultCriterion* fc = kind == 0 ? nullptr : new StaticFaults({(int)inj.size(), [&] { IndexVector v; for (auto& x : inj) v.push_back(x.first); return v; }(), [&] { IndexVector v; for (auto& x : inj) v.push_back(x.second); return v; }()});
    STask* t = new STask(l, b, randReal(r), &lm, fc);
    t->setID((size_t)r.in(0, 1 << 30) * (r.chance(0.1) ? 4096u : 1u));
    t->setFinished(r.chance(0.5));
    t->text = randText(r, 50);
    for (int k = (int)r.in(0, 50); k > 0; --k) t->data.push_back(randReal(r));
    auto same = [&](Task<>* x, const char* how) {
      STask* s = dynamic_cast<STask*>(x);
      if (!CHK(s != nullptr, "transfer.task", how << ": other type")) return;
      CHK(s->getID() == t->getID() && s->getDim() == t->getDim() && s->getLevelVector() == t->getLevelVector() && s->getBoundary() == t->getBoundary() && s->getCoefficient() == t->getCoefficient() &&
          s->isFinished() == t->isFinished() && s->text == t->text && s->data == t->data, "transfer.task", how << ": differs");
      CHK((s->fault() == nullptr) == (fc == nullptr) && (!fc || typeid(*s->fault()) == typeid(*fc)), "transfer.task", how << ": fault criterion");
      if (fc && s->fault()) {
        for (int it = 0; it < 10; ++it)
          for (int gr = 0; gr < 10; ++gr)
            CHK(s->fault()->failNow(it, -1., gr) == fc->failNow(it, -1., gr), "transfer.task", how << ": fault of process " << gr << " in iteration " << it);
      }
      vh::count("tasks");
    };
    Task<>* x = me == root ? (Task<>*)t : nullptr;
    Task<>::broadcast(&x, root, comm);
    same(x, "broadcast");
    if (me != root) delete x;
    if (n > 1) {
      x = nullptr;
      if (me == root) Task<>::send(t, (me + 1) % n, comm);
      Task<>::receive(&x, (me + n - 1) % n, comm);
      if (me != root) Task<>::send(x, (me + 1) % n, comm);
      same(x, "ring");
      delete x;
    }
    delete t;
  }
  if (r.chance(0.5)) dsgCase<double>(r, comm); else dsgCase<std::complex<double>>(r, comm);
  // coordinates
  {
    int D = (int)r.in(1, 6);
    std::vector<std::vector<real>> c;
    for (int k = (int)r.in(1, 50); k > 0; --k) { c.emplace_back(); for (int d = 0; d < D; ++d) c.back().push_back(randReal(r)); }
    CHK(deserializeInterpolationCoords(serializeInterpolationCoords(c), (DimType)D) == c, "transfer.coords", c.size() << " points");
  }
  // files read by one process
  {
    std::string ini = "transfer_" + std::to_string(i) + ".ini", js = "transfer_" + std::to_string(i) + ".json", raw = "transfer_" + std::to_string(i) + ".raw";
    std::map<std::string, std::map<std::string, std::string>> e;
    for (int k = (int)r.in(1, 5); k > 0; --k)
      for (int m = (int)r.in(1, 8); m > 0; --m) {
        std::string v;
        for (int z = (int)r.in(1, r.chance(0.02) ? 5000 : 20); z > 0; --z) v += (char)r.pick(std::vector<int>{'a', 'Z', '0', '9', '-', '.', '/', '_', ',', ':'});
        e["sec" + std::to_string(k)]["key" + std::to_string(r.in(0, 20))] = v;
      }
    std::string text = randText(r, r.chance(0.1) ? 100000 : 300);
    if (me == 0) {
      boost::property_tree::ptree p;
      std::ofstream o(ini), q(js), w(raw, std::ios::binary);
      for (auto& x : e) {
        o << "[" << x.first << "]\n";
        for (auto& y : x.second) { o << y.first << (r.s & 1 ? " = " : "=") << y.second << "\n"; p.put(x.first + "." + y.first, y.second); }
      }
      boost::property_tree::write_json(q, p);
      w << text;
    }
    MPI_Barrier(comm);
    auto same = [&](boost::property_tree::ptree p, const char* how) {
      size_t cnt = 0;
      for (auto& s : p) cnt += s.second.size();
      size_t ee = 0;
      for (auto& x : e) { ee += x.second.size(); for (auto& y : x.second) CHK(p.get<std::string>(x.first + "." + y.first, "?") == y.second, "transfer.file", how << ": " << x.first << "." << y.first); }
      CHK(cnt == ee, "transfer.file", how << ": " << cnt << " entries instead of " << ee);
      vh::count("files");
    };
    same(broadcastParameters::getParametersFromRankZero(ini, comm), "parameter file");
    same(broadcastParameters::getJsonFromRankZero(js, comm), "JSON file");
    CHK(broadcastParameters::getFileContentsFromRankZero(raw, comm) == text, "transfer.file", "contents of " << text.size() << " bytes");
    MPI_Barrier(comm);
    if (me == 0) { unlink(ini.c_str()); unlink(js.c_str()); unlink(raw.c_str()); }
  }
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  int world;
  MPI_Comm_size(MPI_COMM_WORLD, &world);
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed * 1315423911ull + vh::strSig(s.suite), (uint64_t)i));
    vh::caseBegin(i, s.suite + " " + std::to_string(i));
    vh::count("cases");
    vh::guarded([&]() {
      if (s.suite == "layout") layoutCase(r, world);
      else if (s.suite == "stats") statsCase(r, i, world);
      else transferCase(r, i, world);
    });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
