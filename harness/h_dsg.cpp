// Monitored sparse grid data paths (C07): everything that is written to files (or compressed) is read
// back through every read path and compared bit for bit; reductions are compared with the exact sum.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <algorithm>
#include <fstream>

#include "hc.hpp"
#include "io/FileInputOutput.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"
#include "utils/BoostExports.hpp"

using namespace hc;
namespace io = combigrid::DistributedSparseGridIO;

#define CHK(cond, key, msg) \
  do { vh::count("checks"); if (!(cond)) { std::ostringstream o_; o_.precision(17); o_ << msg; vh::fail(key, o_.str()); } } while (0)

template <class T> struct TypeName;
template <> struct TypeName<double> { static const char* n() { return "double"; } };
template <> struct TypeName<float> { static const char* n() { return "float"; } };
template <> struct TypeName<std::complex<double>> { static const char* n() { return "complex<double>"; } };

// kinds of data: 0 hashed, 1 constant (highly compressible), 2 special values (bit patterns), 3 zeros, 4 smooth
template <class R>
static R realVal(int kind, uint64_t seed, uint64_t i) {
  switch (kind) {
    case 0: return (R)(vh::hashVal(seed, i) * std::pow(10., (double)(vh::mix(seed, i) % 30) - 15));
    case 1: return (R)3.25;
    case 2: {
      static const double sp[] = {0., -0., HUGE_VAL, -HUGE_VAL, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, NAN, -1., 1e-40};
      return (R)sp[vh::mix(seed, i) % 10];
    }
    case 3: return (R)0;
    default: return (R)((double)(i / 100) * 0.5);
  }
}
template <class T> struct Gen { static T at(int k, uint64_t s, uint64_t i) { return realVal<T>(k, s, i); } };
template <> struct Gen<std::complex<double>> {
  static std::complex<double> at(int k, uint64_t s, uint64_t i) { return {realVal<double>(k, s, 2 * i), realVal<double>(k, s, 2 * i + 1)}; }
};
template <class T>
static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static std::string errText(const std::exception& e) { return std::string("threw ") + e.what(); }

template <class T>
static long firstDiff(const T* a, const T* b, size_t n) {
  for (size_t i = 0; i < n; ++i) if (!same(a[i], b[i])) return (long)i;
  return -1;
}

struct IoConf {
  int D, P, parts, kind, type;
  IV lmin, lmax;
  bool big, emptyRank, replace, cb, stale, ownNames;
  uint64_t seed;
  int nbuf;
  std::string desc() const {
    std::ostringstream o;
    o << "procs=" << P << " parts=" << parts << " type=" << type << " data=" << kind << " lmin=" << vh::vstr(lmin) << " lmax=" << vh::vstr(lmax)
      << (big ? " big" : "") << (emptyRank ? " emptyRank" : "") << (replace ? " replace" : "") << (cb ? " collectiveBuffering" : "")
      << (stale ? " staleFile" : "") << " nbuf=" << nbuf << " seed=" << seed % 1000;
    return o.str();
  }
};

// a guarded call whose exception is a violation of the property at hand, but not the end of the run;
// only for calls where all ranks throw together is continuing safe, so all ranks vote afterwards
template <class F>
static bool attempt(MPI_Comm comm, const char* what, F f) {
  int bad = 0;
  try { f(); } catch (const std::exception& e) {
    bad = 1;
    vh::fail(std::string("io.exception.") + what, errText(e));
  }
  int any = 0;
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, comm);
  return any == 0;
}

template <class T>
static void ioCase(const IoConf& c, Rng&) {
  MPI_Comm comm = firstRanks(c.P);
  if (comm == MPI_COMM_NULL) return;
  Rng q(c.seed);                                         // same on all ranks
  Rng mine(vh::mix(c.seed, 77 + (uint64_t)vh::st().rank));  // per rank
  theMPISystem()->initWorldReusable(comm, 1, (size_t)c.P, false);
  theMPISystem()->initOutputGroupComm((uint16_t)c.parts);
  const int me = vh::st().rank;
  MPI_Comm lcomm = theMPISystem()->getLocalComm();
  using DSG = DistributedSparseGridUniform<T>;
  DSG a((DimType)c.D, toLV(c.lmax), toLV(c.lmin), lcomm), b((DimType)c.D, toLV(c.lmax), toLV(c.lmin), lcomm);
  const size_t ns = (size_t)a.getNumSubspaces();
  const bool empty = c.emptyRank && me == (int)(c.seed % (uint64_t)c.P);
  size_t total = 0;
  for (size_t i = 0; i < ns; ++i) {
    SubspaceSizeType s = (SubspaceSizeType)(mine.chance(0.3) ? 0 : mine.in(0, c.big ? 300000 / (int64_t)ns + 400000 : 40));
    if (empty) s = 0;
    if (c.big && total > 1400000) s = 0;
    if (i == 0 && !empty && s == 0) s = 1;
    a.setDataSize((typename DSG::SubspaceIndexType)i, s);
    b.setDataSize((typename DSG::SubspaceIndexType)i, s);
    total += s;
  }
  a.createSubspaceData();
  b.createSubspaceData();
  CHK(a.getRawDataSize() == total, "io.allocated", "allocated " << a.getRawDataSize() << " of " << total);
  std::vector<T> ref(total);
  for (size_t i = 0; i < total; ++i) ref[i] = Gen<T>::at(c.kind, vh::mix(c.seed, (uint64_t)me), i);
  std::copy(ref.begin(), ref.end(), a.getRawData());
  auto clearB = [&](int pattern) {
    for (size_t i = 0; i < total; ++i) b.getRawData()[i] = Gen<T>::at(pattern, c.seed + 5, i);
  };
  auto checkSame = [&](const char* what, const T* v) {
    long d = firstDiff(v, ref.data(), total);
    CHK(d < 0, std::string("io.") + what, what << ": element " << d << " of " << total << " on rank " << me << " differs: " << v[d] << " was written as " << ref[(size_t)d]);
    vh::count("values_compared", (long long)total);
  };
  std::vector<T> base(total);
  auto checkSum = [&](const char* what, const T* v) {
    long bad = -1;
    for (size_t i = 0; i < total && bad < 0; ++i) { T e = base[i] + ref[i], e2 = ref[i] + base[i]; if (!same(v[i], e) && !same(v[i], e2) && !(e != e && v[i] != v[i])) bad = (long)i; }
    CHK(bad < 0, std::string("io.") + what, what << ": element " << bad << " of " << total << " on rank " << me << ": " << v[bad] << " should be " << base[(size_t)bad] << " + " << ref[(size_t)bad]);
    vh::count("values_compared", (long long)total);
  };
  std::string f = "dsg" + std::to_string(c.seed % 100000);
  auto rm = [&](const std::string& n) { MPI_Barrier(comm); if (me == 0) unlink(n.c_str()); MPI_Barrier(comm); };
  if (c.stale) {  // an older, longer file of the same name
    if (me == 0) { std::ofstream o(f + ".one", std::ios::binary); std::string junk(q.in(1, 60000), 'x'); o << junk; }
    MPI_Barrier(comm);
  }
  // ---- one file
  if (attempt(comm, "writeOneFile", [&]() {
        int n = io::writeOneFile(a, f + ".one", c.replace || c.stale);
        CHK(n > 0, "io.writeOneFile", "wrote " << n); })) {
    checkSame("writeOneFile-source", a.getRawData());
    clearB(0);
    if (attempt(comm, "readOneFile", [&]() {
          int n = io::readOneFile(b, f + ".one");
          CHK(n == (int)total, "io.readOneFile", "read " << n << " of " << total); })) {
      checkSame("readOneFile", b.getRawData());
      // read twice, reduce once
      clearB(4);
      std::copy(b.getRawData(), b.getRawData() + total, base.begin());
      if (attempt(comm, "readOneFileAndReduce", [&]() {
            int n = io::readOneFileAndReduce(b, f + ".one", (uint32_t)(c.nbuf % 3));
            CHK(n == (int)total, "io.readOneFileAndReduce", "reduced " << n << " of " << total); }))
        checkSum("readOneFileAndReduce", b.getRawData());
    }
  }
  // ---- a file of another size is rejected by all processes, not read as something else
  auto mangle = [&](const std::string& n) {
    MPI_Barrier(comm);
    if (me == 0) {
      if (c.seed % 2) { std::ofstream o(n, std::ios::binary | std::ios::app); o << 'x'; }
      else { struct stat sb; if (stat(n.c_str(), &sb) == 0 && sb.st_size > 0 && truncate(n.c_str(), sb.st_size - 1)) perror("truncate"); }
    }
    MPI_Barrier(comm);
  };
  auto mustThrow = [&](const char* what, const std::function<void()>& g) {
    bool threw = false;
    try { g(); } catch (const std::runtime_error&) { threw = true; }
    CHK(threw, std::string("io.accepted.") + what, what << " of a " << (c.seed % 2 ? "longer" : "truncated") << " file did not fail");
    vh::count("damaged_files_rejected", threw);
    MPI_Barrier(comm);
  };
  if (!c.big) {
    mangle(f + ".one");
    mustThrow("readOneFile", [&]() { io::readOneFile(b, f + ".one"); });
    mustThrow("readOneFileAndReduce", [&]() { io::readOneFileAndReduce(b, f + ".one", 1); });
  }
  rm(f + ".one");
  // ---- several files
  {
    int part = me / getCommSize(theMPISystem()->getOutputComm());
    std::string pn = f + ".some.part" + std::to_string(part);
    if (attempt(comm, "writeSomeFiles", [&]() {
          int n = io::writeSomeFiles(a, f + ".some", c.replace);
          CHK(n > 0, "io.writeSomeFiles", "wrote " << n); })) {
      clearB(0);
      if (attempt(comm, "readSomeFiles", [&]() {
            int n = io::readSomeFiles(b, pn);
            CHK(n == (int)total, "io.readSomeFiles", "read " << n << " of " << total); })) {
        checkSame("readSomeFiles", b.getRawData());
        clearB(4);
        std::copy(b.getRawData(), b.getRawData() + total, base.begin());
        if (attempt(comm, "readSomeFilesAndReduce", [&]() {
              int n = io::readSomeFilesAndReduce(b, pn, (uint32_t)(c.nbuf % 3));
              CHK(n == (int)total, "io.readSomeFilesAndReduce", "reduced " << n << " of " << total); }))
          checkSum("readSomeFilesAndReduce", b.getRawData());
      }
    }
    for (int k = 0; k < c.parts; ++k) rm(f + ".some.part" + std::to_string(k));
  }
  // ---- one file per process
  if (attempt(comm, "writeToDiskChunked", [&]() { io::writeToDiskChunked(a, f + ".chunk"); })) {
    clearB(0);
    if (attempt(comm, "readFromDiskChunked", [&]() { io::readFromDiskChunked(b, f + ".chunk"); }))
      checkSame("readFromDiskChunked", b.getRawData());
  }
  unlink((f + ".chunk" + std::to_string(me)).c_str());
  // ---- uncompressed consecutive values (uneven lengths)
  {
    if (c.stale && !c.replace) {  // overwriting a file of the same size in place
      std::vector<T> old(total, T(1));
      attempt(comm, "writeValues0", [&]() { mpiio::writeValuesConsecutive<T>(old.data(), (MPI_Offset)total, f + ".raw", comm, false, c.cb); });
    }
    if (attempt(comm, "writeValues", [&]() {
          int n = mpiio::writeValuesConsecutive<T>(ref.data(), (MPI_Offset)total, f + ".raw", comm, c.replace, c.cb);
          CHK(n == (int)total, "io.writeValues", "wrote " << n << " of " << total); })) {
      // content: all processes' data in rank order
      MPI_Barrier(comm);
      {
        long long my = (long long)total, before = 0, all = 0;
        MPI_Exscan(&my, &before, 1, MPI_LONG_LONG, MPI_SUM, comm);
        if (me == 0) before = 0;
        MPI_Allreduce(&my, &all, 1, MPI_LONG_LONG, MPI_SUM, comm);
        std::ifstream in(f + ".raw", std::ios::binary);
        std::vector<T> v(total);
        in.seekg(0, std::ios::end);
        CHK((long long)in.tellg() == all * (long long)sizeof(T), "io.rawfile", "file has " << in.tellg() << " bytes for " << all << " values");
        in.seekg(before * (long long)sizeof(T));
        in.read((char*)v.data(), (std::streamsize)(total * sizeof(T)));
        checkSame("rawfile", v.data());
        MPI_Barrier(comm);
      }
      std::vector<T> v(total + 1, Gen<T>::at(0, 3, 4));
      if (attempt(comm, "readValues", [&]() {
            int n = mpiio::readValuesConsecutive<T>(v.data(), (MPI_Offset)total, f + ".raw", comm, c.cb);
            CHK(total == 0 || n == (int)total, "io.readValues", "read " << n << " of " << total); })) {
        checkSame("readValues", v.data());
        CHK(same(v[total], Gen<T>::at(0, 3, 4)), "io.readValues", "wrote behind the values");
      }
      // chunked read and reduce: the number of chunks differs between processes
      std::vector<T> w(total + 1, Gen<T>::at(0, 3, 4));
      for (size_t i = 0; i < total; ++i) base[i] = w[i] = Gen<T>::at(4, 9, i);
      int nb = c.big ? 100000 + c.nbuf : c.nbuf;
      if (attempt(comm, "readReduceValues", [&]() {
            int n = mpiio::readReduceValuesConsecutive<T>(w.data(), (MPI_Offset)total, f + ".raw", comm, nb, std::plus<T>{}, c.cb);
            CHK(n == (int)total, "io.readReduceValues", "reduced " << n << " of " << total); })) {
        checkSum("readReduceValues", w.data());
        CHK(same(w[total], Gen<T>::at(0, 3, 4)), "io.readReduceValues", "wrote behind the values");
      }
    }
    if (!c.big) {
      std::vector<T> v(total + 1);
      mangle(f + ".raw");
      mustThrow("readValues", [&]() { mpiio::readValuesConsecutive<T>(v.data(), (MPI_Offset)total, f + ".raw", comm, c.cb); });
      mustThrow("readReduceValues", [&]() { mpiio::readReduceValuesConsecutive<T>(v.data(), (MPI_Offset)total, f + ".raw", comm, c.nbuf, std::plus<T>{}, c.cb); });
    }
    rm(f + ".raw");
  }
  // ---- compression alone
  {
    std::vector<char> z;
    size_t pre = (size_t)q.in(0, 20);
    z.assign(pre, 'p');
    try {
      mpiio::compressBufferToLZ4Frame<T>(ref.data(), (MPI_Offset)total, z);
      bool kept = z.size() >= pre;
      for (size_t i = 0; i < pre && kept; ++i) kept = z[i] == 'p';
      CHK(kept, "io.compress", "what was in the buffer before was changed");
      std::vector<char> y(z.begin() + (long)pre, z.end());
      std::vector<T> v(total);
      auto n = mpiio::decompressLZ4FrameToBuffer(y, v);
      CHK(n == total, "io.decompress", "got " << n << " of " << total);
      checkSame("decompress", v.data());
    } catch (const std::exception& e) { vh::fail("io.exception.compress", errText(e)); }
  }
  // ---- subspace sizes
  {
    DSG z((DimType)c.D, toLV(c.lmax), toLV(c.lmin), lcomm);
    std::vector<SubspaceSizeType> sz(a.getSubspaceDataSizes().begin(), a.getSubspaceDataSizes().end());
    std::vector<SubspaceSizeType> other(ns), third(ns);
    for (size_t i = 0; i < ns; ++i) { other[i] = (SubspaceSizeType)(mine.chance(0.5) ? sz[i] : mine.in(0, 50)); third[i] = (SubspaceSizeType)(mine.chance(0.5) ? sz[i] : mine.in(0, 50)); }
    auto set = [&](const std::vector<SubspaceSizeType>& v) { for (size_t i = 0; i < ns; ++i) z.getSubspaceDataSizes()[i] = v[i]; };
    auto check = [&](const char* what, const std::vector<SubspaceSizeType>& e) {
      for (size_t i = 0; i < ns; ++i)
        if (z.getSubspaceDataSizes()[i] != e[i]) { CHK(false, std::string("io.sizes.") + what, what << ": subspace " << i << " has size " << z.getSubspaceDataSizes()[i] << " should be " << e[i]); return; }
      vh::count("sizes_compared", (long long)ns);
    };
    int nb = (int)q.pick(IV{0, 1, 3, (int)ns, (int)ns + 5, 1 + (int)ns / 2});
    if (attempt(comm, "writeSizes", [&]() { int n = io::writeSubspaceSizesToFile(a, f + ".sz"); CHK(n == (int)ns, "io.sizes.write", "wrote " << n); })) {
      set(other);
      attempt(comm, "writeSizes2", [&]() { io::writeSubspaceSizesToFile(z, f + ".sz2"); });
      set(third);
      if (attempt(comm, "readSizes", [&]() { io::readSubspaceSizesFromFile(z, f + ".sz", c.cb); })) check("read", sz);
      set(third);
      if (attempt(comm, "readReduceSizes", [&]() { io::readReduceSubspaceSizesFromFile(z, f + ".sz", [](SubspaceSizeType x, SubspaceSizeType y) { return std::min(x, y); }, nb, c.cb); })) {
        auto e = third;
        for (size_t i = 0; i < ns; ++i) e[i] = std::min(third[i], sz[i]);
        check("readReduce", e);
      }
      set(third);
      // position dependent function of (first file, mine, second file)
      auto fn = [](const SubspaceSizeType& x, const SubspaceSizeType& y, const SubspaceSizeType& z) { return (SubspaceSizeType)(x * 5 + y * 3 + z); };
      if (attempt(comm, "readReduceSizes2", [&]() { io::readReduceSubspaceSizesFromFiles(z, {f + ".sz", f + ".sz2"}, fn, nb, c.cb); })) {
        auto e = third;
        for (size_t i = 0; i < ns; ++i) e[i] = fn(sz[i], third[i], other[i]);
        check("readReduce2", e);
      }
    }
    rm(f + ".sz");
    rm(f + ".sz2");
  }
  // ---- minimum and maximum coefficients
  if (c.kind != 2 && !std::is_same<T, std::complex<double>>::value && !c.big) {
    std::vector<double> mn(ns, std::numeric_limits<double>::max()), mx(ns, -std::numeric_limits<double>::max());
    size_t k = 0;
    bool neg = c.seed % 3 == 0;
    for (size_t i = 0; i < ns; ++i)
      for (size_t j = 0; j < (size_t)a.getDataSize((typename DSG::SubspaceIndexType)i); ++j, ++k) {
        double v = std::real(a.getRawData()[k]);
        if (neg) { v = -std::abs(v); a.getRawData()[k] = T(v); }
        mn[i] = std::min(mn[i], v);
        mx[i] = std::max(mx[i], v);
      }
    std::vector<double> gmn(ns), gmx(ns);
    MPI_Allreduce(mn.data(), gmn.data(), (int)ns, MPI_DOUBLE, MPI_MIN, comm);
    MPI_Allreduce(mx.data(), gmx.data(), (int)ns, MPI_DOUBLE, MPI_MAX, comm);
    if (attempt(comm, "minmax", [&]() { io::writeMinMaxCoefficents(a, f + ".mm", 3, comm); }) && me == 0) {
      std::ifstream in(f + ".mm_3.txt");
      std::string line;
      std::map<std::string, std::pair<double, double>> got;
      while (std::getline(in, line)) {
        auto p = line.find(" : "), p2 = line.rfind(", ");
        if (p == std::string::npos || p2 == std::string::npos) { CHK(false, "io.minmax", "bad line " << line); continue; }
        got[line.substr(0, p)] = {atof(line.substr(p + 3).c_str()), atof(line.substr(p2 + 2).c_str())};
      }
      auto close = [](double x, double y) { return std::abs(x - y) <= 1e-5 * std::max(std::abs(x), std::abs(y)); };
      size_t n = 0;
      for (size_t i = 0; i < ns; ++i) {
        if (gmn[i] == std::numeric_limits<double>::max()) continue;
        ++n;
        std::ostringstream o;
        o << a.getLevelVector(i);
        auto it = got.find(o.str());
        CHK(it != got.end(), "io.minmax", "no line for subspace " << o.str());
        if (it != got.end())
          CHK(close(it->second.first, gmn[i]) && close(it->second.second, gmx[i]), "io.minmax", "subspace " << o.str() << " has [" << gmn[i] << "," << gmx[i] << "], file says [" << it->second.first << "," << it->second.second << "]");
      }
      CHK(got.size() == n, "io.minmax", got.size() << " lines for " << n << " subspaces");
    }
    rm(f + ".mm_3.txt");
  }
  // ---- text from all processes in one file, in rank order
  {
    std::string txt = "rank " + std::to_string(me) + ":" + std::string((size_t)mine.in(0, 200), (char)('a' + me)) + "\n";
    int len = (int)txt.size();
    std::vector<int> lens((size_t)c.P), off((size_t)c.P);
    MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, comm);
    for (int k = 1; k < c.P; ++k) off[(size_t)k] = off[(size_t)k - 1] + lens[(size_t)k - 1];
    std::string all((size_t)(off.back() + lens.back()), ' ');
    MPI_Allgatherv(txt.data(), len, MPI_CHAR, &all[0], lens.data(), off.data(), MPI_CHAR, comm);
    if (c.stale && me == 0) { std::ofstream o(f + ".txt"); o << std::string(20000, 'z'); }
    MPI_Barrier(comm);
    if (attempt(comm, "concat", [&]() { writeConcatenatedFileRootOnly(txt.data(), txt.size(), f + ".txt", comm, true); })) {
      CHK(getFileExistsRootOnly(f + ".txt", comm, (RankType)(c.seed % (uint64_t)c.P)), "io.exists", "written file does not exist");
      CHK(!getFileExistsRootOnly(f + ".nothere", comm, 0), "io.exists", "missing file exists");
      std::ifstream in(f + ".txt");
      std::stringstream s;
      s << in.rdbuf();
      CHK(s.str() == all, "io.concat", "concatenated file has " << s.str().size() << " characters, should have " << all.size());
    }
    rm(f + ".txt");
  }
  // ---- copies between sparse grids, clearing
  {
    std::copy(ref.begin(), ref.end(), a.getRawData());
    clearB(0);
    if (total > 0) {
      b.copyDataFrom(a);
      checkSame("copyDataFrom", b.getRawData());
    }
    b.setZero();
    long d = -1;
    for (size_t i = 0; i < total && d < 0; ++i) if (!same(b.getRawData()[i], T(0))) d = (long)i;
    CHK(d < 0, "io.setZero", "element " << d << " is not zero");
  }
  MPI_Barrier(comm);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    IoConf c;
    c.D = (int)r.in(1, 4);
    c.seed = r.next() >> 8;
    c.P = (int)r.in(1, s.size);
    IV div;
    for (int k = 1; k <= c.P; ++k) if (c.P % k == 0) div.push_back(k);
    c.parts = r.pick(div);
    c.kind = (int)r.in(0, 4);
    c.type = (int)r.pick(IV{0, 0, 1, 2, 2});
    c.big = r.chance(0.03);
    c.emptyRank = c.P > 1 && r.chance(0.25);
    c.replace = r.chance(0.5);
    c.stale = r.chance(0.3);
    c.cb = r.chance(0.4);
    c.nbuf = (int)r.pick(IV{1, 2, 7, 50, 1000});
    for (int d = 0; d < c.D; ++d) { c.lmin.push_back((int)r.in(1, 2)); c.lmax.push_back(c.lmin.back() + (int)r.in(0, 2)); }
    vh::caseBegin(i, c.desc());
    vh::distinct(vh::strSig(c.desc()));
    vh::count("cases");
    if (s.rank == 0) vh::sample(c.desc());
    vh::guarded([&]() {
      if (c.type == 0) ioCase<double>(c, r);
      else if (c.type == 1) ioCase<float>(c, r);
      else ioCase<std::complex<double>>(c, r);
    });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
