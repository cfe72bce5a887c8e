// Monitored workloads on distributed full grids: index maps and partition (suite index),
// hierarchization (suite hier), evaluation and norms (suite eval), plot files (suite plot).
#define OMPI_SKIP_MPICXX 1
#include "mpi/MPISystem.hpp"
#include <mpi.h>

#include <algorithm>
#include <fstream>
#include <numeric>

#include "fullgrid/DistributedFullGrid.hpp"
#include "fullgrid/FullGrid.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "hierarchization/Hierarchization.hpp"
#include "utils/MonteCarlo.hpp"
#include "vh.hpp"

using namespace combigrid;
using vh::IV;
using vh::Rng;

static MPI_Comm cartComm(const IV& procs, const IV& periods) {
  static std::map<std::pair<IV, IV>, MPI_Comm> cache;
  auto key = std::make_pair(procs, periods);
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  int P = (int)vh::total(procs);
  MPI_Comm sub = MPI_COMM_NULL, cart = MPI_COMM_NULL;
  MPI_Comm_split(MPI_COMM_WORLD, vh::st().rank < P ? 0 : MPI_UNDEFINED, vh::st().rank, &sub);
  if (sub != MPI_COMM_NULL)
    MPI_Cart_create(sub, (int)procs.size(), const_cast<int*>(procs.data()), const_cast<int*>(periods.data()), 0, &cart);
  cache[key] = cart;
  return cart;
}

struct Case {
  IV l, b, procs;
  std::vector<IndexVector> decomp;  // empty: default
  bool forward = false;
  uint64_t dseed = 0;
  int type = 0;
  std::string desc() const {
    std::ostringstream o;
    o << "levels=" << vh::vstr(l) << " boundary=" << vh::vstr(b) << " procs=" << vh::vstr(procs) << " decomp=";
    if (decomp.empty()) o << "default(" << (forward ? "fwd" : "bwd") << ")";
    else for (auto& d : decomp) o << vh::vstr(d);
    o << " type=" << (type == 0 ? "double" : type == 1 ? "float" : "complex");
    return o.str();
  }
};

static Case genCase(Rng& r, int maxD, int maxPts, int minLevel = 1, int maxP = 8) {
  Case c;
  int D = (int)r.pick(std::vector<int>{1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6});
  D = std::min(D, maxD);
  int mode = (int)r.in(0, 4);  // homogeneous boundaries most of the time
  for (int d = 0; d < D; ++d) c.b.push_back(mode < 3 ? mode : (int)r.in(0, 2));
  c.l.assign((size_t)D, minLevel);
  long budget = r.in(maxPts / 20 + 4, maxPts);
  for (int t = 0; t < 40; ++t) {
    size_t d = (size_t)r.in(0, D - 1);
    if (c.l[d] >= 8) continue;
    c.l[d]++;
    if (vh::total(vh::shape(c.l, c.b)) > budget) c.l[d]--;
  }
  IV s = vh::shape(c.l, c.b);
  c.procs = vh::randProcs(r, s, std::min(maxP, vh::st().size));
  int dm = (int)r.in(0, 3);
  if (dm == 0) c.forward = std::none_of(c.b.begin(), c.b.end(), [](int x) { return x == 1; }) && r.chance(.7);
  else if (dm <= 2) {
    for (int d = 0; d < D; ++d) {
      auto cuts = vh::randCuts(r, s[(size_t)d], c.procs[(size_t)d]);
      c.decomp.emplace_back(cuts.begin(), cuts.end());
    }
  } else {
    // as used for component grids: a decomposition of a finer reference grid, downsampled
    LevelVector ref, own;
    std::vector<BoundaryType> bb;
    std::vector<IndexVector> dec;
    bool ok = true;
    for (int d = 0; d < D; ++d) {
      int rl = c.l[(size_t)d] + (int)r.in(0, 2);
      ref.push_back(rl);
      own.push_back(c.l[(size_t)d]);
      bb.push_back((BoundaryType)c.b[(size_t)d]);
      auto cuts = vh::randCuts(r, vh::npts(rl, c.b[(size_t)d]), c.procs[(size_t)d]);
      dec.emplace_back(cuts.begin(), cuts.end());
    }
    auto down = downsampleDecomposition(dec, ref, own, bb);
    for (int d = 0; d < D; ++d)
      for (size_t k = 0; k < down[(size_t)d].size(); ++k) {
        int next = k + 1 < down[(size_t)d].size() ? (int)down[(size_t)d][k + 1] : s[(size_t)d];
        if (down[(size_t)d][k] >= next) ok = false;
      }
    if (ok) c.decomp = down;
  }
  c.dseed = r.next();
  return c;
}

template <class T>
static T val(uint64_t seed, uint64_t i);
template <>
double val<double>(uint64_t seed, uint64_t i) { return vh::hashVal(seed, i); }
template <>
float val<float>(uint64_t seed, uint64_t i) { return (float)vh::hashVal(seed, i); }
template <>
std::complex<double> val<std::complex<double>>(uint64_t seed, uint64_t i) {
  return {vh::hashVal(seed, 2 * i), vh::hashVal(seed ^ 77, 2 * i + 1)};
}

template <class T>
static std::unique_ptr<OwningDistributedFullGrid<T>> makeGrid(const Case& c, MPI_Comm comm) {
  LevelVector l(c.l.begin(), c.l.end());
  std::vector<BoundaryType> b(c.b.begin(), c.b.end());
  return std::unique_ptr<OwningDistributedFullGrid<T>>(new OwningDistributedFullGrid<T>(
      (DimType)c.l.size(), l, comm, b, c.procs, c.forward, c.decomp));
}
static MPI_Comm commOf(const Case& c) {
  IV periods;
  for (int b : c.b) periods.push_back(b == 1);
  return cartComm(c.procs, periods);
}

#define CHK(cond, key, msg)                 \
  do {                                      \
    vh::count("checks");                    \
    if (!(cond)) { std::ostringstream os_; os_.precision(17); os_ << msg; vh::fail(key, os_.str()); } \
  } while (0)

// global indices (multi) of the local box according to the gathered bounds
struct Boxes {
  std::vector<IV> lo, hi, cart;
};
template <class T>
static Boxes gatherBoxes(const DistributedFullGrid<T>& g, MPI_Comm comm) {
  int P, D = (int)g.getDimension();
  MPI_Comm_size(comm, &P);
  std::vector<int> mine, all((size_t)(P * 3 * D));
  for (int d = 0; d < D; ++d) mine.push_back((int)g.getLowerBounds()[(size_t)d]);
  for (int d = 0; d < D; ++d) mine.push_back((int)g.getUpperBounds()[(size_t)d]);
  IV cc((size_t)D);
  int rk;
  MPI_Comm_rank(comm, &rk);
  MPI_Cart_coords(comm, rk, D, cc.data());
  mine.insert(mine.end(), cc.begin(), cc.end());
  MPI_Allgather(mine.data(), 3 * D, MPI_INT, all.data(), 3 * D, MPI_INT, comm);
  Boxes b;
  for (int r = 0; r < P; ++r) {
    auto p = all.begin() + r * 3 * D;
    b.lo.emplace_back(p, p + D);
    b.hi.emplace_back(p + D, p + 2 * D);
    b.cart.emplace_back(p + 2 * D, p + 3 * D);
  }
  return b;
}

// ------------------------------------------------------------------------------------ index
template <class T>
static void indexCase(const Case& c, Rng& r) {
  MPI_Comm comm = commOf(c);
  if (comm == MPI_COMM_NULL) return;
  int rk, P;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &P);
  auto gp = makeGrid<T>(c, comm);
  auto& g = *gp;
  const size_t D = c.l.size();
  IV s = vh::shape(c.l, c.b);
  const long N = vh::total(s);
  CHK(g.getNrElements() == N, "index.size", "number of points " << g.getNrElements() << " expected " << N);
  for (size_t d = 0; d < D; ++d) CHK(g.getGlobalSizes()[d] == s[d], "index.size", "extent in " << d);
  Boxes bx = gatherBoxes(g, comm);
  // exact partition
  std::vector<int> owner((size_t)N, -1);
  for (int q = 0; q < P; ++q) {
    bool okb = true;
    for (size_t d = 0; d < D; ++d) okb = okb && bx.lo[(size_t)q][d] >= 0 && bx.hi[(size_t)q][d] <= s[d] && bx.lo[(size_t)q][d] < bx.hi[(size_t)q][d];
    CHK(okb, "index.partition", "box of rank " << q << " " << vh::vstr(bx.lo[(size_t)q]) << vh::vstr(bx.hi[(size_t)q]));
    if (!okb) return;
    IV last(bx.hi[(size_t)q]);
    for (auto& x : last) --x;
    vh::boxDo(bx.lo[(size_t)q], last, [&](const IV& v) {
      long i = vh::lin(v, s);
      CHK(owner[(size_t)i] == -1, "index.partition", "point " << vh::vstr(v) << " on ranks " << owner[(size_t)i] << " and " << q);
      owner[(size_t)i] = q;
    });
    auto lb = g.getLowerBounds(q), ub = g.getUpperBounds(q);
    CHK(IV(lb.begin(), lb.end()) == bx.lo[(size_t)q] && IV(ub.begin(), ub.end()) == bx.hi[(size_t)q], "index.bounds",
        "bounds of rank " << q << " as seen from " << rk);
    // unless told otherwise, the given decomposition is what is used
    if (!c.decomp.empty())
      for (size_t d = 0; d < D; ++d)
        CHK(bx.lo[(size_t)q][d] == c.decomp[d][(size_t)bx.cart[(size_t)q][d]], "index.bounds", "decomposition not respected by rank " << q << " dim " << d);
  }
  for (long i = 0; i < N; ++i) CHK(owner[(size_t)i] >= 0, "index.partition", "point " << i << " not stored anywhere");
  if (c.decomp.empty())
    for (size_t d = 0; d < D; ++d) {
      // default decomposition: equal shares up to one point
      int mn = 1 << 30, mx = 0;
      for (int q = 0; q < P; ++q) { int w = bx.hi[(size_t)q][d] - bx.lo[(size_t)q][d]; mn = std::min(mn, w); mx = std::max(mx, w); }
      CHK(mx - mn <= 1, "index.balance", "default decomposition unbalanced in dim " << d);
    }
  IV ls(D), lo = bx.lo[(size_t)rk];
  for (size_t d = 0; d < D; ++d) ls[d] = bx.hi[(size_t)rk][d] - lo[d];
  const long n = vh::total(ls);
  CHK(g.getNrLocalElements() == n, "index.size", "local size " << g.getNrLocalElements() << " expected " << n);
  if (g.getNrLocalElements() != n) return;
  auto uc = g.getUpperBoundsCoords();
  for (size_t d = 0; d < D; ++d) {
    double h = std::ldexp(1.0, -c.l[d]);
    int off = c.b[d] == 0 ? 1 : 0;
    CHK(g.getGridSpacing()[d] == h && g.getInverseGridSpacingIn((DimType)d) == std::ldexp(1.0, c.l[d]) && g.getInverseGridSpacing()[d] == std::ldexp(1.0, c.l[d]), "index.spacing", "dim " << d);
    CHK(g.getLowerBoundsCoord((DimType)d) == (lo[d] + off) * h, "index.coords", "lower bound coordinate dim " << d);
    CHK(uc[d] == (bx.hi[(size_t)rk][d] + off) * h, "index.coords", "upper bound coordinate dim " << d);
    CHK(g.getFirstGlobal1dIndex((DimType)d) == lo[d] && g.getLastGlobal1dIndex((DimType)d) == bx.hi[(size_t)rk][d] - 1, "index.bounds", "first/last 1d index dim " << d);
  }
  auto [cs, css, cst] = g.getSizesSubsizesStartsOfSubtensor();
  CHK(IV(cs.begin(), cs.end()) == s && IV(css.begin(), css.end()) == ls && IV(cst.begin(), cst.end()) == lo, "index.subtensor", "subarray description");
  // local -> global and back
  for (long i = 0; i < n; ++i) {
    IV lv = vh::unlin(i, ls), gv(lv);
    for (size_t d = 0; d < D; ++d) gv[d] += lo[d];
    long gi = vh::lin(gv, s);
    IndexVector a(D), e(D), f(D);
    g.getLocalVectorIndex((IndexType)i, a);
    CHK(IV(a.begin(), a.end()) == lv, "index.local_vector", "local " << i << " -> " << vh::vstr(a));
    g.getGlobalVectorIndex(a, e);
    CHK(IV(e.begin(), e.end()) == gv, "index.global_vector", "local " << vh::vstr(a) << " -> " << vh::vstr(e));
    CHK(g.getGlobalLinearIndex((IndexType)i) == gi, "index.global_linear", "local " << i << " -> " << g.getGlobalLinearIndex((IndexType)i) << " expected " << gi);
    CHK(g.getGlobalLinearIndex(e) == gi, "index.global_linear", "vector " << vh::vstr(e));
    g.getGlobalVectorIndex((IndexType)gi, f);
    CHK(IV(f.begin(), f.end()) == gv, "index.global_vector", "global " << gi << " -> " << vh::vstr(f));
    CHK(g.isGlobalIndexHere(f) && g.isGlobalIndexHere((IndexType)gi), "index.here", "own point " << gi << " not here");
    IndexVector back(D);
    CHK(g.getLocalVectorIndex(f, back) && IV(back.begin(), back.end()) == lv, "index.local_vector", "global " << vh::vstr(f) << " -> local " << vh::vstr(back));
    CHK(g.getLocalLinearIndex(a) == i, "index.local_linear", "vector " << vh::vstr(a));
    CHK(g.getLocalLinearIndex((IndexType)gi) == i, "index.local_linear_of_global", "global " << gi << " -> local " << g.getLocalLinearIndex((IndexType)gi) << " expected " << i << " lower=" << vh::vstr(lo));
    std::vector<real> x, y;
    g.getCoordsLocal((IndexType)i, x);
    g.getCoordsGlobal((IndexType)gi, y);
    auto onb = g.isLocalLinearIndexOnBoundary((IndexType)i);
    auto onbg = g.isGlobalLinearIndexOnBoundary((IndexType)gi);
    LevelVector lev;
    IndexVector ind;
    g.getGlobalLI((IndexType)gi, lev, ind);
    for (size_t d = 0; d < D; ++d) {
      double ex = (gv[d] + (c.b[d] == 0)) * std::ldexp(1.0, -c.l[d]);
      CHK(x[d] == ex && y[d] == ex, "index.coords", "point " << gi << " dim " << d << " coordinate " << x[d] << "/" << y[d] << " expected " << ex);
      bool bd = c.b[d] == 2 && (gv[d] == 0 || gv[d] == s[d] - 1);
      CHK(onb[d] == bd && onbg[d] == bd, "index.boundary", "point " << gi << " dim " << d);
      int hl = vh::hlevel1(gv[d], c.l[d], c.b[d]);
      // level in level/index notation; boundary points may be called level 0
      CHK(lev[d] == hl || (hl == 1 && lev[d] == 0 && (ex == 0 || ex == 1)), "index.level", "point " << gi << " dim " << d << " level " << lev[d] << " expected " << hl);
      if (ex != 0 && ex != 1) CHK(std::ldexp((double)ind[d], -lev[d]) == ex, "index.level", "level-index pair of point " << gi);
    }
  }
  // points of other ranks
  for (int t = 0; t < 60; ++t) {
    long gi = r.in(0, N - 1);
    if (owner[(size_t)gi] == rk) continue;
    IV gv = vh::unlin(gi, s);
    IndexVector v(gv.begin(), gv.end()), back(D);
    CHK(!g.isGlobalIndexHere(v) && !g.isGlobalIndexHere((IndexType)gi), "index.here", "foreign point " << gi << " claimed");
    CHK(!g.getLocalVectorIndex(v, back), "index.here", "foreign point " << gi << " claimed");
    CHK(g.getLocalLinearIndex((IndexType)gi) < 0, "index.here", "foreign point " << gi << " has a local index");
  }
  for (int t = 0; t < 30; ++t) {
    long gi = r.in(0, N - 1);
    IV gv = vh::unlin(gi, s);
    std::vector<int> pc;
    g.getPartitionCoords(IndexVector(gv.begin(), gv.end()), pc);
    CHK(pc == bx.cart[(size_t)owner[(size_t)gi]], "index.owner", "owner of point " << gi);
  }
  for (size_t d = 0; d < D; ++d)
    for (int i = 0; i < s[d]; ++i) {
      IV want = bx.cart[(size_t)rk];
      int expect = -1;
      for (int q = 0; q < P; ++q) {
        IV w2 = bx.cart[(size_t)q];
        w2[d] = want[d];
        if (w2 == want && bx.lo[(size_t)q][d] <= i && i < bx.hi[(size_t)q][d]) expect = q;
      }
      CHK(g.getNeighbor1dFromAxisIndex((DimType)d, i) == expect, "index.neighbor", "neighbor for 1d index " << i << " dim " << d);
      int hl = vh::hlevel1(i, c.l[d], c.b[d]);
      int gl = g.getLevel((DimType)d, i);
      int k = i + (c.b[d] == 0);
      bool bd = k == 0 || k == (1 << c.l[d]);
      CHK(bd ? gl <= 1 : gl == hl, "index.level", "1d level of " << i << " dim " << d << " is " << gl);
      if (!bd) {
        int dist = 1 << (c.l[d] - hl);
        int lp = i - dist, rp = i + dist;
        int top = s[d] - 1 + (c.b[d] == 1);  // periodic: virtual last point allowed
        int glp = g.getLeftPredecessor((DimType)d, i), grp = g.getRightPredecessor((DimType)d, i);
        CHK(lp < 0 ? glp < 0 : glp == lp, "index.predecessor", "left predecessor of " << i << " is " << glp);
        CHK(rp > top ? grp < 0 : grp == rp, "index.predecessor", "right predecessor of " << i << " is " << grp);
      }
    }
  CHK(g.getNeighbor1dFromAxisIndex(0, -1) < 0 && g.getNeighbor1dFromAxisIndex(0, s[0]) < 0, "index.neighbor", "outside");
  // subspaces: local points with exactly this hierarchical level
  std::map<IV, std::vector<long>> sub;
  for (long i = 0; i < n; ++i) {
    IV lv = vh::unlin(i, ls), hl(D);
    for (size_t d = 0; d < D; ++d) hl[d] = vh::hlevel1(lv[d] + lo[d], c.l[d], c.b[d]);
    sub[hl].push_back(i);
  }
  IV up(c.l);
  for (auto& x : up) ++x;  // one level beyond: must be empty
  long seen = 0;
  vh::boxDo(IV(D, 1), up, [&](const IV& l) {
    LevelVector lvv(l.begin(), l.end());
    auto pts = g.getFGPointsOfSubspace(lvv);
    std::vector<long> got(pts.begin(), pts.end());
    std::sort(got.begin(), got.end());
    auto it = sub.find(l);
    CHK(got == (it == sub.end() ? std::vector<long>() : it->second), "index.subspace", "subspace " << vh::vstr(l) << " has " << got.size() << " local points, expected " << (it == sub.end() ? 0 : it->second.size()));
    seen += (long)got.size();
  });
  CHK(seen == n, "index.subspace", "subspaces cover " << seen << " of " << n << " local points");
  for (size_t d = 0; d < D; ++d)
    for (int l = 1; l <= c.l[d]; ++l) {
      long e = 0;
      for (int i = lo[d]; i < lo[d] + ls[d]; ++i) e += vh::hlevel1(i, c.l[d], c.b[d]) == l;
      CHK(g.getNumPointsOnThisPartition((LevelType)l, (DimType)d) == e, "index.subspace", "number of 1d points of level " << l << " dim " << d);
    }
  // data: gathering to one process, ghost layers, boundary copies, corners
  for (long i = 0; i < n; ++i) {
    IV gv = vh::unlin(i, ls);
    for (size_t d = 0; d < D; ++d) gv[d] += lo[d];
    g.getData()[i] = val<T>(c.dseed, (uint64_t)vh::lin(gv, s));
  }
  {
    int root = (int)(c.dseed % (uint64_t)P);
    FullGrid<T> fg((DimType)D, LevelVector(c.l.begin(), c.l.end()), std::vector<BoundaryType>(c.b.begin(), c.b.end()));
    g.gatherFullGrid(fg, root);
    if (rk == root)
      for (long i = 0; i < N; ++i) CHK(fg.getData()[i] == val<T>(c.dseed, (uint64_t)i), "index.gather", "gathered value at " << i);
  }
  {
    auto cv = g.getCornersValues();
    auto ci = g.getCornersGlobalVectorIndices();
    CHK(ci.size() == (1u << D) && cv.size() == ci.size(), "index.corners", "count");
    std::set<IV> uniq;
    for (size_t k = 0; k < ci.size(); ++k) {
      IV v(ci[k].begin(), ci[k].end());
      uniq.insert(v);
      bool corner = true;
      for (size_t d = 0; d < D; ++d) corner = corner && (v[d] == 0 || v[d] == s[d] - 1);
      CHK(corner, "index.corners", "not a corner " << vh::vstr(v));
      if (corner) CHK(cv[k] == val<T>(c.dseed, (uint64_t)vh::lin(v, s)), "index.corners", "value at corner " << vh::vstr(v) << " " << vh::tos(cv[k]));
    }
    size_t expectUniq = 1;
    for (size_t d = 0; d < D; ++d) expectUniq *= s[d] > 1 ? 2 : 1;
    CHK(uniq.size() == expectUniq, "index.corners", "distinct corners");
  }
  for (size_t d = 0; d < D; ++d) {
    std::vector<int> ext;
    auto ghost = g.exchangeGhostLayerUpward((DimType)d, ext);
    IV below = bx.cart[(size_t)rk];
    below[d] -= 1;
    if (below[d] < 0 && c.b[d] == 1) below[d] = c.procs[d] - 1;
    int q = -1;
    for (int t = 0; t < P; ++t) if (bx.cart[(size_t)t] == below) q = t;
    if (q < 0) CHK(ghost.empty(), "index.ghost", "ghost layer received without lower neighbor, dim " << d);
    else {
      IV gs(ls);
      gs[d] = 1;
      CHK((long)ghost.size() == vh::total(gs), "index.ghost", "size of ghost layer dim " << d);
      if ((long)ghost.size() == vh::total(gs))
        for (long i = 0; i < (long)ghost.size(); ++i) {
          IV v = vh::unlin(i, gs);
          for (size_t e = 0; e < D; ++e) v[e] += lo[e];
          v[d] = bx.hi[(size_t)q][d] - 1;
          CHK(ghost[(size_t)i] == val<T>(c.dseed, (uint64_t)vh::lin(v, s)), "index.ghost", "ghost value dim " << d << " at " << vh::vstr(v));
        }
    }
  }
  for (size_t d = 0; d < D; ++d)
    if (c.b[d] == 2) {
      g.writeLowerBoundaryToUpperBoundary((DimType)d);
    }
  for (long i = 0; i < n; ++i) {
    IV gv = vh::unlin(i, ls);
    for (size_t d = 0; d < D; ++d) {
      gv[d] += lo[d];
      if (c.b[d] == 2 && gv[d] == s[d] - 1) gv[d] = 0;
    }
    CHK(g.getData()[i] == val<T>(c.dseed, (uint64_t)vh::lin(gv, s)), "index.boundary_copy", "value after copying lower to upper boundary, local " << i);
  }
  g.setZero();
  for (long i = 0; i < n; ++i) CHK(g.getData()[i] == T(0), "index.zero", "not zeroed");
}

// ------------------------------------------------------------------------------------ hier
static BasisFunctionBasis* makeBasis(int b) {
  switch (b) {
    case vh::HAT: return new HierarchicalHatBasisFunction();
    case vh::HATP: return new HierarchicalHatPeriodicBasisFunction();
    case vh::FW: return new FullWeightingBasisFunction();
    case vh::FWP: return new FullWeightingPeriodicBasisFunction();
    case vh::BIO: return new BiorthogonalBasisFunction();
    default: return new BiorthogonalPeriodicBasisFunction();
  }
}
template <class T>
static double epsOf() { return 1.2e-16; }
template <>
double epsOf<float>() { return 6e-8; }

template <class T>
static void hierCase(const Case& c, Rng& r) {
  const size_t D = c.l.size();
  std::vector<int> basis(D);
  IV lmin(D, 0);
  std::vector<bool> dims(D, true);
  int hom = (int)r.in(0, 5);
  double growth = 4;
  std::vector<bool> per(D, false);  // data has to be periodic there
  int lmode = (int)r.in(0, 3);
  for (size_t d = 0; d < D; ++d) {
    if (c.b[d] == 0) basis[d] = vh::HAT;
    else if (c.b[d] == 1) {
      static const int o[] = {vh::HAT, vh::HATP, vh::FWP, vh::BIOP};
      basis[d] = o[(hom < 4 ? hom : (int)r.in(0, 3))];
    } else basis[d] = hom < 5 ? (hom + 1) % 6 : (int)r.in(0, 5);
    if (sizeof(T) == 4 && basis[d] >= vh::FW) basis[d] = vh::HAT;
    if (c.b[d] == 2 && (basis[d] == vh::FWP || basis[d] == vh::BIOP)) per[d] = true;
    if (c.b[d] > 0) {
      if (lmode == 1) lmin[d] = 1;
      else if (lmode == 2) lmin[d] = (int)r.in(0, c.l[d]);
    }
    if (r.chance(.15)) dims[d] = false;
    growth *= basis[d] >= vh::FW ? std::pow(3.0, c.l[d]) : 2.0 + c.l[d];
  }
  std::ostringstream ds;
  ds << c.desc() << " basis=";
  for (int x : basis) ds << vh::basisName(x) << ",";
  ds << " lmin=" << vh::vstr(lmin) << " dims=";
  for (bool x : dims) ds << x;
  vh::st().curDesc = ds.str();
  vh::distinct(vh::strSig(ds.str()));
  MPI_Comm comm = commOf(c);
  if (comm == MPI_COMM_NULL) return;
  auto gp = makeGrid<T>(c, comm);
  auto& g = *gp;
  IV s = vh::shape(c.l, c.b);
  const long N = vh::total(s);
  auto wrap = [&](long i) {
    IV v = vh::unlin(i, s);
    for (size_t d = 0; d < D; ++d) if (per[d] && v[d] == s[d] - 1) v[d] = 0;
    return (uint64_t)vh::lin(v, s);
  };
  std::vector<T> ref((size_t)N), nodal, co((size_t)N);
  // periodic bases on grids that store both ends: ends may differ, then they are averaged
  const bool ends = c.dseed % 4 == 0 && std::find(per.begin(), per.end(), true) != per.end();
  if (ends) vh::count("cases_differing_ends");
  for (long i = 0; i < N; ++i) ref[(size_t)i] = val<T>(c.dseed, ends ? (uint64_t)i : wrap(i));
  nodal = ref;
  vh::transform(ref, c.l, c.b, dims, basis, lmin, true);
  std::vector<T> back(nodal);
  if (ends) { back = ref; vh::transform(back, c.l, c.b, dims, basis, lmin, false); }
  double tol = growth * epsOf<T>() * 40;
  IV lo(g.getLowerBounds().begin(), g.getLowerBounds().end()), ls(g.getLocalSizes().begin(), g.getLocalSizes().end());
  auto gidx = [&](long i) {
    IV v = vh::unlin(i, ls);
    for (size_t d = 0; d < D; ++d) v[d] += lo[d];
    return vh::lin(v, s);
  };
  auto compare = [&](const std::vector<T>& e, const char* key, const char* what) {
    for (long i = 0; i < g.getNrLocalElements(); ++i) {
      vh::count("checks");
      double df = vh::absd(g.getData()[i] - e[(size_t)gidx(i)]);
      if (!(df <= tol)) {
        vh::fail(key, std::string(what) + " at global " + vh::vstr(vh::unlin(gidx(i), s)) + ": got " + vh::tos(g.getData()[i]) + " expected " + vh::tos(e[(size_t)gidx(i)]));
        return;
      }
    }
  };
  std::vector<BasisFunctionBasis*> bases;
  for (int x : basis) bases.push_back(makeBasis(x));
  LevelVector lm(lmin.begin(), lmin.end());
  for (long i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = nodal[(size_t)gidx(i)];
  DistributedHierarchization::hierarchize<T>(g, dims, bases, lm);
  compare(ref, "hier.forward", "hierarchical coefficient");
  // conservation of the integral (independent of the reference transform)
  bool mass = true;
  for (size_t d = 0; d < D; ++d) mass = mass && dims[d] && basis[d] >= vh::FW;
  if (mass) {
    auto integral = [&](const std::vector<T>& v, bool coarse) {
      std::complex<double> sum = 0;
      for (long i = 0; i < N; ++i) {
        IV x = vh::unlin(i, s);
        double w = 1;
        for (size_t d = 0; d < D; ++d) {
          int step = coarse && lmin[d] < c.l[d] ? 1 << (c.l[d] - lmin[d]) : 1;
          if (x[d] % step) { w = 0; break; }
          w *= step * std::ldexp(1.0, -c.l[d]);
          if (c.b[d] == 2 && (x[d] == 0 || x[d] == s[d] - 1)) w *= .5;
        }
        sum += w * std::complex<double>(v[(size_t)i]);
      }
      return sum;
    };
    // local contributions of the real result
    std::vector<T> dist((size_t)N, T(0));
    for (long i = 0; i < g.getNrLocalElements(); ++i) dist[(size_t)gidx(i)] = g.getData()[i];
    std::complex<double> part = integral(dist, true), all;
    MPI_Allreduce(&part, &all, 1, MPI_CXX_DOUBLE_COMPLEX, MPI_SUM, comm);
    std::complex<double> e = integral(nodal, false);
    CHK(std::abs(all - e) <= tol, "hier.mass", "integral " << e << " became " << all);
    vh::count("mass_checks");
  }
  DistributedHierarchization::dehierarchize<T>(g, dims, bases, lm);
  compare(back, "hier.roundtrip", "nodal value after hierarchize+dehierarchize");
  for (long i = 0; i < N; ++i) co[(size_t)i] = val<T>(c.dseed ^ 0xabcdef, wrap(i));
  for (long i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = co[(size_t)gidx(i)];
  std::vector<T> refInv(co);
  vh::transform(refInv, c.l, c.b, dims, basis, lmin, false);
  DistributedHierarchization::dehierarchize<T>(g, dims, bases, lm);
  compare(refInv, "hier.inverse", "nodal value of given coefficients");
  DistributedHierarchization::hierarchize<T>(g, dims, bases, lm);
  compare(co, "hier.roundtrip2", "coefficient after dehierarchize+hierarchize");
  // the convenience entry point: hat in all dimensions
  bool allHat = true;
  for (size_t d = 0; d < D; ++d) allHat = allHat && dims[d] && basis[d] == vh::HAT && c.b[d] != 1;
  if (allHat) {
    for (long i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = nodal[(size_t)gidx(i)];
    DistributedHierarchization::hierarchize<T>(g, lm);
    compare(ref, "hier.forward", "coefficient (default hat)");
    DistributedHierarchization::dehierarchize<T>(g, lm);
    compare(nodal, "hier.roundtrip", "nodal value (default hat)");
    bool zero = std::all_of(lmin.begin(), lmin.end(), [](int x) { return x == 0; });
    if (zero) {
      // serial full grid implementation
      FullGrid<T> fg((DimType)D, LevelVector(c.l.begin(), c.l.end()), std::vector<BoundaryType>(c.b.begin(), c.b.end()));
      fg.createFullGrid();
      for (long i = 0; i < N; ++i) fg.getData()[i] = nodal[(size_t)i];
      Hierarchization::hierarchize(fg);
      bool ok = true;
      for (long i = 0; i < N && ok; ++i) {
        ok = vh::absd(fg.getData()[i] - ref[(size_t)i]) <= tol;
        CHK(ok, "hier.serial", "serial hierarchization at " << vh::vstr(vh::unlin(i, s)));
      }
      Hierarchization::dehierarchize(fg);
      for (long i = 0; i < N && ok; ++i) {
        ok = vh::absd(fg.getData()[i] - nodal[(size_t)i]) <= tol;
        CHK(ok, "hier.serial", "serial dehierarchization at " << vh::vstr(vh::unlin(i, s)));
      }
      vh::count("serial_checks");
    }
  }
  for (auto* b : bases) delete b;
}

// ------------------------------------------------------------------------------------ eval
template <class T>
static void evalCase(const Case& c, Rng& r) {
  MPI_Comm comm = commOf(c);
  const size_t D = c.l.size();
  IV s = vh::shape(c.l, c.b);
  const long N = vh::total(s);
  std::vector<T> v((size_t)N);
  for (long i = 0; i < N; ++i) v[(size_t)i] = val<T>(c.dseed, (uint64_t)i);
  // points
  std::vector<std::vector<double>> pts;
  int np = (int)r.in(0, 60);
  if (r.chance(.1)) np = 0;
  for (int t = 0; t < np; ++t) {
    std::vector<double> x(D);
    for (size_t d = 0; d < D; ++d) {
      switch (r.in(0, 6)) {
        case 0: x[d] = 0; break;
        case 1: x[d] = 1; break;
        case 2: x[d] = (double)r.in(0, 1 << c.l[d]) / (1 << c.l[d]); break;
        case 3: {  // at or next to a process border
          int cut = c.decomp.empty() ? (int)r.in(0, s[d] - 1) : (int)r.pick(c.decomp[d]);
          double y = (cut + (c.b[d] == 0)) * std::ldexp(1.0, -c.l[d]) + r.sym() * std::ldexp(1.0, -c.l[d]) * (r.chance(.3) ? 1e-9 : 1);
          x[d] = std::min(1.0, std::max(0.0, y));
          break;
        }
        case 4: x[d] = 1 - r.unit() * std::ldexp(1.0, -c.l[d]); break;
        default: x[d] = r.unit();
      }
    }
    pts.push_back(x);
  }
  if (comm == MPI_COMM_NULL) return;
  int rk, P;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &P);
  auto gp = makeGrid<T>(c, comm);
  auto& g = *gp;
  IV lo(g.getLowerBounds().begin(), g.getLowerBounds().end()), ls(g.getLocalSizes().begin(), g.getLocalSizes().end());
  auto gidx = [&](long i) {
    IV x = vh::unlin(i, ls);
    for (size_t d = 0; d < D; ++d) x[d] += lo[d];
    return vh::lin(x, s);
  };
  for (long i = 0; i < g.getNrLocalElements(); ++i) g.getData()[i] = v[(size_t)gidx(i)];
  auto got = g.getInterpolatedValues(pts);
  double tol = epsOf<T>() * 4096;
  CHK(got.size() == pts.size(), "eval.count", "number of values");
  for (size_t k = 0; k < pts.size() && k < got.size(); ++k) {
    T e = vh::interp(v, c.l, c.b, pts[k]);
    bool one = false;
    for (size_t d = 0; d < D; ++d) one = one || (pts[k][d] == 1.0 && c.b[d] == 1);
    CHK(vh::absd(got[k] - e) <= tol, one ? "eval.value.periodic_seam" : "eval.value", "at " << vh::vstr(pts[k]) << " got " << got[k] << " expected " << e);
    vh::count("points");
  }
  // sum of the local parts is the value
  if (!pts.empty()) {
    T loc = g.evalLocal(pts[0]), sum(0), loc2(0);
    g.evalLocal(pts[0], loc2);
    CHK(loc == loc2, "eval.local", "two ways of local evaluation differ");
    MPI_Allreduce(&loc, &sum, 1, g.getMPIDatatype(), MPI_SUM, comm);
    CHK(vh::absd(sum - got[0]) <= tol, "eval.local", "sum of local parts");
  }
  // serial full grid evaluation
  if (rk == 0 && std::all_of(c.b.begin(), c.b.end(), [](int b) { return b == 2; })) {
    FullGrid<T> fg((DimType)D, LevelVector(c.l.begin(), c.l.end()), std::vector<BoundaryType>(c.b.begin(), c.b.end()));
    fg.createFullGrid();
    for (long i = 0; i < N; ++i) fg.getData()[i] = v[(size_t)i];
    for (auto& p : pts) {
      auto q = p;
      T e = vh::interp(v, c.l, c.b, p);
      T a = fg.eval(q);
      CHK(vh::absd(a - e) <= tol, "eval.serial", "at " << vh::vstr(p) << " got " << a << " expected " << e);
    }
  }
  // norms
  double mx = 0;
  for (auto& x : v) mx = std::max(mx, vh::absd(x));
  CHK(std::abs(g.getLpNorm(0) - mx) <= tol, "eval.norm", "max norm " << g.getLpNorm(0) << " expected " << mx);
  double h = 1;
  for (size_t d = 0; d < D; ++d) h *= std::ldexp(1.0, -c.l[d]);
  CHK(g.getInnerNodalBasisFunctionIntegral() == h, "eval.norm", "inner basis integral");
  for (int p = 1; p <= 3; ++p) {
    double sum = 0;
    for (long i = 0; i < N; ++i) {
      IV x = vh::unlin(i, s);
      double w = h;
      for (size_t d = 0; d < D; ++d) if (c.b[d] == 2 && (x[d] == 0 || x[d] == s[d] - 1)) w *= .5;
      sum += w * std::pow(vh::absd(v[(size_t)i]), p);
    }
    double e = std::pow(sum, 1.0 / p), a = g.getLpNorm(p);
    // for p > 1 the code (and its tests) weight with the p-th power of the cell volume; accept either
    double e2 = std::pow(sum / h * std::pow(h, p), 1.0 / p);
    CHK(std::abs(a - e) <= 1e-9 * (1 + e) + tol * 10 || (p > 1 && std::abs(a - e2) <= 1e-9 * e2 + tol * 10 * e2), "eval.norm", "p=" << p << " norm " << a << " expected " << e << " or " << e2);
  }
}

// ------------------------------------------------------------------------------------ plot
template <class T>
static void plotCase(const Case& c, Rng& r) {
  MPI_Comm comm = commOf(c);
  const size_t D = c.l.size();
  IV s = vh::shape(c.l, c.b);
  const long N = vh::total(s);
  if (comm == MPI_COMM_NULL) return;
  int rk, P;
  MPI_Comm_rank(comm, &rk);
  MPI_Comm_size(comm, &P);
  auto gp = makeGrid<T>(c, comm);
  auto& g = *gp;
  IV lo(g.getLowerBounds().begin(), g.getLowerBounds().end()), ls(g.getLocalSizes().begin(), g.getLocalSizes().end());
  for (long i = 0; i < g.getNrLocalElements(); ++i) {
    IV x = vh::unlin(i, ls);
    for (size_t d = 0; d < D; ++d) x[d] += lo[d];
    g.getData()[i] = val<T>(c.dseed, (uint64_t)vh::lin(x, s));
  }
  std::string base = vh::st().out + "/plot" + std::to_string(vh::st().curCase);
  auto slurp = [](const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  };
  std::string payload((size_t)N * sizeof(T), 0);
  for (long i = 0; i < N; ++i) {
    T x = val<T>(c.dseed, (uint64_t)i);
    memcpy(&payload[(size_t)i * sizeof(T)], &x, sizeof(T));
  }
  std::string raw = base + ".raw", pl = base + ".plot";
  g.writePlotFile(raw.c_str());
  g.writePlotFile(pl.c_str());
  MPI_Barrier(comm);
  if (rk == 0) {
    auto a = slurp(raw);
    CHK(a == payload, "plot.raw", "raw file differs from the grid (size " << a.size() << " expected " << payload.size() << ")");
    std::ifstream hd(raw + "_header");
    std::string w;
    int hdim = -1;
    hd >> w >> hdim;
    CHK(hdim == (int)D || w != "dimensionality", "plot.raw_header", "dimension " << hdim);
    std::stringstream rest;
    rest << hd.rdbuf();
    std::ostringstream ex;
    ex << "Extents ";
    for (int x : s) ex << x << " ";
    CHK(rest.str().find(ex.str()) != std::string::npos, "plot.raw_header", "extents missing: " << rest.str());
    CHK(rest.str().find("Data type size " + std::to_string(sizeof(T))) != std::string::npos, "plot.raw_header", "data type size");
    auto b = slurp(pl);
    std::string ehdr((D + 1) * sizeof(int), 0);
    int di = (int)D;
    memcpy(&ehdr[0], &di, sizeof(int));
    for (size_t d = 0; d < D; ++d) memcpy(&ehdr[(d + 1) * sizeof(int)], &s[d], sizeof(int));
    CHK(b.size() == ehdr.size() + payload.size(), "plot.size", "plot file has " << b.size() << " bytes, expected " << ehdr.size() + payload.size());
    if (b.size() >= ehdr.size()) {
      CHK(b.substr(0, ehdr.size()) == ehdr, "plot.header", "header is not dimension followed by the resolution");
      CHK(b.substr(ehdr.size(), payload.size()) == payload, "plot.data", "values in plot file differ from the grid");
    }
  }
  if constexpr (std::is_same<T, double>::value) {
    if (D <= 3) {
      std::string vt = base + ".vtk";
      g.writePlotFileVTK(vt.c_str());
      MPI_Barrier(comm);
      if (rk == 0) {
        auto a = slurp(vt);
        auto p = a.find("LOOKUP_TABLE default\n");
        std::ostringstream dm, pd;
        dm << "DIMENSIONS";
        for (size_t d = 0; d < 3; ++d) dm << " " << (d < D ? s[d] : 1);
        pd << "POINT_DATA " << N << "\n";
        CHK(a.find(dm.str()) != std::string::npos && a.find(pd.str()) != std::string::npos, "plot.vtk_header", "dimensions/point data");
        CHK(p != std::string::npos, "plot.vtk_header", "no lookup table line");
        if (p != std::string::npos) {
          std::string data = a.substr(p + 21);
          std::string be(payload);
          for (size_t i = 0; i + 8 <= be.size(); i += 8) std::reverse(be.begin() + (long)i, be.begin() + (long)i + 8);
          //

          CHK(data.size() == payload.size() && (data == payload || data == be), "plot.vtk_data", "values in vtk file differ, " << data.size() << " bytes");
        }
        unlink(vt.c_str());
      }
    }
  }
  MPI_Barrier(comm);
  if (rk == 0) { unlink(raw.c_str()); unlink((raw + "_header").c_str()); unlink(pl.c_str()); }
}

template <class T>
static void dispatch(const Case& c, Rng& r) {
  const auto& su = vh::st().suite;
  if (su == "index") indexCase<T>(c, r);
  else if (su == "hier") hierCase<T>(c, r);
  else if (su == "eval") evalCase<T>(c, r);
  else if (su == "plot") plotCase<T>(c, r);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  combigrid::MpiOnOff mpiOnOff(&argc, &argv);
  vh::openLog();
  auto& s = vh::st();
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed, (uint64_t)i * 4 + vh::strSig(s.suite)));
    Case c = genCase(r, 6, s.suite == "hier" ? 3000 : 1500, 1, 8);
    c.type = (int)r.pick(std::vector<int>{0, 0, 0, 1, 2});
    vh::caseBegin(i, c.desc());
    vh::distinct(vh::strSig(c.desc()));
    vh::count("cases");
    vh::count("cases_procs" + std::to_string(vh::total(c.procs)));
    if (s.rank == 0) vh::sample(c.desc());
    vh::guarded([&]() {
      if (c.type == 0) dispatch<double>(c, r);
      else if (c.type == 1) dispatch<float>(c, r);
      else dispatch<std::complex<double>>(c, r);
    });
    vh::caseEnd();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
