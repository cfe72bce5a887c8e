// Communication monitor: stands between the program and the MPI library.
// - every collective operation is recorded per communicator; at the end of a case all members must have
//   recorded the same sequence with matching roots, sizes and types
// - every message sent must have been received with its length, every non-blocking operation completed
// - buffers given to non-blocking operations are summed at the start and at completion; receive buffers of
//   non-blocking operations are filled with rubbish first; freed buffers are found by AddressSanitizer
// - calls are delayed at random (VP_PMPI=seed:per mille:microseconds)
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <map>
#include <mutex>
#include <sstream>
#include <vector>

#include "vh.hpp"

#if defined(__SANITIZE_ADDRESS__)
extern "C" void* __asan_region_is_poisoned(void*, size_t);
#define POISONED(p, n) (__asan_region_is_poisoned(const_cast<void*>(p), n) != nullptr)
#else
#define POISONED(p, n) false
#endif

namespace {
typedef int64_t I;
enum Kind : I { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, GATHER, GATHERV, ALLGATHER, ALLGATHERV, SCATTER, SCATTERV, EXSCAN, SPLIT, DUP, CREATE, CART, IBARRIER, IBCAST, IALLREDUCE, ALLTOALL, SCAN, IREDUCE };
const char* kname[] = {"", "Barrier", "Bcast", "Reduce", "Allreduce", "Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Exscan", "Comm_split", "Comm_dup", "Comm_create", "Cart_create", "Ibarrier", "Ibcast", "Iallreduce", "Alltoall", "Scan", "Ireduce"};

struct Rec { I kind, root, send, recv, type, op; std::vector<I> counts; };
struct CommState { uint64_t id; int rank, size; uint64_t seq; };
struct P2P { uint64_t comm; int src, dst, tag; I bytes; bool send; };
struct Pend {
  int what;  // 0 send, 1 receive, 2 collective
  const void* buf; size_t count; MPI_Datatype type; MPI_Comm comm;  // guarded buffer (not to be modified)
  uint64_t sum; bool guard, contiguous;
  const void* rbuf; size_t rbytes;  // receive buffer, if contiguous
  uint64_t id; int me; std::string name;
};
std::recursive_mutex mtx;
typedef std::lock_guard<std::recursive_mutex> Lock;
int keyval = MPI_KEYVAL_INVALID;
bool on = false;
MPI_Comm priv = MPI_COMM_NULL;
std::map<uint64_t, std::pair<CommState, std::vector<Rec>>> logOf;
std::vector<P2P> msgs;
std::map<MPI_Request, Pend> pend;
std::map<MPI_Request, std::string> released;
uint64_t rndState = 1;
int permille = 0, maxUs = 0;
uint64_t nDelay = 0, nColl = 0, nMsg = 0, nReq = 0, nGuard = 0;

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
uint64_t rnd() {
  uint64_t z = (rndState += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void delay() {
  if (!permille) return;
  uint64_t r, u;
  { Lock l(mtx); r = rnd(); u = rnd(); }
  if ((int)(r % 1000) < permille) {
    timespec t{0, (long)(u % (uint64_t)maxUs) * 1000};
    nanosleep(&t, nullptr);
    Lock l(mtx);
    ++nDelay;
  }
}
int delState(MPI_Comm, int, void* v, void*) { delete (CommState*)v; return MPI_SUCCESS; }
CommState* stateOf(MPI_Comm c) {
  if (!on || c == MPI_COMM_NULL) return nullptr;
  void* v;
  int f;
  PMPI_Comm_get_attr(c, keyval, &v, &f);
  return f ? (CommState*)v : nullptr;
}
void setState(MPI_Comm c, uint64_t id) {
  if (!on || c == MPI_COMM_NULL) return;
  auto* s = new CommState;
  s->id = id;
  s->seq = 0;
  PMPI_Comm_rank(c, &s->rank);
  PMPI_Comm_size(c, &s->size);
  PMPI_Comm_set_attr(c, keyval, s);
}
void start() {
  PMPI_Comm_create_keyval(MPI_COMM_NULL_COPY_FN, delState, &keyval, nullptr);
  PMPI_Comm_dup(MPI_COMM_WORLD, &priv);
  on = true;
  setState(MPI_COMM_WORLD, 1);
  int r;
  PMPI_Comm_rank(MPI_COMM_WORLD, &r);
  const char* e = getenv("VP_PMPI");
  if (e) {
    unsigned long long s;
    if (sscanf(e, "%llu:%d:%d", &s, &permille, &maxUs) == 3) rndState = mix(s, (uint64_t)r + 1);
    if (maxUs < 1) permille = 0;
  }
}
I bytesOf(I n, MPI_Datatype t) {
  if (t == MPI_DATATYPE_NULL) return 0;
  int s;
  PMPI_Type_size(t, &s);
  return n * s;
}
I typeOf(MPI_Datatype t) {
  int ni, na, nd, c;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &c);
  if (c != MPI_COMBINER_NAMED) return 0;
  char n[MPI_MAX_OBJECT_NAME];
  int l;
  PMPI_Type_get_name(t, n, &l);
  return (I)(vh::strSig(n) >> 1);
}
I opOf(MPI_Op o) {
  return o == MPI_SUM ? 1 : o == MPI_MAX ? 2 : o == MPI_MIN ? 3 : o == MPI_LAND ? 4 : o == MPI_LOR ? 5 : o == MPI_PROD ? 6 : o == MPI_BAND ? 7 : o == MPI_BOR ? 8 : 99;
}
uint64_t coll(MPI_Comm c, Rec r) {
  Lock l(mtx);
  CommState* s = stateOf(c);
  if (!s) return 0;
  ++nColl;
  auto& x = logOf[s->id];
  x.first = *s;
  x.second.push_back(std::move(r));
  return mix(s->id, ++s->seq);
}
bool contiguous(MPI_Datatype t) {
  MPI_Aint lb, ex;
  int s;
  PMPI_Type_get_extent(t, &lb, &ex);
  PMPI_Type_size(t, &s);
  int ni, na, nd, c;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &c);
  return lb == 0 && ex == s && c == MPI_COMBINER_NAMED;
}
bool sumOf(const void* b, size_t n, MPI_Datatype t, MPI_Comm c, bool cont, uint64_t& h) {
  h = 1469598103934665603ull;
  auto add = [&](const unsigned char* p, size_t k) { for (size_t i = 0; i < k; ++i) { h ^= p[i]; h *= 1099511628211ull; } };
  size_t k = (size_t)bytesOf((I)n, t);
  if (cont) {
    if (k && POISONED(b, k)) return false;
    add((const unsigned char*)b, k);
    return true;
  }
  int sz, pos = 0;
  PMPI_Pack_size((int)n, t, c, &sz);
  std::vector<unsigned char> v((size_t)sz + 1);
  PMPI_Pack(const_cast<void*>(b), (int)n, t, v.data(), sz, &pos, c);
  add(v.data(), (size_t)pos);
  return true;
}
void begin(MPI_Request q, int what, const void* guardBuf, I n, MPI_Datatype t, MPI_Comm c, const void* rbuf, I rn, const char* name) {
  if (!on || q == MPI_REQUEST_NULL) return;
  Lock l(mtx);
  Pend p;
  p.what = what; p.buf = guardBuf; p.count = (size_t)n; p.type = t; p.comm = c; p.name = name;
  p.contiguous = contiguous(t);
  p.guard = guardBuf != nullptr && n > 0;
  p.sum = 0;
  auto* s = stateOf(c);
  p.id = s ? s->id : 0;
  p.me = s ? s->rank : 0;
  if (p.guard && !p.contiguous) {
    // a derived type may be freed before the operation is complete: keep a copy
    MPI_Datatype d;
    PMPI_Type_dup(t, &d);
    p.type = d;
    if (stateOf(c) == nullptr) p.guard = false;
  }
  if (p.guard) { ++nGuard; sumOf(p.buf, p.count, p.type, c, p.contiguous, p.sum); }
  p.rbuf = p.contiguous ? rbuf : nullptr;
  p.rbytes = rbuf ? (size_t)bytesOf(rn, t) : 0;
  ++nReq;
  auto old = pend.find(q);
  if (old != pend.end()) pend.erase(old);  // the library uses a handle again after its release
  pend[q] = p;
}
void done(MPI_Request q, const MPI_Status* st) {
  if (!on || q == MPI_REQUEST_NULL) return;
  Lock l(mtx);
  auto it = pend.find(q);
  if (it == pend.end()) return;
  Pend p = it->second;
  pend.erase(it);
  if (p.guard) {
    uint64_t h;
    if (!sumOf(p.buf, p.count, p.type, p.comm == MPI_COMM_NULL ? MPI_COMM_WORLD : priv, p.contiguous, h)) vh::fail("mpi.freed", p.name + ": the buffer was freed before the operation was complete");
    else if (h != p.sum) vh::fail("mpi.modified", p.name + ": the send buffer was modified before the operation was complete");
    if (!p.contiguous) PMPI_Type_free(&p.type);
  }
  if (p.rbuf && p.rbytes && POISONED(p.rbuf, p.rbytes)) vh::fail("mpi.freed", p.name + ": the receive buffer was freed before the operation was complete");
  if (p.what == 1 && st && p.id) {
    int n;
    PMPI_Get_count(st, MPI_BYTE, &n);
    msgs.push_back({p.id, st->MPI_SOURCE, p.me, st->MPI_TAG, n, false});
  }
}
void sent(MPI_Comm c, int dest, int tag, I bytes) {
  if (dest == MPI_PROC_NULL) return;
  Lock l(mtx);
  auto* s = stateOf(c);
  ++nMsg;
  if (s) msgs.push_back({s->id, s->rank, dest, tag, bytes, true});
}
void received(MPI_Comm c, const MPI_Status& st) {
  if (st.MPI_SOURCE == MPI_PROC_NULL) return;
  Lock l(mtx);
  auto* s = stateOf(c);
  int n;
  PMPI_Get_count(&st, MPI_BYTE, &n);
  if (s) msgs.push_back({s->id, st.MPI_SOURCE, s->rank, st.MPI_TAG, n, false});
}
std::vector<I> times(const int* n, int k, MPI_Datatype t) {
  std::vector<I> r;
  for (int i = 0; i < k; ++i) r.push_back(bytesOf(n[i], t));
  return r;
}
int sizeOf(MPI_Comm c) { int s; PMPI_Comm_size(c, &s); return s; }
int rankOf(MPI_Comm c) { int s; PMPI_Comm_rank(c, &s); return s; }

// ---- at the end of a case
std::vector<I> pack() {
  std::vector<I> v;
  v.push_back((I)logOf.size());
  for (auto& x : logOf) {
    v.push_back((I)x.first);
    v.push_back(x.second.first.rank);
    v.push_back(x.second.first.size);
    v.push_back((I)x.second.second.size());
    for (auto& r : x.second.second) {
      for (I k : {r.kind, r.root, r.send, r.recv, r.type, r.op, (I)r.counts.size()}) v.push_back(k);
      v.insert(v.end(), r.counts.begin(), r.counts.end());
    }
  }
  v.push_back((I)msgs.size());
  for (auto& m : msgs) for (I k : {(I)m.comm, (I)m.src, (I)m.dst, (I)m.tag, m.bytes, (I)m.send}) v.push_back(k);
  return v;
}
struct Member { int rank, size, world; std::vector<Rec> recs; };
void judge(const std::vector<std::vector<I>>& all) {
  std::map<I, std::map<int, Member>> comms;
  std::map<std::vector<I>, std::pair<std::map<I, int>, std::map<I, int>>> mm;  // (comm, src, dst, tag) -> lengths sent, received
  uint64_t sig = 1;
  for (size_t w = 0; w < all.size(); ++w) {
    const I* p = all[w].data();
    for (I nc = *p++; nc > 0; --nc) {
      I id = *p++;
      Member m;
      m.rank = (int)*p++;
      m.size = (int)*p++;
      m.world = (int)w;
      for (I n = *p++; n > 0; --n) {
        Rec r{p[0], p[1], p[2], p[3], p[4], p[5], {}};
        I k = p[6];
        p += 7;
        r.counts.assign(p, p + k);
        p += k;
        m.recs.push_back(r);
      }
      comms[id][m.rank] = m;
    }
    for (I n = *p++; n > 0; --n, p += 6) {
      auto& x = mm[{p[0], p[1], p[2], p[3]}];
      (p[5] ? x.first : x.second)[p[4]]++;
      sig = mix(sig, (uint64_t)p[1] * 1000003u + (uint64_t)p[2] * 101u + (uint64_t)p[3]);
      vh::count("messages");
    }
  }
  for (auto& c : comms) {
    auto& ms = c.second;
    const Member& a = ms.begin()->second;
    vh::count("communicators");
    for (auto& m : ms) {
      size_t n = std::min(a.recs.size(), m.second.recs.size()), k = 0;
      while (k < n && a.recs[k].kind == m.second.recs[k].kind) ++k;
      auto nm = [&](const Member& x) { return k < x.recs.size() ? std::string(kname[x.recs[k].kind]) : std::string("nothing"); };
      if (k < n || a.recs.size() != m.second.recs.size()) {
        std::ostringstream o;
        o << "on a communicator of " << a.size << " processes, operation " << k << " of process " << a.world << " is " << nm(a) << ", of process " << m.second.world << " " << nm(m.second);
        vh::fail("mpi.sequence", o.str());
        return;
      }
    }
    if ((int)ms.size() != a.size) {
      std::ostringstream o;
      o << "only " << ms.size() << " of the " << a.size << " processes of a communicator take part in its operations, first " << kname[a.recs[0].kind];
      vh::fail("mpi.sequence", o.str());
      return;
    }
    for (size_t k = 0; k < a.recs.size(); ++k) {
      const Rec& r = a.recs[k];
      vh::count("collectives_checked");
      sig = mix(sig, (uint64_t)r.kind * 31u + (uint64_t)a.size);
      auto bad = [&](int rank, const std::string& what, I x, I y) {
        std::ostringstream o;
        o << kname[r.kind] << " (operation " << k << " on a communicator of " << a.size << " processes): " << what << " of process " << ms[rank].world << " is " << x << ", should be " << y;
        vh::fail("mpi.match", o.str());
      };
      const Rec* root = nullptr;
      for (auto& m : ms) if (m.first == r.root) root = &m.second.recs[k];
      for (auto& m : ms) {
        const Rec& q = m.second.recs[k];
        if (q.root != r.root) { bad(m.first, "root", q.root, r.root); continue; }
        switch (r.kind) {
          case BCAST: case IBCAST: case REDUCE: case IREDUCE: case ALLREDUCE: case IALLREDUCE: case EXSCAN: case SCAN: case ALLTOALL:
            if (q.send != r.send) bad(m.first, "number of bytes", q.send, r.send);
            if (q.type && r.type && q.type != r.type) bad(m.first, "type", q.type, r.type);
            if (q.op != r.op) bad(m.first, "reduction", q.op, r.op);
            break;
          case GATHER: if (root && q.send >= 0 && q.send != root->recv) bad(m.first, "number of bytes sent", q.send, root->recv); break;
          case SCATTER: if (root && q.recv >= 0 && q.recv != root->send) bad(m.first, "number of bytes received", q.recv, root->send); break;
          case GATHERV: if (root && q.send >= 0 && q.send != root->counts.at((size_t)m.first)) bad(m.first, "number of bytes sent", q.send, root->counts[(size_t)m.first]); break;
          case SCATTERV: if (root && q.recv >= 0 && q.recv != root->counts.at((size_t)m.first)) bad(m.first, "number of bytes received", q.recv, root->counts[(size_t)m.first]); break;
          case ALLGATHER: if (q.recv != r.recv || (q.send >= 0 && q.send != r.recv)) bad(m.first, "number of bytes", q.send, r.recv); break;
          case ALLGATHERV:
            if (q.counts != r.counts) bad(m.first, "total size", (I)q.counts.size(), (I)r.counts.size());
            if (q.send >= 0 && q.send != q.counts.at((size_t)m.first)) bad(m.first, "number of bytes sent", q.send, q.counts[(size_t)m.first]);
            break;
          default: break;
        }
      }
    }
  }
  for (auto& x : mm)
    if (x.second.first != x.second.second) {
      I s = 0, r = 0;
      for (auto& y : x.second.first) s += y.second;
      for (auto& y : x.second.second) r += y.second;
      std::ostringstream o;
      o << s << " messages with tag " << x.first[3] << " from process " << x.first[1] << " to " << x.first[2] << " of a communicator were sent, " << r << " received";
      vh::fail("mpi.message", o.str());
      break;
    }
  vh::distinct(sig);
}
}  // namespace

extern "C" {
void vhCaseHook() {
  if (!on) return;
  PMPI_Barrier(priv);
  std::vector<I> mine;
  {
    Lock l(mtx);
    for (auto& p : pend) {
      vh::fail("mpi.pending", p.second.name + ": the operation was never completed");
      break;
    }
    pend.clear();
    mine = pack();
    logOf.clear();
    msgs.clear();
    vh::count("collectives", (long long)nColl);
    vh::count("messages_sent", (long long)nMsg);
    vh::count("requests", (long long)nReq);
    vh::count("buffers_guarded", (long long)nGuard);
    vh::count("delays", (long long)nDelay);
    nColl = nMsg = nReq = nGuard = nDelay = 0;
  }
  int n = (int)mine.size(), np = sizeOf(priv), me = rankOf(priv);
  std::vector<int> len((size_t)np), off((size_t)np);
  PMPI_Gather(&n, 1, MPI_INT, len.data(), 1, MPI_INT, 0, priv);
  int tot = 0;
  for (int i = 0; i < np; ++i) { off[(size_t)i] = tot; tot += me == 0 ? len[(size_t)i] : 0; }
  std::vector<I> all((size_t)tot);
  PMPI_Gatherv(mine.data(), n, MPI_INT64_T, all.data(), len.data(), off.data(), MPI_INT64_T, 0, priv);
  if (me == 0) {
    std::vector<std::vector<I>> v;
    for (int i = 0; i < np; ++i) v.emplace_back(all.begin() + off[(size_t)i], all.begin() + off[(size_t)i] + len[(size_t)i]);
    judge(v);
  }
  PMPI_Barrier(priv);
}

int MPI_Init(int* a, char*** b) { int r = PMPI_Init(a, b); start(); return r; }
int MPI_Init_thread(int* a, char*** b, int q, int* p) { int r = PMPI_Init_thread(a, b, q, p); start(); return r; }
int MPI_Finalize() { on = false; return PMPI_Finalize(); }

int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) {
  delay();
  uint64_t h = coll(c, {SPLIT, 0, 0, 0, 0, 0, {}});
  int r = PMPI_Comm_split(c, color, key, n);
  if (h) setState(*n, mix(h, (uint64_t)color + 7));
  return r;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  uint64_t h = coll(c, {DUP, 0, 0, 0, 0, 0, {}});
  int r = PMPI_Comm_dup(c, n);
  if (h) setState(*n, mix(h, 3));
  return r;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) {
  uint64_t h = coll(c, {CREATE, 0, 0, 0, 0, 0, {}});
  int r = PMPI_Comm_create(c, g, n);
  if (h && *n != MPI_COMM_NULL) {
    int k;
    MPI_Group w;
    PMPI_Group_size(g, &k);
    PMPI_Comm_group(MPI_COMM_WORLD, &w);
    std::vector<int> a((size_t)k), b((size_t)k);
    for (int i = 0; i < k; ++i) a[(size_t)i] = i;
    PMPI_Group_translate_ranks(g, k, a.data(), w, b.data());
    PMPI_Group_free(&w);
    for (int x : b) h = mix(h, (uint64_t)x);
    setState(*n, h);
  }
  return r;
}
int MPI_Cart_create(MPI_Comm c, int nd, const int* dims, const int* per, int reorder, MPI_Comm* n) {
  I d = 0;
  for (int i = 0; i < nd; ++i) d = d * 1000 + dims[i];
  uint64_t h = coll(c, {CART, d, 0, 0, 0, 0, {}});
  int r = PMPI_Cart_create(c, nd, dims, per, reorder, n);
  if (h) setState(*n, mix(h, 5));
  return r;
}

int MPI_Barrier(MPI_Comm c) { delay(); coll(c, {BARRIER, 0, 0, 0, 0, 0, {}}); return PMPI_Barrier(c); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { coll(c, {IBARRIER, 0, 0, 0, 0, 0, {}}); int r = PMPI_Ibarrier(c, q); begin(*q, 2, nullptr, 0, MPI_BYTE, c, nullptr, 0, "Ibarrier"); return r; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { delay(); coll(c, {BCAST, root, bytesOf(n, t), 0, typeOf(t), 0, {}}); return PMPI_Bcast(b, n, t, root, c); }
int MPI_Reduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { delay(); coll(c, {REDUCE, root, bytesOf(n, t), 0, typeOf(t), opOf(o), {}}); return PMPI_Reduce(s, b, n, t, o, root, c); }
int MPI_Allreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { delay(); coll(c, {ALLREDUCE, 0, bytesOf(n, t), 0, typeOf(t), opOf(o), {}}); return PMPI_Allreduce(s, b, n, t, o, c); }
int MPI_Exscan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { delay(); coll(c, {EXSCAN, 0, bytesOf(n, t), 0, typeOf(t), opOf(o), {}}); return PMPI_Exscan(s, b, n, t, o, c); }
int MPI_Scan(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { delay(); coll(c, {SCAN, 0, bytesOf(n, t), 0, typeOf(t), opOf(o), {}}); return PMPI_Scan(s, b, n, t, o, c); }
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  delay();
  bool me = rankOf(c) == root;
  coll(c, {GATHER, root, s == MPI_IN_PLACE ? -1 : bytesOf(sn, st), me ? bytesOf(n, t) : 0, 0, 0, {}});
  return PMPI_Gather(s, sn, st, b, n, t, root, c);
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* b, const int* n, const int* d, MPI_Datatype t, int root, MPI_Comm c) {
  delay();
  bool me = rankOf(c) == root;
  coll(c, {GATHERV, root, s == MPI_IN_PLACE ? -1 : bytesOf(sn, st), 0, 0, 0, me ? times(n, sizeOf(c), t) : std::vector<I>()});
  return PMPI_Gatherv(s, sn, st, b, n, d, t, root, c);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* b, int n, MPI_Datatype t, MPI_Comm c) {
  delay();
  coll(c, {ALLGATHER, 0, s == MPI_IN_PLACE ? -1 : bytesOf(sn, st), bytesOf(n, t), 0, 0, {}});
  return PMPI_Allgather(s, sn, st, b, n, t, c);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* b, const int* n, const int* d, MPI_Datatype t, MPI_Comm c) {
  delay();
  coll(c, {ALLGATHERV, 0, s == MPI_IN_PLACE ? -1 : bytesOf(sn, st), 0, 0, 0, times(n, sizeOf(c), t)});
  return PMPI_Allgatherv(s, sn, st, b, n, d, t, c);
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  delay();
  bool me = rankOf(c) == root;
  coll(c, {SCATTER, root, me ? bytesOf(sn, st) : 0, b == MPI_IN_PLACE ? -1 : bytesOf(n, t), 0, 0, {}});
  return PMPI_Scatter(s, sn, st, b, n, t, root, c);
}
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st, void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  delay();
  bool me = rankOf(c) == root;
  coll(c, {SCATTERV, root, 0, b == MPI_IN_PLACE ? -1 : bytesOf(n, t), 0, 0, me ? times(sn, sizeOf(c), st) : std::vector<I>()});
  return PMPI_Scatterv(s, sn, d, st, b, n, t, root, c);
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* q) {
  delay();
  coll(c, {IBCAST, root, bytesOf(n, t), 0, typeOf(t), 0, {}});
  bool me = rankOf(c) == root;
  if (!me && contiguous(t) && n > 0 && on) memset(b, 0xff, (size_t)bytesOf(n, t));
  int r = PMPI_Ibcast(b, n, t, root, c, q);
  begin(*q, 2, me ? b : nullptr, n, t, c, b, n, "Ibcast");
  return r;
}
int MPI_Iallreduce(const void* s, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request* q) {
  delay();
  coll(c, {IALLREDUCE, 0, bytesOf(n, t), 0, typeOf(t), opOf(o), {}});
  if (s != MPI_IN_PLACE && contiguous(t) && n > 0 && on) memset(b, 0xff, (size_t)bytesOf(n, t));
  int r = PMPI_Iallreduce(s, b, n, t, o, c, q);
  begin(*q, 2, s == MPI_IN_PLACE ? nullptr : s, n, t, c, b, n, "Iallreduce");
  return r;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { delay(); sent(c, d, tag, bytesOf(n, t)); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) {
  delay();
  sent(c, d, tag, bytesOf(n, t));
  int r = PMPI_Isend(b, n, t, d, tag, c, q);
  begin(*q, 0, b, n, t, c, nullptr, 0, "Isend");
  return r;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  MPI_Status x;
  int r = PMPI_Recv(b, n, t, s, tag, c, &x);
  received(c, x);
  if (st != MPI_STATUS_IGNORE) *st = x;
  return r;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) {
  int r = PMPI_Irecv(b, n, t, s, tag, c, q);
  begin(*q, 1, nullptr, n, t, c, b, n, "Irecv");
  return r;
}
int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int d, int tag, void* b2, int n2, MPI_Datatype t2, int s, int tag2, MPI_Comm c, MPI_Status* st) {
  delay();
  sent(c, d, tag, bytesOf(n, t));
  MPI_Status x;
  int r = PMPI_Sendrecv(b, n, t, d, tag, b2, n2, t2, s, tag2, c, &x);
  received(c, x);
  if (st != MPI_STATUS_IGNORE) *st = x;
  return r;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st) {
  MPI_Request o = *q;
  MPI_Status x;
  delay();
  int r = PMPI_Wait(q, &x);
  done(o, &x);
  if (st != MPI_STATUS_IGNORE) *st = x;
  return r;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  std::vector<MPI_Status> x((size_t)n);
  delay();
  int r = PMPI_Waitall(n, q, x.data());
  for (int i = 0; i < n; ++i) done(o[(size_t)i], &x[(size_t)i]);
  if (st != MPI_STATUSES_IGNORE) for (int i = 0; i < n; ++i) st[i] = x[(size_t)i];
  return r;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st) {
  MPI_Request o = *q;
  MPI_Status x;
  int r = PMPI_Test(q, f, &x);
  if (*f) { done(o, &x); if (st != MPI_STATUS_IGNORE) *st = x; }
  return r;
}
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  std::vector<MPI_Status> x((size_t)n);
  int r = PMPI_Testall(n, q, f, x.data());
  if (*f) for (int i = 0; i < n; ++i) { done(o[(size_t)i], &x[(size_t)i]); if (st != MPI_STATUSES_IGNORE) st[i] = x[(size_t)i]; }
  return r;
}
int MPI_Waitany(int n, MPI_Request* q, int* k, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  MPI_Status x;
  int r = PMPI_Waitany(n, q, k, &x);
  if (*k != MPI_UNDEFINED) done(o[(size_t)*k], &x);
  if (st != MPI_STATUS_IGNORE) *st = x;
  return r;
}
int MPI_Request_free(MPI_Request* q) {
  { Lock l(mtx); pend.erase(*q); }  // completes some time later: the message still has to be received
  return PMPI_Request_free(q);
}
int MPI_Testany(int n, MPI_Request* q, int* k, int* f, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  MPI_Status x;
  int r = PMPI_Testany(n, q, k, f, &x);
  if (*f && *k != MPI_UNDEFINED) { done(o[(size_t)*k], &x); if (st != MPI_STATUS_IGNORE) *st = x; }
  return r;
}
int MPI_Waitsome(int n, MPI_Request* q, int* k, int* idx, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  std::vector<MPI_Status> x((size_t)n);
  int r = PMPI_Waitsome(n, q, k, idx, x.data());
  for (int i = 0; *k != MPI_UNDEFINED && i < *k; ++i) { done(o[(size_t)idx[i]], &x[(size_t)i]); if (st != MPI_STATUSES_IGNORE) st[i] = x[(size_t)i]; }
  return r;
}
int MPI_Testsome(int n, MPI_Request* q, int* k, int* idx, MPI_Status* st) {
  std::vector<MPI_Request> o(q, q + n);
  std::vector<MPI_Status> x((size_t)n);
  int r = PMPI_Testsome(n, q, k, idx, x.data());
  for (int i = 0; *k != MPI_UNDEFINED && i < *k; ++i) { done(o[(size_t)idx[i]], &x[(size_t)i]); if (st != MPI_STATUSES_IGNORE) st[i] = x[(size_t)i]; }
  return r;
}
int MPI_Cancel(MPI_Request* q) {
  { Lock l(mtx); pend.erase(*q); }
  return PMPI_Cancel(q);
}
}
