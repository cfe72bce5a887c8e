// Sockets under fragmentation, foreign byte order and disconnects (C09); the broker (C10).
#define OMPI_SKIP_MPICXX 1
#include <fcntl.h>
#include <netinet/tcp.h>
#include <spawn.h>
#include <sys/wait.h>
#include <complex>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "broker.hpp"
#include "third_level/NetworkUtils.hpp"
#include "third_level/ThirdLevelUtils.hpp"
#include "vh.hpp"
using namespace combigrid;
using vh::Rng;

#define CHK(cond, key, msg) \
  ([&]() -> bool { vh::count("checks"); if (cond) return true; std::ostringstream o_; o_ << msg; vh::fail(key, o_.str()); return false; }())

extern "C" void fragSet(uint64_t seed, int mode);
extern "C" uint64_t fragSplits();
extern "C" uint64_t fragCalls();
extern "C" uint64_t fragBadCloses();

static ServerSocket* server() {  // one for the whole run
  static ServerSocket* s = nullptr;
  if (!s) {
    s = new ServerSocket(0);
    if (!s->init()) throw std::runtime_error("harness: no server socket");
  }
  return s;
}
struct Pair { std::shared_ptr<ClientSocket> a, b; };
static Pair connectPair() {
  Pair p;
  p.a = std::make_shared<ClientSocket>("127.0.0.1", server()->getPort());
  bool ok = false;
  std::thread t([&] { ok = p.a->init(); });
  p.b = server()->acceptClient();
  t.join();
  if (!CHK(ok && p.b && p.a->isInitialized() && p.b->isInitialized(), "net.connect", "connecting failed")) throw std::runtime_error("no connection");
  int one = 1;
  setsockopt(p.a->getFileDescriptor(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  setsockopt(p.b->getFileDescriptor(), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  return p;
}

template <class T> static T val(uint64_t s, size_t k) {
  uint64_t z = vh::mix(s, k);
  if constexpr (std::is_same<T, std::complex<double>>::value) return T((double)(int64_t)(z >> 20) / 1024., (double)(int64_t)(vh::mix(z, 1) >> 30) / 8.);
  else if constexpr (std::is_floating_point<T>::value) return (T)((double)(int64_t)(z >> 34) / 1024. - 1e6);
  else return (T)z;
}
template <class T> static std::vector<T> vals(uint64_t s, size_t n) { std::vector<T> v(n); for (size_t k = 0; k < n; ++k) v[k] = val<T>(s, k); return v; }
// bytes as a system of the other byte order would send them
template <class T> static std::string foreign(const std::vector<T>& v) {
  std::string o;
  constexpr size_t u = std::is_same<T, std::complex<double>>::value ? 8 : sizeof(T);
  const char* p = reinterpret_cast<const char*>(v.data());
  for (size_t i = 0; i < v.size() * sizeof(T); i += u) for (size_t k = u; k-- > 0;) o += p[i + k];
  return o;
}
static std::string bytes(Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static size_t randLen(Rng& r) {
  switch (r.in(0, 9)) {
    case 0: return 1;
    case 1: return (size_t)r.in(2000, 60000);
    case 2: return (size_t)(1 << r.in(0, 12)) + (size_t)r.in(0, 1);
    default: return (size_t)r.in(1, 200);
  }
}

// one transfer: what the sender does, what the receiver does and checks
struct Op {
  std::function<bool(const ClientSocket&)> send;
  std::function<void(const ClientSocket&)> recv;
  std::string stream;  // exact bytes on the wire, for truncation
  std::function<bool(const ClientSocket&)> tryRecv;
  std::string name;
};

template <class T> static Op binaryOp(Rng& r, const char* name) {
  size_t n = randLen(r);
  uint64_t s = r.next();
  bool swap = r.chance(0.4), reduce = r.chance(0.5);
  size_t chunk = r.chance(0.5) ? (size_t)r.in(1, 3 * (int)sizeof(T) + 2) : r.chance(0.5) ? (size_t)r.in(1, 5000) : 131072;
  auto v = vals<T>(s, n), mine = vals<T>(s + 7, n);
  Op o;
  o.name = std::string(swap ? "foreign " : "") + name + (reduce ? " reduce " : " receive ") + std::to_string(n) + " chunk " + std::to_string(chunk);
  int x = 1;
  bool little = *(char*)&x == 1;
  o.stream = std::string(1, (char)(swap ? !little : little)) + (swap ? foreign(v) : std::string((const char*)v.data(), n * sizeof(T)));
  std::string stream = o.stream;
  o.send = [=](const ClientSocket& c) { return swap ? c.sendall(stream.data(), stream.size()) : c.sendallBinary(v.data(), v.size()); };
  auto doit = [=](const ClientSocket& c, std::vector<T>& got) {
    got = mine;
    if (reduce) return c.recvallBinaryAndReduceInPlace<T>(got.data(), n, [](const T& a, const T& b) -> T { return (T)(a + b); }, chunk);
    return c.recvallBinaryAndCorrectInPlace<T>(got.data(), n, chunk);
  };
  std::string nm = o.name;
  o.recv = [=](const ClientSocket& c) {
    std::vector<T> got;
    bool ok = doit(c, got);
    CHK(ok, "net.report", nm << ": reported as failed");
    size_t bad = n;
    for (size_t k = n; k-- > 0;) { T e = reduce ? (T)(mine[k] + v[k]) : v[k]; if (memcmp(&e, &got[k], sizeof(T)) != 0) bad = k; }
    CHK(bad == n, "net.data", nm << ": element " << bad << " is wrong");
    vh::count("elements", (long long)n);
  };
  o.tryRecv = [=](const ClientSocket& c) { std::vector<T> got; return doit(c, got); };
  return o;
}

static Op makeOp(Rng& r, int id) {
  Op o;
  size_t n = randLen(r);
  switch (r.in(0, 11)) {
    case 0: {
      std::string s = bytes(r, n);
      bool str = r.chance(0.5);
      o.name = "raw " + std::to_string(n);
      o.stream = s;
      o.send = [=](const ClientSocket& c) { return str ? c.sendall(s) : c.sendall(s.data(), s.size()); };
      o.recv = [=](const ClientSocket& c) { std::string g(n, 'x'); CHK(c.recvall(&g[0], n), "net.report", "raw: failed"); CHK(g == s, "net.data", "raw data of " << n << " bytes"); };
      o.tryRecv = [=](const ClientSocket& c) { std::string g(n, 'x'); return c.recvall(&g[0], n); };
      break;
    }
    case 1: {
      std::string s = bytes(r, n);
      o.name = "string " + std::to_string(n);
      o.stream = s;
      o.send = [=](const ClientSocket& c) { return c.sendall(s); };
      o.recv = [=](const ClientSocket& c) { std::string g("old"); CHK(c.recvall(g, n), "net.report", "string: failed"); CHK(g == s, "net.data", "string of " << n << " bytes"); };
      o.tryRecv = [=](const ClientSocket& c) { std::string g; return c.recvall(g, n); };
      break;
    }
    case 2: case 3: case 4: {
      std::string s = r.chance(0.3) ? std::to_string(r.next()) + "#" + bytes(r, n) : bytes(r, n);
      bool str = r.chance(0.5), rs = r.chance(0.5);
      o.name = "message " + std::to_string(s.size());
      o.stream = std::to_string(s.size()) + "#" + s;
      o.send = [=](const ClientSocket& c) { return str ? c.sendallPrefixed(s) : c.sendallPrefixed(s.data(), s.size()); };
      auto get = [=](const ClientSocket& c, std::string& g) {
        if (rs) return c.recvallPrefixed(g);
        std::unique_ptr<char[]> b;
        size_t len = 0;
        bool ok = c.recvallPrefixed(b, len);
        if (ok) g.assign(b.get(), len);
        return ok;
      };
      o.recv = [=](const ClientSocket& c) { std::string g("old"); CHK(get(c, g), "net.report", "message: failed"); CHK(g == s, "net.data", "message of " << s.size() << " bytes arrived with " << g.size()); };
      o.tryRecv = [=](const ClientSocket& c) { std::string g; return get(c, g); };
      break;
    }
    case 5: {
      std::string s = bytes(r, n), f = "net_" + std::to_string(id) + ".bin";
      size_t chunk = (size_t)r.in(1, 3000);
      bool le = NetworkUtils::isLittleEndian();
      o.name = "file " + std::to_string(n);
      o.stream = std::string(1, (char)le) + s;
      o.send = [=](const ClientSocket& c) { return c.sendallBinary(s.data(), n); };
      o.recv = [=](const ClientSocket& c) {
        CHK(c.recvallBinaryToFile(f, n, chunk), "net.report", "file: failed");
        std::string g = slurp(f);
        CHK(g == s, "net.data", "file of " << n << " bytes has " << g.size());
        unlink(f.c_str());
      };
      o.tryRecv = [=](const ClientSocket& c) { bool ok = c.recvallBinaryToFile(f, n, chunk); unlink(f.c_str()); return ok; };
      break;
    }
    case 6: {
      size_t len = r.chance(0.4) ? (size_t)r.in(2147483640ll, 99999999999ll) : (size_t)r.in(1, 1000000);
      o.name = "length " + std::to_string(len);
      o.stream = std::to_string(len) + "#";
      std::string st = o.stream;
      o.send = [=](const ClientSocket& c) { return c.sendall(st); };
      o.recv = [=](const ClientSocket& c) {
        size_t g = 0;
        bool ok = false;
        try { ok = c.recvLength(g); } catch (std::exception& e) { CHK(false, "net.length", "length " << len << ": " << e.what()); return; }
        CHK(ok && g == len, "net.length", "length " << len << " received as " << g);
      };
      o.tryRecv = [=](const ClientSocket& c) { size_t g; return c.recvLength(g); };
      break;
    }
    case 7: return binaryOp<float>(r, "float");
    case 8: return binaryOp<std::complex<double>>(r, "complex");
    case 9: return binaryOp<int64_t>(r, "int64");
    case 10: return binaryOp<int16_t>(r, "int16");
    default: return binaryOp<double>(r, "double");
  }
  return o;
}

static void sockCase(Rng& r, int i) {
  Pair p = connectPair();
  int md = (int)r.in(0, 4);
  fragSet(r.next(), md);
  std::string desc = "mode " + std::to_string(md);
  for (int dir = 0; dir < (r.chance(0.5) ? 2 : 1); ++dir) {
    std::vector<Op> ops;
    for (int k = (int)r.in(1, 6); k > 0; --k) { ops.push_back(makeOp(r, i)); desc += "; " + ops.back().name; }
    const ClientSocket &snd = dir ? *p.b : *p.a, &rcv = dir ? *p.a : *p.b;
    std::string err;
    std::thread t([&] { for (auto& o : ops) if (!o.send(snd)) err += o.name + " "; });
    for (auto& o : ops) o.recv(rcv);
    t.join();
    CHK(err.empty(), "net.report", "sending reported as failed: " << err);
    CHK(!rcv.isReadable(0), "net.data", "bytes left over after " << desc);
    CHK(rcv.isWriteable(1), "net.report", "not writeable");
    vh::count("transfers", (long long)ops.size());
  }
  // forwarding
  if (r.chance(0.4)) {
    Pair q = connectPair();
    size_t n = r.chance(0.1) ? 0 : randLen(r), chunk = r.chance(0.5) ? (size_t)r.in(1, 20) : (size_t)r.in(1, 100000);
    std::string s = bytes(r, n), more = bytes(r, 5), got(n, 'x'), tail;
    bool fw = false;
    std::thread t([&] { if (n) p.a->sendall(s); p.a->sendallPrefixed(more); });
    std::thread u([&] { fw = NetworkUtils::forward(*p.b, *q.a, chunk, n); });
    if (n) CHK(q.b->recvall(&got[0], n) && got == s, "net.forward", n << " bytes, chunk size " << chunk);
    t.join();
    u.join();
    CHK(fw, "net.forward", "reported as failed");
    CHK(p.b->recvallPrefixed(tail) && tail == more, "net.forward", "message behind the forwarded data");
    CHK(!q.b->isReadable(0), "net.forward", "more than " << n << " bytes forwarded");
    vh::count("forwards");
  }
  // the connection breaks
  int kind = (int)r.in(0, 5);
  if (kind <= 2) {
    Op o = makeOp(r, i);
    size_t at = (size_t)r.in(0, (int64_t)o.stream.size() - 1);
    bool viaForward = r.chance(0.2) && at > 0;
    std::string part = o.stream.substr(0, at);
    desc += "; broken after " + std::to_string(at) + " of " + o.name;
    std::thread t([&] { if (!part.empty()) p.a->sendall(part); p.a.reset(); });
    bool ok = true, thrown = false;
    if (viaForward) {
      Pair q = connectPair();
      std::thread u([&] { std::string x(part.size(), 0); q.b->recvall(&x[0], x.size()); });
      ok = NetworkUtils::forward(*p.b, *q.a, 100, o.stream.size());
      u.join();
    } else {
      try { ok = o.tryRecv(*p.b); } catch (std::exception&) { thrown = true; }
    }
    t.join();
    CHK(!ok || thrown, "net.broken", (viaForward ? "forwarding " : "receiving ") << o.name << " reported as complete although the connection was closed after " << at << " of " << o.stream.size() << " bytes");
    vh::count("broken");
  } else if (kind == 3) {  // the receiver is gone
    p.b.reset();
    fragSet(r.next(), 0);
    std::string s = bytes(r, (size_t)r.in(1, 1000));
    bool failed = false;
    for (int k = 0; k < 2000 && !failed; ++k) {
      switch (r.in(0, 2)) {
        case 0: failed = !p.a->sendall(s); break;
        case 1: failed = !p.a->sendallPrefixed(s); break;
        default: failed = !p.a->sendallBinary(s.data(), s.size());
      }
      if (k > 3) usleep(1000);
    }
    CHK(failed, "net.broken", "sending to a closed connection never reported as failed");
    vh::count("broken");
  } else if (kind == 4) {  // the broker is gone while a system uses it
    p.a.reset();
    p.b.reset();
    int what = (int)r.in(0, 4);
    std::vector<double> d((size_t)r.in(1, 50), 1.), orig = d;
    std::string full;
    std::string payload = std::string(1, (char)NetworkUtils::isLittleEndian()) + std::string((const char*)d.data(), d.size() * 8);
    std::string num = std::to_string(payload.size());
    if (what <= 1) full = std::to_string(num.size()) + "#" + num + payload;
    else if (what == 2) full = "10#send_first";
    else full = std::to_string(num.size()) + "#" + num;
    size_t at = (size_t)r.in(0, (int64_t)full.size() - 1);
    bool thrown = false;
    {
      ThirdLevelUtils tl("127.0.0.1", server()->getPort());
      std::shared_ptr<ClientSocket> peer;
      std::thread t([&] { peer = server()->acceptClient(); });
      tl.connectToThirdLevelManager(0.1);
      t.join();
      std::thread u([&] { if (at) peer->sendall(full.substr(0, at)); peer.reset(); });
      try {
        if (what == 0) tl.recvData(d.data(), d.size());
        else if (what == 1) tl.recvAndAddToData(d.data(), d.size());
        else if (what == 2) tl.fetchInstruction();
        else tl.receiveSize();
      } catch (std::exception&) { thrown = true; }
      u.join();
    }
    CHK(thrown, "net.broken", "system received as if complete although the broker was gone after " << at << " of " << full.size() << " bytes (operation " << what << ")");
    vh::count("broken");
  }
  vh::distinct(vh::strSig(desc));
  fragSet(0, 0);
}

// ---------------------------------------------------------------- the broker
struct Exch {  // one exchange, the same sequence on both systems
  int kind;    // 0 combine, 1 sizes, 2 data both ways, 3 data one way, 4 files
  std::vector<size_t> n;  // number of elements per grid (combine), or one number
  int type;    // element type
};
struct SysLog { std::vector<std::string> errors; long long bytes = 0, combi = 0, sizes = 0; std::string order; };

static std::string tname(int k) { return k == 0 ? "combination" : k == 1 ? "size exchange" : k == 4 ? "file combination" : "data exchange"; }
struct Nap {
  Rng r;
  double p;
  void operator()() { if (r.chance(p)) usleep((useconds_t)r.in(0, r.chance(0.1) ? 20000 : 1500)); }
};
template <class T> static void transferT(const ThirdLevelUtils& tl, const Exch& x, size_t n, uint64_t base, int me, bool first, Nap& nap, SysLog& L) {
  // mine/theirs: both know both data
  auto mine = vals<T>(base + (uint64_t)me, n), theirs = vals<T>(base + (uint64_t)(1 - me), n);
  auto bad = [&](const std::vector<T>& g, const std::vector<T>& e) { return memcmp(g.data(), e.data(), n * sizeof(T)) != 0; };
  std::vector<T> sum(n);
  for (size_t k = 0; k < n; ++k) sum[k] = (T)(mine[k] + theirs[k]);
  std::vector<T> d = mine;
  nap();
  if (x.kind == 0) {  // as the systems do: the second adds and sends the result back
    if (first) {
      tl.sendData(d.data(), n);
      nap();
      tl.recvData(d.data(), n);
    } else {
      tl.recvAndAddToData(d.data(), n);
      nap();
      tl.sendData(d.data(), n);
    }
    if (bad(d, sum)) L.errors.push_back("combination of " + std::to_string(n) + " values gave other values");
  } else if (x.kind == 3) {
    if (first) tl.sendData(d.data(), n);
    else { tl.recvData(d.data(), n); if (bad(d, theirs)) L.errors.push_back("one way data wrong"); }
  } else {
    if (first) { tl.sendData(d.data(), n); nap(); tl.recvData(d.data(), n); }
    else { std::vector<T> e(n); tl.recvData(e.data(), n); nap(); tl.sendData(d.data(), n); d = e; }
    if (bad(d, theirs)) L.errors.push_back(tname(x.kind) + " of " + std::to_string(n) + " values: not what the other system sent");
  }
  L.bytes += (long long)(n * sizeof(T) + 1);
  (x.kind == 0 ? L.combi : x.kind == 1 ? L.sizes : L.bytes) += (x.kind > 1 ? 0 : (long long)(n * sizeof(T) + 1));
}

static void systemRun(int port, const std::vector<Exch>& seq, uint64_t seed, int me, double napP, SysLog& L) {
  Nap nap{Rng(vh::mix(seed, (uint64_t)me + 5)), napP};
  try {
    nap();
    ThirdLevelUtils tl("127.0.0.1", port);
    {  // systems are processes of their own; gethostbyname may not be used by two threads
      static std::mutex m;
      std::lock_guard<std::mutex> g(m);
      tl.connectToThirdLevelManager(0.2);
    }
    for (size_t q = 0; q < seq.size(); ++q) {
      const Exch& x = seq[q];
      nap();
      if (x.kind == 0) tl.signalReadyToCombine();
      else if (x.kind == 1) tl.signalReadyToUnifySubspaceSizes();
      else if (x.kind == 4) tl.signalReadyToCombineFile();
      else tl.signalReadyToExchangeData();
      std::string ins = tl.fetchInstruction();
      if (x.kind == 4) {
        if (ins != "write_ok") L.errors.push_back("file combination answered with " + ins);
        nap();
        tl.signalReady();
        L.order += 'f';
        continue;
      }
      if (ins != "send_first" && ins != "recv_first") { L.errors.push_back("instruction '" + ins + "' for " + tname(x.kind)); return; }
      bool first = ins == "send_first";
      L.order += first ? '1' : '2';
      for (size_t g = 0; g < x.n.size(); ++g) {
        uint64_t base = vh::mix(seed, q * 1000 + g);
        switch (x.type) {
          case 0: transferT<double>(tl, x, x.n[g], base, me, first, nap, L); break;
          case 1: transferT<float>(tl, x, x.n[g], base, me, first, nap, L); break;
          case 2: transferT<std::complex<double>>(tl, x, x.n[g], base, me, first, nap, L); break;
          default: transferT<uint32_t>(tl, x, x.n[g], base, me, first, nap, L);
        }
      }
      nap();
      tl.signalReady();
    }
    nap();
  } catch (std::exception& e) {
    L.errors.push_back(std::string("exception ") + e.what());
  }
}

static void brokerCase(Rng& r, int i) {
  Broker b;
  int mode = r.chance(0.3) ? 0 : (int)r.in(2, 4), mine = r.chance(0.5) ? 0 : (int)r.in(2, 4);
  size_t chunk = r.chance(0.3) ? 131072 : (size_t)r.in(1, 300);
  std::string dir = vh::st().out + "/broker" + std::to_string(i);
  std::vector<Exch> seq;
  std::string desc = "chunk " + std::to_string(chunk);
  auto len = [&]() { return r.chance(0.2) ? (size_t)std::max<long>(1, (long)(chunk > 100000 ? 16384 : chunk / 8) + (long)r.in(-1, 1)) : randLen(r) % 9000 + 1; };
  for (int k = (int)r.in(0, 6); k > 0; --k) {
    Exch x;
    x.kind = (int)r.in(0, 4);
    x.type = (int)r.in(0, 3);
    for (int g = x.kind == 0 ? (int)r.in(0, 4) : 1; g > 0; --g) x.n.push_back(len());
    desc += "; " + tname(x.kind) + " " + vh::vstr(x.n);
    seq.push_back(x);
  }
  uint64_t seed = r.next();
  bool ini = r.chance(0.3);
  double p0 = r.chance(0.3) ? 0 : 0.6, p1 = r.chance(0.3) ? 0 : 0.6;
  fragSet(seed, mine);
  if (!CHK(b.start(vh::st().opt["broker"], dir, chunk, seed, mode, ini), "broker.start", "did not start: " << b.text)) { b.finish(); return; }
  SysLog L[2];
  std::thread t0(systemRun, b.port, std::cref(seq), seed, 0, p0, std::ref(L[0])), t1(systemRun, b.port, std::cref(seq), seed, 1, p1, std::ref(L[1]));
  t0.join();
  t1.join();
  int st = b.finish();
  for (int s = 0; s < 2; ++s) CHK(L[s].errors.empty(), "broker.data", "system " << s << ": " << L[s].errors[0] << " in " << desc);
  CHK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "broker.end", "broker ended with " << (WIFSIGNALED(st) ? "signal " : "exit code ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << " after " << desc);
  bool opp = L[0].order.size() == L[1].order.size();
  for (size_t k = 0; opp && k < L[0].order.size(); ++k) opp = L[0].order[k] == 'f' ? L[1].order[k] == 'f' : L[0].order[k] + L[1].order[k] == '1' + '2';
  CHK(opp, "broker.order", "the systems were told to go " << L[0].order << " and " << L[1].order);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::string js = slurp(dir + "/stats.json");
    long long nc = 0;
    for (auto& x : seq) nc += x.kind == 0 || x.kind == 4;
    CHK(statOf(js, "numCombinations") == nc, "broker.stats", "number of combinations " << statOf(js, "numCombinations") << " instead of " << nc);
    CHK(statOf(js, "totalBytesTransferredInCombination") == L[0].combi * 2, "broker.stats", "bytes of combinations " << statOf(js, "totalBytesTransferredInCombination") << " instead of " << L[0].combi * 2);
    CHK(statOf(js, "totalBytesTransferredInSizeExchange") == L[0].sizes * 2, "broker.stats", "bytes of size exchanges " << statOf(js, "totalBytesTransferredInSizeExchange") << " instead of " << L[0].sizes * 2);
  }
  unlink((dir + "/stats.json").c_str());
  unlink((dir + "/b.ini").c_str());
  rmdir(dir.c_str());
  fragSet(0, 0);
  vh::count("exchanges", (long long)seq.size());
  vh::count("bytes", L[0].bytes + L[1].bytes);
  vh::distinct(vh::strSig(desc + L[0].order));
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  vh::openLog();
  auto& s = vh::st();
  for (int i = s.first; i < s.first + s.cases; ++i) {
    if (!vh::wanted(i)) continue;
    Rng r(vh::mix(s.seed * 1315423911ull + vh::strSig(s.suite), (uint64_t)i));
    vh::caseBegin(i, s.suite + " " + std::to_string(i));
    vh::count("cases");
    try {
      uint64_t bad = fragBadCloses();
      if (s.suite == "sock") { sockCase(r, i); CHK(fragBadCloses() == bad, "net.close", "a descriptor was closed that was not open"); }
      else brokerCase(r, i);
    } catch (std::exception& e) {
      vh::fail("exception", std::string("uncaught exception: ") + e.what());
    }
    vh::caseEnd();
  }
  vh::count("splits", (long long)fragSplits());
  vh::count("socket_calls", (long long)fragCalls());
  vh::finish();
  return vh::st().fails ? 3 : 0;
}
