// C27 and C26: what the operations of the library leave behind or share.
//
// A list of operations on objects of their own, each a function of a seed:
//  - C27: many threads run them at the same time (under the thread sanitizer),
//    partly on copies of common objects; results must be those of one thread.
//  - C26: every operation is repeated; the memory in use must not grow.
// C26 also repeats operations on long-lived networks and queues.
#include "frn.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/net/shared_deque.h"
#include "frn/lib/primitives/hash.h"
#include "frn/lib/primitives/prg.h"
#include "frn/lib/secret_sharing/additive.h"
#include "frn/lib/secret_sharing/rep.h"
#define VERIF_CHAOS_IMPL
#include "netkit.h"
#include "ref.h"

#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes(void);
#endif

using namespace frn::lib;
using frn::Field;
using frn::Shr;
using kit::u64;
using ref::u128;
namespace net = frn::lib::net;
using F127 = math::FpElement<math::Mp127>;
using Rep = secret_sharing::Replicator<Field>;

static u64 fold(u64 h, const std::string& s) { return mon::mix(h, mon::hash_str(s)); }
template <typename F>
static u64 fold(u64 h, const std::vector<F>& v) {
  for (auto& x : v) h = fold(h, x.ToString());
  return mon::mix(h, v.size());
}
static Field rnd(mon::Rng& g) { return Field(g.chance(1, 4) ? g.below(3) : g.u64() >> 3); }
static F127 rnd127(mon::Rng& g) { return F127((math::Mp127::ValueType)(ref::rand_bits(g) >> 1)); }
template <typename F, typename R>
static std::vector<F> many(mon::Rng& g, std::size_t n, R r) {
  std::vector<F> v;
  for (std::size_t i = 0; i < n; i++) v.push_back(r(g));
  return v;
}

// Sizes: mostly small; large for all operations of a large round.
static bool& large() {
  static thread_local bool b = false;
  return b;
}
static std::size_t size(mon::Rng& g, std::size_t small, std::size_t most) {
  if (!large()) return g.below(small);
  return mon::near_constant(g, small, most, g.below(most), 1, 2);
}

// --- objects that all copies come from ------------------------------------------------

struct Common {
  Rep rep4{4, 1}, rep7{7, 2};
  std::vector<frn::ShrManipulator> man;
  std::vector<frn::Correlator> corr;
  primitives::PRG prg;
  primitives::Hash<primitives::SHA3_256> h256;
  primitives::Hash<primitives::SHA3_512> h512;
  std::vector<Field> vec;
  math::Matrix<Field> mat{3, 3};
  net::Network::Builder builder;
  std::shared_ptr<logging::VoidLogger> logger = std::make_shared<logging::VoidLogger>();
  Common() {
    for (unsigned i = 0; i < 4; i++) {
      man.emplace_back(i, 1, 4);
      corr.emplace_back(i, rep4);
    }
    std::vector<unsigned char> b(100, 7);
    prg.Next(b);
    h256.Update(b);
    h512.Update(b.data(), 3);
    mon::Rng g(5);
    vec = many<Field>(g, 40, rnd);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) mat(i, j) = rnd(g);
    builder.Size(4).TransportType(net::Network::TransportType::eTcp).AllPartiesLocal();
  }
};
static const Common& common() {
  static const Common* c = new Common;
  return *c;
}

// --- operations on objects of their own --------------------------------------------------

template <typename F>
static u64 field_ops(mon::Rng& g, F (*r)(mon::Rng&)) {
  u64 h = 1;
  for (int i = 0; i < 10; i++) {
    F x = r(g), y = r(g);
    h = fold(h, (x + y).ToString() + (x - y).ToString() + (x * y).ToString() + (-x).ToString());
    try {
      h = fold(h, (x / y).ToString());
    } catch (const std::logic_error& e) {
      h = fold(h, e.what());
    }
    x *= x;
    x -= y;
    std::ostringstream os;
    os << x << F(y.ToString());
    unsigned char b[16];
    x.ToBytes(b);
    h = fold(h, os.str() + F::FromBytes(b).ToString());
    h = mon::mix(h, x == y);
  }
  return h;
}

template <typename F>
static u64 algebra(mon::Rng& g, F (*r)(mon::Rng&)) {
  namespace vv = math::vector;
  std::size_t n = 1 + size(g, 30, 600);
  auto x = many<F>(g, n, r), y = many<F>(g, n, r);
  u64 h = fold(1, vv::Add(x, y));
  h = fold(h, vv::Subtract(x, y));
  h = fold(h, vv::Multiply(x, y));
  h = fold(h, vv::Scale(x, y[0]));
  h = fold(h, vv::Dot(x, y).ToString() + vv::Sum(x).ToString());
  std::vector<unsigned char> b(n * F::ByteSize());
  vv::ToBytes(b.data(), x);
  h = fold(h, vv::FromBytes<F>(b.data(), n));
  try {
    y.push_back(r(g));
    vv::Dot(x, y);
  } catch (const std::exception& e) {
    h = fold(h, e.what());
  }
  auto m = math::create_vandermonde_matrix(x, 4);
  auto w = math::create_vandermonde_matrix(r(g), 4, 1 + n % 5);
  h = fold(h, m.MatMul(w).ToString());
  h = fold(h, m.extract_submatrix(0, n, 1, 3).ToString());
  try {
    w.MatMul(w.Add(m));
  } catch (const std::exception& e) {
    h = fold(h, e.what());
  }
  return h;
}

static u64 prg_hash(mon::Rng& g) {
  unsigned char seed[16];
  for (auto& c : seed) c = (unsigned char)g.u64();
  primitives::PRG p(seed), q = common().prg;
  std::vector<unsigned char> b(size(g, 300, 20000));
  u64 h = 3;
  for (int i = 0; i < 4; i++) {
    p.Next(b);
    q.Next(b, b.size() / 2);
    h = mon::hash_bytes(b.data(), b.size(), h);
  }
  p.Reset();
  p.Next(b);
  h = mon::hash_bytes(b.data(), b.size(), h);
  auto x = common().h256;
  auto y = common().h512;
  primitives::Hash<primitives::SHA3_384> z;
  x.Update(b);
  y.Update(b.data(), b.size() / 3);
  z.Update(b).Update(b);
  auto dx = x.Finalize();
  auto dy = y.Finalize();
  auto dz = z.Finalize();
  h = mon::hash_bytes(dx.data(), dx.size(), h);
  h = mon::hash_bytes(dy.data(), dy.size(), h);
  return mon::hash_bytes(dz.data(), dz.size(), h);
}

static u64 sharing(mon::Rng& g) {
  std::size_t n = 4 + size(g, 4, 6), t = 1 + g.below(n - 2);
  Rep own(n, t);
  Rep rep = g.chance(1, 2) ? own : n < 6 ? common().rep4 : common().rep7;
  primitives::PRG prg;
  auto secrets = many<Field>(g, 1 + size(g, 4, 60), rnd);
  auto sh = rep.Share(secrets, prg);
  u64 h = 5;
  for (std::size_t k = 0; k < secrets.size(); k++) {
    std::vector<Shr> s;
    for (auto& p : sh) s.push_back(p[k]);
    h = fold(h, rep.Reconstruct(s).ToString());
    h = fold(h, rep.ErrorDetection(s).ToString());
    s[g.below(s.size())][0] += Field(1);
    try {
      rep.ErrorDetection(s);
    } catch (const std::exception& e) {
      h = fold(h, e.what());
    }
  }
  std::vector<unsigned char> b(sh[0].size() * rep.ShareSizeBytes());
  rep.SharesToBytes(sh[0], b.data());
  for (auto& s : rep.SharesFromBytes(b.data(), sh[0].size())) h = fold(h, s);
  for (std::size_t i = 0; i < rep.Size(); i++)
    for (int k : rep.IndexSetFor(i)) h = mon::mix(h, (u64)rep.RevComb(rep.Combination((std::size_t)k)));
  h = fold(h, secret_sharing::ShareAdditive(secrets[0], n, prg));
  try {
    Rep bad(3, 3);
  } catch (const std::exception& e) {
    h = fold(h, e.what());
  }
  return h;
}

static u64 shares(mon::Rng& g) {
  unsigned id = (unsigned)g.below(4);
  frn::ShrManipulator own(id, 1, 4), m = g.chance(1, 2) ? own : common().man[id];
  auto a = many<Field>(g, m.ShareSize(), rnd), b = many<Field>(g, m.ShareSize(), rnd);
  Field c = rnd(g);
  u64 h = fold(7, m.Add(a, b));
  h = fold(h, m.Subtract(a, b));
  h = fold(h, m.AddConstant(a, c));
  h = fold(h, m.SubtractConstant(a, c));
  h = fold(h, m.SubtractConstant(c, a));
  h = fold(h, m.MultiplyConstant(c, a));
  h = fold(h, m.MultiplyToDoubleDegree(a, b));
  h = fold(h, m.MultiplyToAdditive(a, b).ToString());
  for (auto& e : m.GetTableMult()) h = mon::mix(h, mon::mix(e.src_a, e.src_b));
  for (auto& e : m.GetTableRec()) h = mon::mix(h, e.party_set.size());
  h = mon::mix(h, m.GetReplicator().ShareSize() + m.GetDoubleReplicator().ShareSize());
  return h;
}

static u64 correlations(mon::Rng& g) {
  unsigned id = (unsigned)g.below(4);
  frn::Correlator own(id, common().rep4), c = g.chance(1, 2) ? own : common().corr[id];
  u64 h = 11;
  for (std::size_t i = 0, k = 3 + size(g, 1, 300); i < k; i++) {
    auto r = g.chance(1, 3) ? c.GenRandomShareDummy() : c.GenRandomShare();
    h = fold(h, r.rep_share);
    h = fold(h, r.add_share.ToString());
    for (auto& s : r.rep_add_shares) h = fold(h, s);
  }
  auto z = c.GenZeroShareDummy();
  h = fold(h, z.add_share.ToString());
  Field k = rnd(g);
  auto prg = frn::FieldElementToPrg(k);
  h = fold(h, frn::GetRandomElement(prg).ToString());
  frn::InputSetup::Correlator ic({{prg, prg, prg}, {prg, prg, prg}}, {prg, prg}, 3);
  h = fold(h, ic.GetMask().ToString());
  return fold(h, ic.GetMaskShare(1));
}

struct Recorder : logging::Logger {
  std::string text;
  std::string ToString() const override { return "Recorder"; }
  void LogBegin(Level l) override { text += (char)('a' + (int)l); }
  void Log(const std::string& s) override { text += s; }
  void LogEnd(Level l) override { text += (char)('A' + (int)l); }
};

static u64 texts(mon::Rng& g) {
  Recorder r;
  auto x = rnd(g);
  r.Info("x % y % z", x, "text");
  r.Warn("%%", g.below(100), std::string("s"));
  r.Error("plain");
  logging::StdoutLogger out(g.chance(1, 2));
  out.Info("party % of %", g.below(16), 16);
  out.Warn("w");
  common().logger->Error("% gone", 1);
  u64 h = fold(13, r.text);
  u64 v = g.u64();
  h = fold(h, utils::to_string<std::uint64_t>(v) + utils::to_string<__uint128_t>((u128)v * v));
  h = mon::mix(h, utils::from_string<std::uint64_t>(mon::dec(v)));
  h = fold(h, utils::bytes2hex((unsigned char*)&v, 8));
  std::vector<int> l(size(g, 10, 2000), 4);
  h = fold(h, utils::to_string(l));
  h = fold(h, utils::to_string(common().vec));
  auto m = common().mat;
  return fold(h, m.Scale(x).ToString());
}

static u64 rings(mon::Rng& g) {
  std::uint64_t v = g.u64();
  u64 h = 17;
  try {
    h = mon::mix(h, math::details::inv2<64>(v));
    h = mon::mix(h, math::details::inv2<32>((std::uint32_t)v));
  } catch (const std::exception& e) {
    h = fold(h, e.what());
  }
  h = mon::mix(h, secret_sharing::Binom(20, g.below(20)));
  std::vector<int> c(3);
  secret_sharing::NthCombination(c, (int)g.below(30), 7);
  return mon::mix(h, (u64)(c[0] * 100 + c[1] * 10 + c[2]));
}

static u64 builders(mon::Rng& g) {
  u64 h = 19;
  try {
    auto b = g.chance(1, 2) ? net::Network::Builder() : common().builder;
    b.Size(2 + g.below(4)).LocalPeerId((int)g.below(5)).BasePort((int)(1000 + g.below(20000)));
    b.TransportType(g.chance(1, 8) ? net::Network::TransportType::eFake : net::Network::TransportType::eTcp).AllPartiesLocal();
    if (g.chance(1, 2)) b.Logger(common().logger);
    auto n = b.BuildShared();
    h = mon::mix(h, n->Size() * 100 + (u64)n->LocalPeerId());
    unsigned char x[5] = {1, 2, 3, 4, 5}, y[5];
    int me = n->LocalPeerId();
    (void)me;
    (void)x;
    (void)y;
  } catch (const std::exception& e) {
    h = fold(h, e.what());
  }
  return h;
}

static u64 local_link(mon::Rng& g) {
  auto a = net::LocalConnector::MakeBuffer(), b = net::LocalConnector::MakeBuffer();
  std::unique_ptr<net::Connector> x = std::make_unique<net::LocalConnector>(a, b), y = std::make_unique<net::LocalConnector>(b, a);
  net::Channel cx(x), cy(y);
  cx.Open();
  cy.Open();
  u64 key = g.u64(), off = 0, h = 23;
  for (int i = 0; i < 5; i++) {
    auto m = kit::stream(key, off, 1 + size(g, 500, 70000));
    cx.Send(m.data(), m.size());
    cy.Send(m.data(), m.size());
    kit::Bytes r(m.size());
    cy.Recv(r.data(), r.size() / 2);
    cy.Recv(r.data() + r.size() / 2, r.size() - r.size() / 2);
    h = mon::hash_bytes(r.data(), r.size(), h);
    cx.Recv(r.data(), r.size());
    h = mon::hash_bytes(r.data(), r.size(), h);
    off += m.size();
  }
  h = fold(h, cx.ToString());
  cx.Close();
  cy.Close();
  return h;
}

static u64 queues(mon::Rng& g) {
  net::SharedDeque<std::string> q;
  u64 h = 29;
  std::size_t n = 1 + size(g, 20, 3000);
  for (std::size_t i = 0; i < n; i++) q.PushBack(std::string(g.below(60), 'q'));
  while (q.Size()) {
    h = fold(h, q.Front());
    q.PopFront();
  }
  return h;
}

struct Op {
  const char* name;
  std::function<u64(mon::Rng&)> run;
};

static const std::vector<Op>& ops() {
  static const std::vector<Op>* o = new std::vector<Op>{
      {"mp61", [](mon::Rng& g) { return field_ops<Field>(g, rnd); }},
      {"mp127", [](mon::Rng& g) { return field_ops<F127>(g, rnd127); }},
      {"algebra61", [](mon::Rng& g) { return algebra<Field>(g, rnd); }},
      {"algebra127", [](mon::Rng& g) { return algebra<F127>(g, rnd127); }},
      {"prg and hash", prg_hash},
      {"sharing", sharing},
      {"shares", shares},
      {"correlations", correlations},
      {"texts", texts},
      {"rings", rings},
      {"builders", builders},
      {"local link", local_link},
      {"queues", queues},
  };
  return *o;
}

static u64 run_op(std::size_t k, u64 seed) {
  mon::Rng g(seed);
  large() = seed % 8 == 0;
  try {
    return ops()[k].run(g);
  } catch (const std::exception& e) {
    return fold(31, e.what());
  }
}

// --- C27 ---------------------------------------------------------------------------------

static void threads(mon::Rng& g) {
  bool all_large = g.chance(1, 5);
  std::size_t n = 2 + g.below(7), k = all_large ? 4 : 20;
  std::vector<std::vector<std::pair<std::size_t, u64>>> todo(n);
  std::vector<std::vector<u64>> got(n);
  // one operation by all, or any mixture
  std::size_t same = g.chance(1, 2) ? g.below(ops().size()) : ops().size();
  for (auto& t : todo)
    for (std::size_t i = 0; i < k; i++) {
      u64 seed = g.u64();
      t.push_back({same < ops().size() ? same : g.below(ops().size()), all_large ? seed / 8 * 8 : seed});
    }
  common();
  std::atomic<std::size_t> ready{0};
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      got[i].reserve(k);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
      for (auto& t : todo[i]) got[i].push_back(run_op(t.first, t.second));
    });
  for (auto& t : ts) t.join();
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < k; j++) {
      mon::eval();
      mon::distinct(mon::mix(todo[i][j].second, todo[i][j].first));
      mon::count(mon::cat("concurrent ", ops()[todo[i][j].first].name));
      if (run_op(todo[i][j].first, todo[i][j].second) != got[i][j])
        mon::violation(mon::cat("mem.result-differs:", ops()[todo[i][j].first].name),
                       mon::cat(n, " threads, operation ", ops()[todo[i][j].first].name, " seed ", todo[i][j].second,
                                ": not the result it has alone"));
    }
  if (g.chance(1, 20)) mon::sample(mon::cat(n, " threads doing ", same < ops().size() ? ops()[same].name : "a mixture"));
}

// --- C26: repetition ------------------------------------------------------------------------

static std::size_t in_use() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}

// Runs `block` again and again and looks at the memory in use after 4, 8, 16 and
// 32 blocks more. `settle` is called before looking.
static void repeat(const std::string& name, const std::function<void(u64)>& block, const std::function<void()>& settle = [] {}) {
#if !defined(__SANITIZE_ADDRESS__)
  for (int i = 0; i < 3; i++) block((u64)i);
  mon::eval();
  mon::distinct(mon::hash_str(name));
  return;
#endif
  mon::where() = name;
  long m[4];
  u64 left = 0;
  auto run = [&](int blocks) {
    for (int i = 0; i < blocks; i++) {
      block(left++ % 4);
      mon::eval();
    }
    settle();
    return (long)in_use();
  };
  m[0] = run(4);
  m[0] = run(4);
  m[1] = run(8);
  if (m[1] > m[0]) {
    m[2] = run(16);
    if (m[2] > m[1]) {
      m[3] = run(32);
      if (m[3] > m[2] && m[3] - m[1] >= 48)
        mon::violation("mem.growth:" + name, mon::cat(name, " repeated 8, 16, 32 and 64 times leaves ", m[0], ", ", m[1], ", ", m[2],
                                                      " and ", m[3], " bytes in use"));
    }
  }
  mon::distinct(mon::hash_str(name));
  mon::count("operations_repeated");
  mon::sample(mon::cat(name, ": ", m[1] - m[0], " bytes after 8 more blocks"), 6);
}

static std::shared_ptr<frn::TcpNetwork> party_net(unsigned i, std::size_t n, unsigned base) {
  return frn::TcpNetwork::CreateWithLocalParties(i, n, base, i % 2);
}

static void protocol(std::shared_ptr<frn::Network> net, const Rep& rep, std::size_t batch) {
  unsigned id = net->Id();
  std::size_t n = net->Size(), d = rep.Threshold();
  primitives::PRG prg;
  frn::InputSetup setup(net, rep, prg);
  auto ic = setup.Run();
  frn::ShrManipulator man(id, d, n);
  frn::Input in(net, man, ic);
  for (std::size_t p = 0; p < n; p++) {
    if (p == id)
      in.Prepare(std::vector<Field>(batch, Field(id + 3)));
    else
      in.PrepareToReceive((unsigned)p, batch);
  }
  auto x = in.Run();
  frn::Correlator corr(id, rep);
  frn::CheckData cd((unsigned)d);
  frn::Mult mult(net, rep, man, corr, cd);
  for (int k = 0; k < 2; k++) {
    mult.Prepare(x[0], x[1]);
    x[0] = mult.Run();
  }
  frn::Check check(net, rep, man, cd);
  check.ComputeRandomCoefficients();
  check.PrepareLinearCombinations();
  check.PrepareMsgs();
  check.ReconstructMsgs();
}

static void growth(mon::Rng& g, int shard, int shards) {
  int turn = 0;
  auto mine = [&] { return turn++ % shards == shard; };
  u64 salt = g.u64();
  unsigned base = ports::base();
  for (std::size_t k = 0; k < ops().size(); k++)
    if (mine())
      repeat(ops()[k].name, [&](u64 b) {
        for (u64 i = 0; i < 10; i++) run_op(k, mon::mix(salt, b * 10 + i));
      });
  auto quiet = [] { usleep(30000); };
  if (mine())  // networks that come and go
    repeat("connecting and closing", [&](u64 b) {
      std::size_t n = 2 + b % 3;
      kit::parallel(n, [&](std::size_t i) {
        auto net = kit::make_net((int)i, n, (int)base);
        net->Connect();
        kit::Bytes m(1000 + 100 * b), r(m.size());
        for (std::size_t p = 0; p < n; p++) net->SendTo((int)p, m.data(), m.size());
        for (std::size_t p = 0; p < n; p++) net->RecvFrom((int)p, r.data(), r.size());
        if (b & 1) net->Close();
      });
    }, quiet);
  if (mine())  // never opened
    repeat("networks never opened", [&](u64 b) {
      for (u64 i = 0; i < 4; i++) kit::make_net((int)i, 4 + b, (int)base + 64);
    });
  if (mine())  // closed by one side with messages left
    repeat("closing with messages pending", [&](u64 b) {
      kit::parallel(2, [&](std::size_t i) {
        auto net = kit::make_net((int)i, 2, (int)base + 80);
        net->Connect();
        kit::Bytes m(3000, 1), r(1);
        if (i == 0) {
          for (u64 k = 0; k < 5 + b; k++) net->SendTo(1, m.data(), m.size());
          net->SendTo(0, m.data(), m.size());
        } else {
          net->RecvFrom(0, r.data(), 1);
        }
        try {
          net->Close();
        } catch (const std::exception&) {
        }
      });
    }, quiet);
  if (mine())  // errors
    repeat("receiving from a lost peer", [&](u64 b) {
      kit::parallel(2, [&](std::size_t i) {
        auto net = kit::make_net((int)i, 2, (int)base + 96);
        net->Connect();
        if (i == 0) {
          net->Close();
        } else {
          kit::Bytes r(100);
          for (u64 k = 0; k <= b; k++) try {
              net->RecvFrom(0, r.data(), r.size());
            } catch (const std::exception&) {
            }
          net.reset();
        }
      });
    }, quiet);
  if (mine()) {  // one network, many messages
    std::size_t n = 3;
    std::vector<kit::NetPtr> nets(n);
    for (std::size_t i = 0; i < n; i++) nets[i] = kit::make_net((int)i, n, (int)base + 112);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Connect(); });
    repeat("messages on an open network", [&](u64 b) {
      for (int k = 0; k < 5; k++)
        kit::parallel(n, [&](std::size_t i) {
          kit::Bytes m(200 + 700 * b), r(m.size());
          for (std::size_t p = 0; p < n; p++) {
            nets[i]->SendTo((int)p, m.data(), m.size());
            nets[i]->SendTo((int)p, m.data(), 0);
          }
          nets[i]->Broadcast(m.data(), 10);
          for (std::size_t p = 0; p < n; p++) {
            nets[i]->RecvFrom((int)p, r.data(), r.size());
            nets[i]->RecvFrom((int)p, r.data(), 10);
          }
        });
    }, quiet);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Close(); });
  }
  if (mine()) {  // whole protocols on one network
    std::size_t n = 4;
    Rep rep(n, 1);
    std::vector<std::shared_ptr<frn::TcpNetwork>> nets(n);
    for (unsigned i = 0; i < n; i++) nets[i] = party_net(i, n, base + 128);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Connect(); });
    repeat("protocols on an open network", [&](u64 b) {
      kit::parallel(n, [&](std::size_t i) {
        protocol(nets[i], rep, 1 + b);
        nets[i]->PrintCommunicationSummary();
      });
    }, quiet);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Close(); });
  }
  if (mine())  // protocols with all they need
    repeat("parties", [&](u64 b) {
      std::size_t n = 4 + b % 2;
      kit::parallel(n, [&](std::size_t i) {
        auto net = party_net((unsigned)i, n, base + 160);
        net->Connect();
        protocol(net, frn::CreateReplicator(n), b);
        net->Close();
      });
    }, quiet);
  if (mine()) {  // one multiplication protocol, record emptied by its owner
    std::size_t n = 4;
    Rep rep(n, 1);
    std::vector<std::shared_ptr<frn::TcpNetwork>> nets(n);
    for (unsigned i = 0; i < n; i++) nets[i] = party_net(i, n, base + 192);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Connect(); });
    std::vector<frn::CheckData> cds(n, frn::CheckData(1));
    std::vector<std::unique_ptr<frn::Mult>> mults;
    std::vector<std::unique_ptr<frn::Correlator>> corrs;
    for (unsigned i = 0; i < n; i++) {
      corrs.push_back(std::make_unique<frn::Correlator>(i, rep));
      mults.push_back(std::make_unique<frn::Mult>(nets[i], rep, frn::ShrManipulator(i, 1, n), *corrs[i], cds[i]));
    }
    repeat("batches of one multiplication protocol", [&](u64 b) {
      kit::parallel(n, [&](std::size_t i) {
        cds[i] = frn::CheckData(1);
        std::vector<Shr> x(b + 1, Shr(rep.ShareSize(), Field(i + b)));
        mults[i]->Prepare(x, x);
        mults[i]->Run();
      });
    }, quiet);
    kit::parallel(n, [&](std::size_t i) { nets[i]->Close(); });
  }
  if (mine()) {  // one queue
    net::SharedDeque<std::vector<unsigned char>> q;
    repeat("items through one queue", [&](u64 b) {
      for (u64 i = 0; i < 50; i++) q.PushBack(kit::Bytes(10 * b + i));
      for (u64 i = 0; i < 50; i++) {
        q.Front();
        q.PopFront();
      }
    });
  }
  if (mine()) {  // long-lived generators
    Rep rep(5, 1);
    primitives::PRG prg;
    frn::Correlator corr(0, rep);
    frn::ShrManipulator man(0, 1, 5);
    primitives::Hash<primitives::SHA3_256> h;
    repeat("long-lived objects", [&](u64 b) {
      auto s = rep.Share(std::vector<Field>(3 + b, Field(b)), prg);
      auto r = corr.GenRandomShare();
      man.MultiplyToDoubleDegree(s[0][0], s[0][1]);
      man.AddConstant(r.rep_share, Field(b));
      man.GetTableMult();
      h.Update(kit::Bytes(100 * b + 1));
    });
  }
  if (mine()) {
    auto a = net::LocalConnector::MakeBuffer();
    net::LocalConnector c(a, a);
    repeat("messages to oneself", [&](u64 b) {
      kit::Bytes m(b * 50 + 1);
      for (int i = 0; i < 20; i++) c.Send(m.data(), m.size());
      for (int i = 0; i < 20; i++)
        for (std::size_t k = 0; k < m.size();) k += (std::size_t)c.Recv(m.data(), m.size() - k);
    });
  }
}

static void body() {
  auto& a = mon::args();
  mon::watchdog(a.flavor == "tsan" || a.flavor == "vg" ? 120 : 40);
  ref::self_check();
  mon::Rng g(mon::base_seed());
  if (a.prop == "C27") {
    std::size_t r = mon::rounds(60, 2000);
    for (std::size_t i = 0; i < r; i++) threads(g);
  } else {
    growth(g, a.shard, a.shards);
    // and once through everything in a mixture
    std::size_t r = mon::rounds(200, 5000);
    for (std::size_t i = 0; i < r; i++) {
      std::size_t k = g.below(ops().size());
      u64 s = g.u64();
      mon::eval();
      if (run_op(k, s) != run_op(k, s)) mon::violation(mon::cat("mem.unstable:", ops()[k].name), mon::cat("seed ", s));
      mon::distinct(s);
    }
  }
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
