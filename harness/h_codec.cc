// C02: encodings of elements, vectors and shares.
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/secret_sharing/rep.h"
#include "frn/lib/tools.h"
#include "mon.h"
#include "ref.h"

using namespace frn::lib;
using ref::u128;
using ref::u64;

// A region of exactly n bytes at offset `off` from an aligned address, with
// guard bytes on both sides, in a heap block of exactly that size (so that the
// address sanitizer sees what the guards cannot).
struct Region {
  static constexpr unsigned char kGuard = 0xA7;
  std::size_t n, off, tail;
  std::vector<unsigned char> mem;
  Region(std::size_t n_, std::size_t off_, std::size_t tail_)
      : n(n_), off(off_), tail(tail_), mem(off_ + n_ + tail_, kGuard) {}
  unsigned char* at() { return mem.data() + off; }
  bool guards_ok() const {
    for (std::size_t i = 0; i < off; i++)
      if (mem[i] != kGuard) return false;
    for (std::size_t i = off + n; i < mem.size(); i++)
      if (mem[i] != kGuard) return false;
    return true;
  }
};

template <typename Prime>
struct Codec {
  using F = math::FpElement<Prime>;
  using V = typename Prime::ValueType;
  static constexpr std::size_t B = sizeof(V);
  static const char* name() { return B == 8 ? "mp61" : "mp127"; }
  static u128 p() { return B == 8 ? (u128)ref::P61 : ref::P127; }

  static void fail(const char* what, const std::string& d) {
    mon::violation(mon::cat("C02.", name(), ".", what), d);
  }

  static u128 le(const unsigned char* b) {
    u128 v = 0;
    for (std::size_t i = 0; i < B; i++) v |= (u128)b[i] << (8 * i);
    return v;
  }

  static void put(unsigned char* b, u128 v) {
    for (std::size_t i = 0; i < B; i++) b[i] = (unsigned char)(v >> (8 * i));
  }

  static u128 any(mon::Rng& g) { return ref::shaped(g, 8 * B, p()); }

  static u128 canon(mon::Rng& g) {
    return (g.below(2) ? any(g) : ref::rand_bits(g)) % p();
  }

  static void element(mon::Rng& g, std::size_t off, std::size_t tail) {
    u128 v = canon(g);
    F f((V)v);
    Region r(B, off, tail);
    f.ToBytes(r.at());
    if (!r.guards_ok()) fail("element-bounds", mon::cat("writing ", mon::dec(v)));
    if (le(r.at()) != v)
      fail("element-encode", mon::cat(mon::dec(v), " -> ", mon::hex(r.at(), B)));
    F h = F::FromBytes(r.at());
    if (!(h == f)) fail("element-roundtrip", mon::dec(v));
    // any pattern
    u128 w = g.below(2) ? any(g) : ref::rand_bits(g);
    if (B == 8) w = (u64)w;
    Region q(B, off, tail);
    put(q.at(), w);
    F k = F::FromBytes(q.at());
    unsigned char out[B];
    k.ToBytes(out);
    if (le(out) != w % p())
      fail("element-decode", mon::cat("pattern ", mon::hex(q.at(), B), " -> ",
                                      mon::dec(le(out))));
    // text
    std::string s = f.ToString();
    if (s != mon::dec(v)) fail("text", mon::cat(mon::dec(v), " -> ", s));
    std::ostringstream os;
    os << f;
    if (os.str() != s) fail("text-stream", s);
    if (!(F(s) == f)) fail("text-roundtrip", s);
    u128 u = w;  // decimal text of any value that fits
    F t(mon::dec(u));
    t.ToBytes(out);
    if (le(out) != u % p()) fail("text-decode", mon::dec(u));
    if (utils::from_string<V>(mon::dec(u)) != (V)u) fail("from-string", mon::dec(u));
    if (utils::to_string<V>((V)u) != mon::dec(u)) fail("to-string", mon::dec(u));
    mon::eval(7);
    mon::distinct(mon::mix(mon::mix((u64)v, (u64)(v >> 64)), mon::mix((u64)w, off)));
  }

  static void vector_case(mon::Rng& g, std::size_t len, std::size_t off) {
    std::vector<F> v;
    std::vector<u128> m;
    for (std::size_t i = 0; i < len; i++) {
      m.push_back(canon(g));
      v.push_back(F((V)m.back()));
    }
    Region r(len * B, off, g.below(9));
    math::vector::ToBytes(r.at(), v);
    if (!r.guards_ok()) fail("vector-bounds", mon::cat("length ", len));
    for (std::size_t i = 0; i < len; i++)
      if (le(r.at() + i * B) != m[i]) {
        fail("vector-encode", mon::cat("length ", len, " index ", i));
        break;
      }
    auto w = math::vector::FromBytes<F>(r.at(), len);
    if (w.size() != len || !(w == v))
      fail("vector-roundtrip", mon::cat("length ", len, " got ", w.size()));
    // arbitrary patterns
    for (std::size_t i = 0; i < len * B; i++) r.at()[i] = (unsigned char)g.u64();
    if (len) put(r.at() + g.below(len) * B, p());
    auto x = math::vector::FromBytes<F>(r.at(), len);
    bool ok = x.size() == len;
    for (std::size_t i = 0; ok && i < len; i++) {
      unsigned char o[B];
      x[i].ToBytes(o);
      ok = le(o) == le(r.at() + i * B) % p();
    }
    if (!ok) fail("vector-decode", mon::cat("length ", len));
    // a part of it
    if (len > 1) {
      std::size_t a = g.below(len), k = g.below(len - a + 1);
      auto y = math::vector::FromBytes<F>(r.at() + a * B, k);
      if (y.size() != k || !std::equal(y.begin(), y.end(), x.begin() + a))
        fail("vector-part", mon::cat("length ", len, " from ", a, " count ", k));
    }
    mon::eval(4);
    mon::distinct(mon::mix(len * 64 + off, len ? (u64)m[0] : 0));
    if (len == 3) mon::sample(mon::cat(name(), ": vector of ", len, " at offset ", off, ": ", mon::hex(r.at(), r.n)), 2);
  }

  static void share_case(mon::Rng& g, int n, int t) {
    using R = secret_sharing::Replicator<F>;
    R rep(n, t);
    const std::size_t S = ref::binom(n - 1, t);
    if (rep.ShareSize() != S || rep.ShareSizeBytes() != S * B)
      fail("share-size", mon::cat("n=", n, " t=", t));
    auto rand_share = [&] {
      typename R::ShareType s;
      for (std::size_t i = 0; i < S; i++) s.push_back(F((V)canon(g)));
      return s;
    };
    for (std::size_t k = 0; k < mon::rounds(4, 40); k++) {
      auto s = rand_share();
      Region r(S * B, g.below(16), g.below(9));
      rep.ShareToBytes(s, r.at());
      if (!r.guards_ok()) fail("share-bounds", mon::cat("n=", n, " t=", t));
      bool ok = true;
      for (std::size_t i = 0; i < S; i++) {
        unsigned char o[B];
        s[i].ToBytes(o);
        ok = ok && !std::memcmp(o, r.at() + i * B, B);
      }
      if (!ok) fail("share-encode", mon::cat("n=", n, " t=", t));
      if (rep.ShareFromBytes(r.at()) != s)
        fail("share-roundtrip", mon::cat("n=", n, " t=", t));
      std::size_t cnt = k == 0 ? 0 : (k == 1 ? 1 : mon::near_constant(g, 2, S > 50 ? 400 : 4000, 2 + g.below(40)));
      std::vector<typename R::ShareType> many;
      for (std::size_t i = 0; i < cnt; i++) many.push_back(rand_share());
      Region q(cnt * S * B, g.below(16), g.below(9));
      rep.SharesToBytes(many, q.at());
      if (!q.guards_ok()) fail("shares-bounds", mon::cat("n=", n, " t=", t, " count=", cnt));
      auto back = rep.SharesFromBytes(q.at(), cnt);
      if (back != many) fail("shares-roundtrip", mon::cat("n=", n, " t=", t, " count=", cnt));
      for (std::size_t i = 0; i < cnt; i++)
        if (rep.ShareFromBytes(q.at() + i * S * B) != many[i]) {
          fail("shares-encode", mon::cat("n=", n, " t=", t, " index=", i));
          break;
        }
      // arbitrary patterns are reduced
      for (std::size_t i = 0; i < S * B; i++) r.at()[i] = (unsigned char)(g.u64() | 0xF0);
      auto d = rep.ShareFromBytes(r.at());
      ok = d.size() == S;
      for (std::size_t i = 0; ok && i < S; i++) {
        unsigned char o[B];
        d[i].ToBytes(o);
        ok = le(o) == le(r.at() + i * B) % p();
      }
      if (!ok) fail("share-decode", mon::cat("n=", n, " t=", t));
      mon::eval(6);
      mon::distinct(mon::mix(n * 100 + t, mon::mix(cnt, k + g.s)));
    }
    mon::count(mon::cat(name(), ".share-shapes"));
  }

  // More than 4 GB in one go, in memory that is not touched before.
  static void huge(mon::Rng& g) {
    if (!mon::memory_for(14)) {
      mon::count("huge_vectors_not_possible");
      return;
    }
    const std::size_t n = ((std::size_t)1 << 32) / B + 5 + g.below(50);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n * B + 1]);
    buf[n * B] = 0xA7;
    auto value = [&](std::size_t i) { return (u128)(i * 0x9E3779B97F4A7C15ull >> 4); };
    {
      std::vector<F> v(n);
      for (std::size_t i = 0; i < n; i += i < 1000 || i + 2000 > n ? 1 : 977) v[i] = F((V)value(i));
      math::vector::ToBytes(buf.get(), v);
      bool ok = buf[n * B] == 0xA7;
      if (!ok) fail("vector-bounds", mon::cat("vector of ", n));
      for (std::size_t i = 0; ok && i < n; i += i < 1000 || i + 2000 > n ? 1 : 977) {
        unsigned char o[B];
        v[i].ToBytes(o);
        ok = !std::memcmp(o, buf.get() + i * B, B);
        if (!ok) fail("vector-encode", mon::cat("vector of ", n, ": element ", i));
      }
      mon::eval();
    }
    {
      auto v = math::vector::FromBytes<F>(buf.get(), n);
      bool ok = v.size() == n;
      for (std::size_t i = 0; ok && i < n; i += i < 1000 || i + 2000 > n ? 1 : 977) ok = v[i] == F((V)value(i));
      if (!ok) fail("vector-decode", mon::cat("vector of ", n));
      mon::eval();
    }
    secret_sharing::Replicator<F> rep(16, 5);
    std::size_t S = rep.ShareSize(), cnt = n / S;
    {
      std::vector<std::vector<F>> shares(cnt, std::vector<F>(S));
      for (std::size_t i = 0; i < cnt; i++)
        for (std::size_t j = 0; j < 3; j++) shares[i][j * (S / 3)] = F((V)value(i * 3 + j));
      rep.SharesToBytes(shares, buf.get());
    }
    {
      auto shares = rep.SharesFromBytes(buf.get(), cnt);
      bool ok = shares.size() == cnt;
      for (std::size_t i = 0; ok && i < cnt; i++)
        for (std::size_t j = 0; ok && j < 3; j++) ok = shares[i].size() == S && shares[i][j * (S / 3)] == F((V)value(i * 3 + j));
      if (!ok) fail("shares-roundtrip", mon::cat(cnt, " shares of ", S, " pieces"));
      mon::eval();
    }
    mon::count("beyond_4GB");
  }

  static void all(mon::Rng& g) {
    if (F::ByteSize() != B || F::BitSize() != 8 * B) fail("advertised-size", "");
    std::size_t n = mon::rounds(20000, 400000);
    for (std::size_t i = 0; i < n; i++) element(g, i % 17, (i / 17) % 3 ? 0 : 5);
    mon::count(mon::cat(name(), ".elements"), n);
    for (std::size_t len = 0; len < mon::rounds(200, 600); len++)
      vector_case(g, len, g.below(17));
    for (std::size_t len : {1000, 1023, 1024, 1025, 4096, 10007, 65536, 70001})
      vector_case(g, len + g.below(3), g.below(17));
    for (std::size_t i = 0; i < mon::rounds(60, 600); i++)
      vector_case(g, mon::near_constant(g, 1, 150000, 200 + g.below(2000), 1, 1), g.below(17));
    for (int nn = 2; nn <= 9; nn++)
      for (int t = 1; t < nn; t++) share_case(g, nn, t);
    share_case(g, 13, 4);
    share_case(g, 16, 3);
  }
};

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    mon::Rng g(mon::base_seed());
    if (mon::args().flavor == "o2" && mon::args().scale >= 1) {
      if (mon::args().shard == 1) Codec<math::Mp61>::huge(g);
      if (mon::args().thorough && mon::args().shard == 1) Codec<math::Mp127>::huge(g);
    }
    Codec<math::Mp61>::all(g);
    Codec<math::Mp127>::all(g);
  });
}
