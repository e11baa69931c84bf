// C01: field and ring arithmetic against integer arithmetic.
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "mon.h"
#include "ref.h"

using namespace frn::lib::math;
using ref::u128;
using ref::u64;

template <typename Prime>
struct Field {
  using F = FpElement<Prime>;
  using V = typename Prime::ValueType;
  static constexpr unsigned bits = sizeof(V) * 8;
  static const char* name() { return sizeof(V) == 8 ? "mp61" : "mp127"; }
  static u128 p() { return sizeof(V) == 8 ? (u128)ref::P61 : ref::P127; }

  static u128 raw(const F& f) {
    V v = 0;
    unsigned char b[sizeof(V)];
    f.ToBytes(b);
    for (unsigned i = 0; i < sizeof(V); i++) v |= (V)b[i] << (8 * i);
    return v;
  }

  static void fail(const char* op, const std::string& d) {
    mon::violation(mon::cat("C01.", name(), ".", op), d);
  }

  static void expect(const char* op, const F& got, u128 want, u128 x, u128 y) {
    u128 r = raw(got);
    if (r == want) return;
    fail(op, mon::cat(op, "(", mon::dec(x), ", ", mon::dec(y), ") gave ",
                      mon::dec(r), ", expected ", mon::dec(want)));
  }

  static void construct(u128 v) {
    F f((V)v);
    u128 want = v % p();
    expect("construct", f, want, v, 0);
    unsigned char b[sizeof(V)];
    for (unsigned i = 0; i < sizeof(V); i++) b[i] = (unsigned char)(v >> (8 * i));
    F g = F::FromBytes(b);
    expect("frombytes", g, want, v, 0);
    if (!(f == g) || f != g || !f.Equal(g) || f.NotEqual(g))
      fail("compare", mon::cat("two ways to build ", mon::dec(v), " differ"));
    if (f.ToString() != mon::dec(want))
      fail("print", mon::cat(mon::dec(v), " prints as ", f.ToString()));
    mon::eval(2);
  }

  // x, y canonical
  static void binary(u128 x, u128 y, bool inverses) {
    const u128 q = p();
    F a((V)x), b((V)y);
    expect("add", a + b, (x + y) % q, x, y);
    expect("sub", a - b, x >= y ? x - y : x + q - y, x, y);
    u128 prod = ref::mulmod(x, y, q);
    expect("mul", a * b, prod, x, y);
    expect("neg", -a, x ? q - x : 0, x, 0);
    if (raw(a) != x || raw(b) != y)
      fail("operands", mon::cat("operands changed by + - * of ", mon::dec(x)));
    bool eq = x == y;
    if ((a == b) != eq || (a != b) == eq || a.Equal(b) != eq ||
        a.NotEqual(b) == eq)
      fail("compare", mon::cat(mon::dec(x), " vs ", mon::dec(y)));
    // in-place forms
    F c = a;
    F& rc = (c += b);
    expect("add-in-place", c, (x + y) % q, x, y);
    if (&rc != &c) fail("add-in-place", "does not return the element itself");
    c = a;
    c -= b;
    expect("sub-in-place", c, x >= y ? x - y : x + q - y, x, y);
    c = a;
    c *= b;
    expect("mul-in-place", c, prod, x, y);
    c = a;
    c.Negate();
    expect("negate", c, x ? q - x : 0, x, 0);
    // equal values by different ways are the same element
    F s = a - b;
    F t = s + b;
    if (!(t == a)) fail("roundtrip", mon::cat(mon::dec(x), " - + ", mon::dec(y)));
    mon::eval(10);
    if (inverses) {
      if (y) {
        F i = b.Inverse();
        u128 iv = raw(i);
        if (iv >= q || ref::mulmod(iv, y, q) != 1)
          fail("inverse", mon::cat("inverse of ", mon::dec(y), " is ", mon::dec(iv)));
        F j = b;
        j.Invert();
        expect("invert", j, iv, y, 0);
        u128 quo = ref::mulmod(x, iv, q);
        expect("div", a / b, quo, x, y);
        c = a;
        c /= b;
        expect("div-in-place", c, quo, x, y);
        if (raw(b) != y) fail("operands", "operand changed by inversion");
        mon::eval(4);
      } else {
        zero(a);
      }
    }
  }

  static void alias(u128 x) {
    const u128 q = p();
    F a((V)x);
    a += a;
    expect("add-self", a, (x + x) % q, x, x);
    a = F((V)x);
    a -= a;
    expect("sub-self", a, 0, x, x);
    a = F((V)x);
    a *= a;
    expect("mul-self", a, ref::mulmod(x, x, q), x, x);
    if (x) {
      a = F((V)x);
      a /= a;
      expect("div-self", a, 1, x, x);
    }
    F n((V)x);
    n.Negate().Negate();
    expect("negate-twice", n, x, x, 0);
    mon::eval(5);
  }

  static void zero(const F& a) {
    F z;
    auto check = [&](const char* op, auto f) {
      bool threw = mon::throws(f);
      if (!threw) fail(op, "zero is not rejected");
    };
    check("invert-zero", [] { F z; z.Invert(); });
    check("inverse-zero", [] { F z; (void)z.Inverse(); });
    check("div-zero", [&] { (void)(a / z); });
    check("div-zero-in-place", [&] { F c = a; c /= z; });
    check("invert-multiple-of-p", [] { F z((V)p()); z.Invert(); });
    check("div-zero-by-itself", [] { F z; z /= z; });
    check("zero-over-zero", [] { F z; (void)(z / z); });
    check("zero-over-another-zero", [] { F y, z; y /= z; });
    check("zero-by-subtraction", [&] { F d = a - a; (void)(a / d); });
    mon::eval(9);
  }

  // The operations of the prime itself, which the elements are made of.
  static void prime_ops(u128 x, u128 y) {
    const u128 q = p();
    V a = (V)x, b = (V)y;
    auto ex = [&](const char* op, u128 got, u128 want) {
      if (got != want)
        fail(op, mon::cat("Prime ", op, "(", mon::dec(x), ", ", mon::dec(y),
                          ") gave ", mon::dec(got)));
    };
    ex("p-add", Prime::Add(a, b), (x + y) % q);
    ex("p-sub", Prime::Subtract(a, b), (x + q - y) % q);
    ex("p-mul", Prime::Multiply(a, b), ref::mulmod(x, y, q));
    ex("p-neg", Prime::Negate(a), x ? q - x : 0);
    ex("p-eq", Prime::Equal(a, b), x == y);
    mon::eval(5);
  }

  static std::vector<u128> boundary() {
    std::set<u128> s;
    unsigned nb = sizeof(V) == 8 ? 61 : 127;
    const u128 q = p();
    auto add = [&](u128 v) { s.insert(v % q); };
    for (int i = 0; i < 6; i++) {
      add(i);
      add(q - i);
      add(q / 2 + i);
      add(q / 2 - i);
    }
    for (unsigned k = 1; k < nb; k++) {
      u128 t = (u128)1 << k;
      add(t);
      add(t - 1);
      add(t + 1);
      add(q - t);
      add(q - t - 1);
      add(q - t + 1);
    }
    return std::vector<u128>(s.begin(), s.end());
  }

  static void constants() {
    if (raw(F::kZero) != 0 || raw(F::kOne) != 1 || raw(F()) != 0)
      fail("constants", "kZero, kOne or the default element is wrong");
    if (raw(F::template FromConstant<12345>()) != 12345 ||
        raw(F::template FromConstant<0x1FFFFFFFFFFFFFFE>()) != 0x1FFFFFFFFFFFFFFE)
      fail("constants", "FromConstant");
    if (F::ByteSize() != sizeof(V) || F::BitSize() != 8 * sizeof(V))
      fail("constants", "sizes");
    mon::eval(4);
  }

  static void all(mon::Rng& g) {
    const u128 q = p();
    constants();
    zero(F());
    zero(F::kOne);
    // construction around every multiple of the prime that fits, and around
    // powers of two
    u128 top = bits == 128 ? ~(u128)0 : (((u128)1 << 64) - 1);
    for (u128 k = 0; k <= top / q; k++)
      for (int d = -4; d <= 4; d++) {
        u128 v = k * q + (u128)d;
        if (bits == 64) v &= top;
        construct(v);
      }
    for (unsigned i = 0; i < bits; i++)
      for (int d = -1; d <= 1; d++) construct((((u128)1 << i) + (u128)d) & top);
    for (int d = 0; d < 10; d++) construct(top - d);

    auto b = boundary();
    for (auto x : b) alias(x);
    std::size_t idx = 0;
    for (auto x : b)
      for (auto y : b) {
        if ((int)(idx++ % mon::args().shards) != mon::args().shard) continue;
        binary(x, y, idx % 16 == 0);
        mon::distinct(mon::mix((u64)x ^ (u64)(x >> 64) * 3, (u64)y ^ (u64)(y >> 64) * 5));
      }
    for (auto y : b) binary(g.u64() % 97, y, true);
    mon::count(mon::cat(name(), ".boundary-values"), b.size());

    std::size_t n = mon::rounds(bits == 64 ? 600000 : 150000,
                                bits == 64 ? 20000000 : 6000000);
    for (std::size_t i = 0; i < n; i++) {
      u128 x, y;
      if (i & 1) {
        x = ref::rand_bits(g) % q;
        y = ref::rand_bits(g) % q;
      } else {
        x = ref::shaped(g, bits, q) % q;
        y = ref::shaped(g, bits, q) % q;
      }
      switch (g.below(16)) {
        case 0:
          y = x;
          break;
        case 1:
          y = x ? q - x : 0;
          break;
        case 2:
          y = (x + 1) % q;
          break;
        case 3:
          x = (y + q - 1) % q;
          break;
        default:
          break;
      }
      binary(x, y, i % (bits == 64 ? 4 : 8) == 0);
      if (i % 8 == 0) {
        prime_ops(x, y);
        alias(x);
        construct(bits == 64 ? (u128)g.u64() : ref::rand_bits(g));
        construct(ref::shaped(g, bits, q));
      }
      if (i % 16 == 0) mon::distinct(mon::mix((u64)x ^ (u64)(x >> 64) * 3, (u64)y ^ (u64)(y >> 64) * 5));
      if (i < 2)
        mon::sample(mon::cat(name(), ": x=", mon::dec(x), " y=", mon::dec(y),
                             " x*y=", mon::dec(raw(F((V)x) * F((V)y)))));
    }
    mon::count(mon::cat(name(), ".pairs"), n);
    // long chains of operations, against a model
    for (std::size_t c = 0; c < mon::rounds(20, 400); c++) {
      F f;
      u128 m = 0;
      for (int i = 0; i < 2000; i++) {
        u128 y = ref::shaped(g, bits, q) % q;
        F e((V)y);
        switch (g.below(6)) {
          case 0: f += e; m = (m + y) % q; break;
          case 1: f -= e; m = (m + q - y) % q; break;
          case 2: f *= e; m = ref::mulmod(m, y, q); break;
          case 3: f.Negate(); m = m ? q - m : 0; break;
          case 4: f = f * f + e; m = (ref::mulmod(m, m, q) + y) % q; break;
          default:
            if (i % 8 == 0 && y) {
              f /= e;
              m = ref::mulmod(m, ref::powmod(y, q - 2, q), q);
            }
        }
      }
      expect("chain", f, m, c, 0);
      mon::eval();
    }
  }
};

template <typename T, std::size_t K>
void inv2_one(T v) {
  const unsigned tb = sizeof(T) * 8;
  if (v & 1) {
    T z;
    try {
      z = details::inv2<K, T>(v);
    } catch (const std::exception& e) {
      mon::violation("C01.inv2", mon::cat("odd ", mon::dec(v), " rejected, K=", K));
      return;
    }
    T prod = (T)(v * z);
    T mask = K == tb ? (T)~(T)0 : (T)((((T)1) << (K % tb)) - 1);
    if ((prod & mask) != (1 & mask))
      mon::violation("C01.inv2", mon::cat("inv2<", K, ", u", tb, ">(", mon::dec(v),
                                          ") = ", mon::dec(z)));
  } else if (!mon::throws([&] { (void)details::inv2<K, T>(v); })) {
    mon::violation("C01.inv2-even", mon::cat("even ", mon::dec(v), " accepted, K=", K));
  }
  mon::eval();
}

template <typename T, std::size_t... Ks>
void inv2_all(mon::Rng& g, std::index_sequence<Ks...>) {
  const unsigned tb = sizeof(T) * 8;
  std::size_t n = mon::rounds(300, 20000);
  for (std::size_t i = 0; i < n; i++) {
    T v = (T)ref::shaped(g, tb, (u128)0 - 1);
    if (i < 128) v = (T)i;
    if (i >= 128 && i < 256) v = (T)((T)0 - (T)(i - 127));
    if (i % 8) v |= 1;
    (inv2_one<T, Ks + 1>(v), ...);
    mon::distinct(mon::mix((u64)v, (u64)((u128)v >> 64) + tb));
  }
  mon::count(mon::cat("inv2.u", tb, ".moduli"), tb);
}

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    mon::Rng g(mon::base_seed());
    Field<Mp61>::all(g);
    Field<Mp127>::all(g);
    inv2_all<std::uint32_t>(g, std::make_index_sequence<32>());
    inv2_all<std::uint64_t>(g, std::make_index_sequence<64>());
    inv2_all<__uint128_t>(g, std::make_index_sequence<128>());
    if (!mon::throws([] { (void)details::inv2<129, u64>(u64(3)); }))
      mon::violation("C01.inv2", "modulus beyond 2^128 accepted");
  });
}
