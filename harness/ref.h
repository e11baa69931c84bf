// Reference implementations, independent of /repo: modular arithmetic, AES-128,
// SHA-3, subsets. Only used as oracles.
#ifndef VERIF_REF_H
#define VERIF_REF_H

#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#include "mon.h"

namespace ref {

using u64 = std::uint64_t;
using u128 = __uint128_t;

constexpr u64 P61 = (u64(1) << 61) - 1;
constexpr u128 P127 = (u128(1) << 127) - 1;

// --- modular arithmetic on canonical representatives -----------------------

// (a + b) mod p without overflow, for a, b < p < 2^127.
inline u128 addmod(u128 a, u128 b, u128 p) { return (a + b) % p; }
inline u128 submod(u128 a, u128 b, u128 p) { return (a + (p - b)) % p; }

// double and add, for p < 2^127 + anything that a + b cannot overflow
inline u128 mulmod_slow(u128 a, u128 b, u128 p) {
  u128 r = 0;
  while (b) {
    if (b & 1) {
      r += a;
      if (r >= p) r -= p;
    }
    a += a;
    if (a >= p) a -= p;
    b >>= 1;
  }
  return r;
}

inline u128 mulmod(u128 a, u128 b, u128 p) {
  if (p <= P61) return (u128)(u64)a * (u64)b % p;
  return mulmod_slow(a, b, p);
}

inline u128 powmod(u128 a, u128 e, u128 p) {
  u128 r = 1 % p;
  while (e) {
    if (e & 1) r = mulmod(r, a, p);
    a = mulmod(a, a, p);
    e >>= 1;
  }
  return r;
}

inline u128 rand_bits(mon::Rng& g) {
  u128 v = ((u128)g.u64() << 64) | g.u64();
  return v;
}

// A value with an interesting shape: of random length, sparse, dense or near a
// boundary.
inline u128 shaped(mon::Rng& g, unsigned bits, u128 p) {
  u128 full = bits == 128 ? ~(u128)0 : (((u128)1 << bits) - 1);
  u128 v = 0;
  switch (g.below(10)) {
    case 8:  // an integer of the sources, or what it is congruent to
      v = mon::constant(g);
      if (g.below(4) == 0) v = p - v % p;
      break;
    case 0:
      v = rand_bits(g) >> g.below(128);
      break;
    case 1:
      v = (u128)1 << g.below(bits);
      if (g.below(2)) v |= (u128)1 << g.below(bits);
      break;
    case 2:
      v = ~(((u128)1 << g.below(bits)) | ((u128)1 << g.below(bits)));
      break;
    case 3:
      v = p - g.below(5);
      break;
    case 4:
      v = g.below(5);
      break;
    case 5: {  // a run of ones
      unsigned a = g.below(bits), b = g.below(bits);
      u128 x = ((u128)1 << a), y = ((u128)1 << b);
      v = x > y ? x - y : y - x;
      break;
    }
    case 6: {  // around powers of ten: zeros between digits
      u128 ten = 1;
      for (unsigned k = g.below(39); k-- > 0;) ten *= 10;
      v = ten * (1 + (g.chance(1, 2) ? g.below(1000) : (unsigned)g.u64()));
      if (g.chance(1, 2)) v += g.below(12) - (u128)2;
      break;
    }
    case 7: {  // words that are zero, full, equal or small
      u128 words[3] = {0, 0xffffffffu, (unsigned)g.u64()};
      v = 0;
      for (int k = 0; k < 4; k++) v = v << 32 | (g.chance(1, 4) ? (u128)g.below(3) : words[g.below(3)]);
      break;
    }
    default:
      v = rand_bits(g);
  }
  return v & full;
}

// --- AES-128 (FIPS 197) ------------------------------------------------------

struct Aes128 {
  unsigned char rk[11][16];
  static const unsigned char* sbox() {
    static unsigned char s[256];
    static bool init = [] {
      // multiplicative inverse in GF(2^8) and the affine map, from scratch
      for (int i = 0; i < 256; i++) {
        unsigned char inv = 0;
        for (int j = 1; j < 256 && i; j++)
          if (mul((unsigned char)i, (unsigned char)j) == 1) {
            inv = (unsigned char)j;
            break;
          }
        unsigned char x = inv, r = 0x63;
        for (int k = 0; k < 5; k++) {
          r ^= (unsigned char)((x << k) | (x >> (8 - k)));
        }
        s[i] = r;
      }
      return true;
    }();
    (void)init;
    return s;
  }
  static unsigned char mul(unsigned char a, unsigned char b) {
    unsigned char r = 0;
    while (b) {
      if (b & 1) r ^= a;
      a = (unsigned char)((a << 1) ^ ((a & 0x80) ? 0x1b : 0));
      b >>= 1;
    }
    return r;
  }
  static const std::array<std::array<std::uint32_t, 256>, 4>& tables() {
    static std::array<std::array<std::uint32_t, 256>, 4> t = [] {
      std::array<std::array<std::uint32_t, 256>, 4> r;
      const unsigned char* s = sbox();
      for (int i = 0; i < 256; i++) {
        unsigned char c[4] = {mul(s[i], 2), s[i], s[i], mul(s[i], 3)};
        for (int k = 0; k < 4; k++) {
          std::uint32_t w = 0;
          for (int j = 0; j < 4; j++)
            w |= (std::uint32_t)c[(j - k + 4) % 4] << (8 * j);
          r[k][i] = w;
        }
      }
      return r;
    }();
    return t;
  }
  explicit Aes128(const unsigned char* key) {
    const unsigned char* s = sbox();
    std::memcpy(rk[0], key, 16);
    unsigned char rcon = 1;
    for (int r = 1; r <= 10; r++) {
      unsigned char t[4] = {s[rk[r - 1][13]], s[rk[r - 1][14]], s[rk[r - 1][15]],
                            s[rk[r - 1][12]]};
      t[0] ^= rcon;
      rcon = mul(rcon, 2);
      for (int i = 0; i < 16; i++)
        rk[r][i] = rk[r - 1][i] ^ (i < 4 ? t[i] : rk[r][i - 4]);
    }
  }
  void enc(const unsigned char* in, unsigned char* out) const {
    const auto& t = tables();
    const unsigned char* s = sbox();
    unsigned char a[16], b[16];
    for (int i = 0; i < 16; i++) a[i] = in[i] ^ rk[0][i];
    for (int r = 1; r < 10; r++) {
      for (int c = 0; c < 4; c++) {
        std::uint32_t w = t[0][a[4 * c]] ^ t[1][a[(4 * c + 5) % 16]] ^
                          t[2][a[(4 * c + 10) % 16]] ^ t[3][a[(4 * c + 15) % 16]];
        for (int j = 0; j < 4; j++)
          b[4 * c + j] = (unsigned char)(w >> (8 * j)) ^ rk[r][4 * c + j];
      }
      std::memcpy(a, b, 16);
    }
    for (int c = 0; c < 4; c++)
      for (int j = 0; j < 4; j++)
        out[4 * c + j] = s[a[(4 * c + 5 * j) % 16]] ^ rk[10][4 * c + j];
  }
};

// The stream the generator is documented to produce.
struct CtrStream {
  Aes128 aes;
  u64 nonce;
  CtrStream(const unsigned char* seed, u64 nonce_) : aes(seed), nonce(nonce_) {}
  void block(u64 n, unsigned char* out) const {
    unsigned char in[16];
    for (int i = 0; i < 8; i++) in[i] = (unsigned char)(n >> (8 * i));
    for (int i = 0; i < 8; i++) in[8 + i] = (unsigned char)(nonce >> (8 * i));
    aes.enc(in, out);
  }
};

// --- SHA-3 (FIPS 202), lane-by-lane -------------------------------------------

inline void keccak_p(u64 A[5][5]) {
  auto rot = [](u64 x, unsigned r) { return r ? (x << r) | (x >> (64 - r)) : x; };
  unsigned char lfsr = 1;
  for (int round = 0; round < 24; round++) {
    u64 C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++)
      C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    // rho and pi
    int x = 1, y = 0;
    B[0][0] = A[0][0];
    for (int t = 0; t < 24; t++) {
      unsigned r = (unsigned)((t + 1) * (t + 2) / 2 % 64);
      B[y][(2 * x + 3 * y) % 5] = rot(A[x][y], r);
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx;
      y = ny;
    }
    for (int i = 0; i < 5; i++)
      for (int j = 0; j < 5; j++)
        A[i][j] = B[i][j] ^ (~B[(i + 1) % 5][j] & B[(i + 2) % 5][j]);
    for (int j = 0; j < 7; j++) {
      if (lfsr & 1) A[0][0] ^= (u64)1 << ((1 << j) - 1);
      lfsr = (unsigned char)((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
    }
  }
}

inline std::vector<unsigned char> sha3(const unsigned char* p, std::size_t n,
                                       unsigned bits) {
  std::size_t rate = 200 - 2 * bits / 8;
  u64 A[5][5] = {};
  std::size_t pos = 0;
  auto absorb = [&](unsigned char b) {
    std::size_t lane = pos / 8;
    A[lane % 5][lane / 5] ^= (u64)b << (8 * (pos % 8));
    pos++;
  };
  for (std::size_t i = 0; i < n; i++) {
    absorb(p[i]);
    if (pos == rate) {
      keccak_p(A);
      pos = 0;
    }
  }
  absorb(0x06);
  pos = rate - 1;
  absorb(0x80);
  keccak_p(A);
  std::vector<unsigned char> out(bits / 8);
  for (std::size_t i = 0; i < out.size(); i++)
    out[i] = (unsigned char)(A[(i / 8) % 5][i / 8 / 5] >> (8 * (i % 8)));
  return out;
}

// --- subsets -----------------------------------------------------------------

// All k-subsets of {0..n-1}, as sorted vectors.
inline std::vector<std::vector<int>> subsets(int n, int k) {
  std::vector<std::vector<int>> r;
  for (u64 m = 0; m < ((u64)1 << n); m++) {
    if (__builtin_popcountll(m) != k) continue;
    std::vector<int> s;
    for (int i = 0; i < n; i++)
      if (m >> i & 1) s.push_back(i);
    r.push_back(s);
  }
  return r;
}

inline u64 binom(unsigned n, unsigned k) {
  std::vector<u128> row(n + 1, 0);
  row[0] = 1;
  for (unsigned i = 1; i <= n; i++)
    for (unsigned j = i; j > 0; j--) row[j] += row[j - 1];
  return k > n ? 0 : (u64)row[k];
}

// Self-check of the references against published values.
inline void self_check() {
  // FIPS 197 appendix C.1
  unsigned char k[16], pt[16], ct[16];
  for (int i = 0; i < 16; i++) {
    k[i] = (unsigned char)i;
    pt[i] = (unsigned char)(i * 0x11);
  }
  Aes128(k).enc(pt, ct);
  if (mon::hex(ct, 16) != "69c4e0d86a7b0430d8cdb78070b4c55a")
    mon::broken("reference AES");
  auto e = sha3(nullptr, 0, 256);
  if (mon::hex(e.data(), 32) !=
      "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a")
    mon::broken("reference SHA3-256");
  e = sha3((const unsigned char*)"abc", 3, 384);
  if (mon::hex(e.data(), 48) !=
      "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea"
      "927ac7f539f1edf228376d25")
    mon::broken("reference SHA3-384");
  e = sha3((const unsigned char*)"abc", 3, 512);
  if (mon::hex(e.data(), 64) !=
      "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9"
      "192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0")
    mon::broken("reference SHA3-512");
}

}  // namespace ref

#endif
