R = "src/frn/lib/"
SEEDS = [
 dict(id="C01-reduce-fast-path", property="C01",
  edits=[(R+"math/arithmetic.h", "  return x % n;", "  return x <= n ? x : x % n;")],
  needs="an integer equal to the prime itself (or an encoding of it)",
  breaks="constructing an element from the prime gives a second representative of zero that does not equal 0",
  demo=r'''
int main() {
  CHECK(Field(P61) == Field(0));
  CHECK(F127(P127).ToString() == "0");
  CHECK(throws([] { Field(P61).Inverse(); }));
}
'''),
 dict(id="C01-add-boundary", property="C01",
  edits=[(R+"math/arithmetic.h", "  return z >= n ? z - n : z;", "  return z > n ? z - n : z;")],
  needs="two elements whose sum is exactly the prime",
  breaks="x + (-x) is the prime instead of zero",
  demo=r'''
int main() {
  Field x(123456789), y = -x;
  CHECK(x + y == Field(0));
  CHECK((F127(5) + F127(P127 - 5)).ToString() == "0");
}
'''),
 dict(id="C01-inv2-steps", property="C01",
  edits=[(R+"math/arithmetic.h", "  std::size_t bit_counter = 5;", "  std::size_t bit_counter = 6;")],
  needs="a modulus 2^K with K just above a doubling step (e.g. K = 11, 21 or 41)",
  breaks="the inverse of odd numbers is wrong in its upper bits for some K, all common K are right",
  demo=r'''
template <std::size_t K>
static void t() {
  for (u64 v = 1; v < 4000; v += 2) {
    u64 m = K == 64 ? ~0ull : (1ull << K) - 1;
    CHECK(((math::details::inv2<K>(v) * v) & m) == 1);
  }
}
int main() { t<8>(); t<11>(); t<16>(); t<22>(); t<32>(); t<42>(); t<47>(); t<64>(); }
'''),
 dict(id="C01-mul127-carry", property="C01",
  edits=[(R+"math/arithmetic.cc", "u128 carry = (u128)(u64)ad + (u128)(u64)bc + (bd >> 64u);", "u128 carry = (u128)((u64)ad + (u64)bc) + (bd >> 64u);")],
  needs="products in the field of order 2^127-1 whose middle words overflow 64 bits",
  breaks="a carry is lost in the 256-bit product",
  demo=r'''
int main() {
  F127 x(P127 - 1), y(P127 - 1);
  CHECK((x * y).ToString() == "1");
  F127 a((u128)0x7123456789abcdefull << 64 | 0xfedcba9876543210ull);
  CHECK(a * (a + F127(1)) == a * a + a);
  CHECK(a * (F127(0) - a) == F127(0) - a * a);
}
'''),
 dict(id="C02-decode-mask", property="C02",
  edits=[(R+"math/p.h", "    return details::red(x, static_cast<U>(Details::kPrime));", "    const U p = static_cast<U>(Details::kPrime);\n    return (x & p) == p ? 0 : x & p;")],
  needs="decoding a byte pattern with bits above the size of the prime",
  breaks="the element decoded is not congruent to the pattern",
  demo=r'''
int main() {
  unsigned char b[8] = {1, 0, 0, 0, 0, 0, 0, 0x80};
  CHECK(val(Field::FromBytes(b)) == 0x8000000000000001ull % P61);
  unsigned char c[8] = {5, 0, 0, 0, 0, 0, 0, 0};
  CHECK(Field::FromBytes(c) == Field(5));
}
'''),
 dict(id="C02-text-chunks", property="C02",
  edits=[(R+"tools.cc", "  stringstream ss;\n  __uint128_t w = v;\n  while (w) {\n    ss << ((int)(w % 10));\n    w = w / 10;\n  }\n  const string number_str = ss.str();\n  return string(number_str.rbegin(), number_str.rend());",
          "  // two halves of at most 19 digits each are printed by the library.\n  const __uint128_t base = 10000000000000000000ULL;\n  stringstream ss;\n  if (v >= base) ss << to_string<std::uint64_t>((std::uint64_t)(v / base));\n  ss << (std::uint64_t)(v % base);\n  return ss.str();")],
  needs="an integer of 20 or more digits whose 19 lower digits start with a zero",
  breaks="the text form lacks zeros in the middle",
  demo=r'''
int main() {
  u128 v = (u128)10000000000000000000ull * 7 + 123;
  CHECK(F127(v).ToString() == "70000000000000000123");
  CHECK(F127(F127(v).ToString()) == F127(v));
  CHECK(F127(42).ToString() == "42");
}
'''),
 dict(id="C02-shares-offset", property="C02",
  edits=[(R+"secret_sharing/rep.h", "      shares.emplace_back(ShareFromBytes(buffer + offset));\n      offset += ShareSizeBytes();", "      shares.emplace_back(ShareFromBytes(buffer + offset));\n      offset = (offset + ShareSizeBytes()) & 0xFFFF;")],
  needs="decoding more than 64 KiB of shares at once",
  breaks="shares after the first 64 KiB are read from the beginning again",
  demo=r'''
int main() {
  Rep rep(10, 3);
  std::vector<Shr> s;
  for (u64 i = 0; i < 200; i++) s.push_back(Shr(rep.ShareSize(), Field(i + 1)));
  Bytes b(s.size() * rep.ShareSizeBytes());
  rep.SharesToBytes(s, b.data());
  auto r = rep.SharesFromBytes(b.data(), s.size());
  CHECK(r.size() == s.size());
  for (std::size_t i = 0; i < s.size(); i++) CHECK(r[i][0] == s[i][0] && r[i].back() == s[i].back());
}
'''),
 dict(id="C03-counter-width", property="C03",
  edits=[(R+"primitives/prg.cc", "static inline auto create_mask(const long counter) {", "static inline auto create_mask(const unsigned counter) {")],
  needs="a generator that has produced more than 2^32 blocks (64 GiB), or starts there",
  breaks="the counter of the blocks wraps and output repeats", flags="-DPRG_INITIAL_COUNTER=0xffffffff",
  demo=r'''
int main() {
  unsigned char seed[16] = {1};
  primitives::PRG p(seed);
  unsigned char a[16], b[16], want[16];
  p.Next(a, 16);
  p.Next(b, 16);
  // the second block has counter 2^32
  // AES-128(key 01 00..., counter 2^32 || nonce) must differ from the block of counter 0
  // computed with the instructions themselves.
  __m128i k[11];
  k[0] = _mm_loadu_si128((const __m128i*)seed);
#define EXP(i, r) { __m128i g = _mm_shuffle_epi32(_mm_aeskeygenassist_si128(k[i - 1], r), 0xff), t = k[i - 1]; \
    t = _mm_xor_si128(t, _mm_slli_si128(t, 4)); t = _mm_xor_si128(t, _mm_slli_si128(t, 4)); t = _mm_xor_si128(t, _mm_slli_si128(t, 4)); k[i] = _mm_xor_si128(t, g); }
  EXP(1, 1) EXP(2, 2) EXP(3, 4) EXP(4, 8) EXP(5, 16) EXP(6, 32) EXP(7, 64) EXP(8, 128) EXP(9, 0x1b) EXP(10, 0x36)
  __m128i m = _mm_xor_si128(_mm_set_epi64x(PRG_NONCE, 0x100000000ll), k[0]);
  for (int i = 1; i < 10; i++) m = _mm_aesenc_si128(m, k[i]);
  m = _mm_aesenclast_si128(m, k[10]);
  _mm_storeu_si128((__m128i*)want, m);
  CHECK(!memcmp(b, want, 16));
}
'''),
 dict(id="C03-large-request-chunks", property="C03",
  edits=[(R+"primitives/prg.cc", "  if (!nbytes) return;\n", "  // keep the temporary buffer small\n  static constexpr size_t kChunk = (1 << 16) + 8;\n  while (nbytes > kChunk) {\n    Next(dest, kChunk);\n    dest += kChunk;\n    nbytes -= kChunk;\n  }\n  if (!nbytes) return;\n"),
         (R+"primitives/prg.cc", "  size_t nblocks = nbytes / BlockSize();", "  size_t nblocks = (nbytes / BlockSize());")],
  needs="a single request of more than 64 KiB",
  breaks="half a block is thrown away every 64 KiB, so the bytes after that are not the next unused blocks",
  demo=r'''
int main() {
  primitives::PRG p, q;
  Bytes a(200000), b(200000);
  p.Next(a);
  for (std::size_t i = 0; i < b.size(); i += 16) q.Next(b.data() + i, 16);
  CHECK(a == b);
}
'''),
 dict(id="C03-reset-position", property="C03",
  edits=[(R+"primitives/prg.cc", "void frn::lib::primitives::PRG::Update() { mCounter += 1; }", "void frn::lib::primitives::PRG::Update() {\n  mCounter += 1;\n  // re-key the schedule now and then\n  if ((mCounter & 0xFFFFF) == 0) Reset();\n}")],
  needs="more than 2^20 blocks (16 MiB) from one generator",
  breaks="the generator starts over after 16 MiB",
  demo=r'''
int main() {
  primitives::PRG p;
  Bytes a(1 << 20), b(1 << 20);
  p.Next(a);
  for (int i = 0; i < 15; i++) p.Next(b);
  p.Next(b);
  CHECK(a != b);
  CHECK(p.Counter() == 17 * 65536);
}
'''),
 dict(id="C04-tail-boundary", property="C04",
  edits=[(R+"primitives/hash.h", "  if (nbytes < old_tail) {", "  if (nbytes <= old_tail && mByteIndex) {")],
  needs="an update that ends exactly on a word boundary after an update that did not",
  breaks="the completed word is not absorbed before the next one",
  demo=r'''
int main() {
  Bytes m(64);
  for (int i = 0; i < 64; i++) m[i] = (unsigned char)(i * 7 + 1);
  for (std::size_t k = 1; k < 8; k++) {
    primitives::Hash<primitives::SHA3_256> a, b;
    a.Update(m);
    b.Update(m.data(), k).Update(m.data() + k, 8 - k).Update(m.data() + 8, 56);
    CHECK(a.Finalize() == b.Finalize());
  }
}
'''),
 dict(id="C04-pad-last-word", property="C04",
  edits=[(R+"primitives/hash.h", "  mState[kCuttoff - 1] ^= 0x8000000000000000ULL;", "  if (!(mWordIndex == kCuttoff - 1 && mByteIndex == 7))\n    mState[kCuttoff - 1] ^= 0x8000000000000000ULL;")],
  needs="a message whose length is one less than a multiple of the block size",
  breaks="the padding of such messages is not the prescribed one",
  demo=r'''
int main() {
  // the digest of 135 bytes must depend on the closing bit: compare with the value of hashlib
  Bytes m(135, 0xa3);
  auto d = primitives::Hash<primitives::SHA3_256>().Update(m).Finalize();
  FILE* f = popen("python3 -c \"import hashlib;print(hashlib.sha3_256(bytes([0xa3])*135).hexdigest())\"", "r");
  char want[100] = {0};
  CHECK(f && std::fgets(want, sizeof want, f));
  pclose(f);
  for (int i = 0; i < 32; i++) {
    char x[3];
    std::snprintf(x, 3, "%02x", d[i]);
    CHECK(want[2 * i] == x[0] && want[2 * i + 1] == x[1]);
  }
}
'''),
 dict(id="C04-shared-buffer", property="C04",
  edits=[(R+"primitives/hash.h", "  uint64_t mSaved = 0;", "  static inline uint64_t mSaved = 0;")],
  needs="two hash objects fed alternately with pieces that are not multiples of a word",
  breaks="distinct hash objects influence each other",
  demo=r'''
int main() {
  Bytes m(5, 1), k(3, 2);
  primitives::Hash<primitives::SHA3_256> a, b, c;
  a.Update(m).Update(k);
  auto want = a.Finalize();
  b.Update(m);
  c.Update(k);
  b.Update(k);
  CHECK(b.Finalize() == want);
}
'''),
 dict(id="C05-binom-width", property="C05",
  edits=[(R+"secret_sharing/rep.h", "  std::size_t end = k > m - k ? m - k : k;", "  unsigned end = k > m - k ? m - k : k;"),
         (R+"secret_sharing/rep.h", "constexpr std::size_t Binom(const std::size_t m, const std::size_t k) {", "constexpr unsigned Binom(const std::size_t m, const std::size_t k) {")],
  needs="a binomial coefficient above 2^32 (advertised sizes of very large configurations)",
  breaks="sizes are truncated",
  demo=r'''
int main() {
  CHECK(secret_sharing::Binom(40, 20) == 137846528820ull);
  CHECK(secret_sharing::Binom(10, 3) == 120);
}
'''),
 dict(id="C05-lookup-order", property="C05",
  edits=[(R+"secret_sharing/rep.h", "    for (auto party_idx : combination)\n      mLookup[party_idx].emplace_back(share_idx);", "    for (auto party_idx : combination)\n      mLookup[party_idx].emplace_back(share_idx);\n    if (share_idx == 999) std::swap(mLookup[0][0], mLookup[0][1]);"),
         (R+"secret_sharing/rep.h", "    share_idx++;\n", "    ++share_idx;\n")],
  needs="a configuration with at least 1000 pieces (for instance 13 parties, threshold 4 has 715; 14 parties, threshold 4 has 1001)",
  breaks="the positions of the first party's pieces are no longer in the order of the index set's combinations",
  demo=r'''
int main() {
  Rep rep(14, 4);
  auto s = rep.IndexSetFor(0);
  for (std::size_t i = 1; i < s.size(); i++) CHECK(s[i - 1] < s[i]);
}
'''),
 dict(id="C05-share-list-empty", property="C05",
  edits=[(R+"secret_sharing/rep.h", "    all_shares.resize(Size());", "    all_shares.resize(secrets.empty() ? 0 : Size());"),
         ],
  needs="sharing an empty list of secrets",
  breaks="no list per party is returned, so taking a party's shares reads outside of the result",
  demo=r'''
int main() {
  Rep rep(4, 1);
  primitives::PRG prg;
  CHECK(rep.Share(std::vector<Field>{}, prg).size() == 4);
}
'''),
 dict(id="C06-buffer-reuse", property="C06",
  edits=[(R+"secret_sharing/additive.h", "  std::vector<unsigned char> buf(element_size * n);\n  prg.Next(buf);", "  // a block of randomness at a time\n  static constexpr std::size_t kBlock = 64;\n  std::vector<unsigned char> buf(element_size * std::min(n, kBlock));\n  prg.Next(buf);"),
         (R+"secret_sharing/additive.h", "T::FromBytes(buf.data() + (i * element_size));", "T::FromBytes(buf.data() + ((i % kBlock) * element_size));")],
  needs="sharings with more than 64 pieces (9 or more parties)",
  breaks="pieces repeat within a sharing, so a coalition can compute pieces it should not know",
  demo=r'''
int main() {
  for (std::size_t n : {5, 84, 210}) {
    primitives::PRG prg;
    auto s = secret_sharing::ShareAdditive(Field(1), n, prg);
    std::set<std::string> d;
    for (std::size_t i = 0; i + 1 < n; i++) d.insert(s[i].ToString());
    CHECK(d.size() == n - 1);
    CHECK(math::vector::Sum(s) == Field(1));
  }
}
'''),
 dict(id="C06-list-generator-copy", property="C06",
  edits=[(R+"secret_sharing/rep.h", "    for (const auto &secret : secrets) {\n      std::vector<ShareType> shares = Share(secret, prg);", "    frn::lib::primitives::PRG stream(prg);\n    for (const auto &secret : secrets) {\n      std::vector<ShareType> shares = Share(secret, stream);"),],
  needs="two lists shared with one generator",
  breaks="both lists are shared with the same randomness",
  demo=r'''
int main() {
  Rep rep(4, 1);
  primitives::PRG prg;
  auto a = rep.Share(std::vector<Field>{Field(1)}, prg), b = rep.Share(std::vector<Field>{Field(2)}, prg);
  std::size_t same = 0;
  for (int p = 0; p < 4; p++)
    for (int k = 0; k < 3; k++) same += a[p][0][k] == b[p][0][k];
  CHECK(same == 0);
}
'''),
 dict(id="C06-closing-piece-position", property="C06",
  edits=[(R+"secret_sharing/additive.h", "    const auto share = T::FromBytes(buf.data() + (i * element_size));\n", "    auto share = T::FromBytes(buf.data() + (i * element_size));\n    if (share == T::kZero || (buf[i * element_size] == 0xFF && i)) share = shares[0];\n")],
  needs="a piece whose first random byte is 255",
  breaks="one piece in 256 repeats the first piece",
  demo=r'''
int main() {
  primitives::PRG prg;
  auto s = secret_sharing::ShareAdditive(Field(1), 4000, prg);
  std::set<std::string> d;
  for (std::size_t i = 0; i + 1 < s.size(); i++) d.insert(s[i].ToString());
  CHECK(d.size() == s.size() - 1);
}
'''),
 dict(id="C07-last-copy", property="C07",
  edits=[(R+"secret_sharing/rep.h", "      comparison = redundant[i][0];\n      for (auto elt : redundant[i]){", "      comparison = redundant[i][0];\n      for (std::size_t c = 1; c + 1 < redundant[i].size() || c == 1; c++){\n        auto elt = redundant[i][c < redundant[i].size() ? c : 0];")],
  needs="only the last holder of a piece has a different copy, with at least three holders",
  breaks="the inconsistency is not noticed",
  demo=r'''
int main() {
  Rep rep(5, 2);
  primitives::PRG prg;
  auto s = rep.Share(Field(7), prg);
  CHECK(rep.ErrorDetection(s) == Field(7));
  for (int p = 0; p < 5; p++)
    for (std::size_t k = 0; k < rep.ShareSize(); k++) {
      auto b = s;
      b[p][k] += Field(1);
      CHECK(throws([&] { rep.ErrorDetection(b); }));
    }
}
'''),
 dict(id="C07-sum-check", property="C07",
  edits=[(R+"secret_sharing/rep.h", "      for (auto elt : redundant[i]){\n\tif (elt != comparison) throw std::runtime_error(\"Inconsistent shares\");\n      }", "      // all copies are equal when they add up to a multiple of one of them\n      ValueType total = frn::lib::math::vector::Sum(redundant[i]);\n      if (total != comparison * ValueType(redundant[i].size()))\n        throw std::runtime_error(\"Inconsistent shares\");")],
  needs="two holders change their copies of a piece by amounts that cancel",
  breaks="cancelling changes are accepted",
  demo=r'''
int main() {
  Rep rep(5, 2);
  primitives::PRG prg;
  auto s = rep.Share(Field(7), prg);
  CHECK(rep.ErrorDetection(s) == Field(7));
  auto set = rep.Combination(4);
  auto at = [&](int p) { auto v = rep.IndexSetFor(p); return std::find(v.begin(), v.end(), 4) - v.begin(); };
  s[set[1]][at(set[1])] += Field(3);
  s[set[2]][at(set[2])] -= Field(3);
  CHECK(throws([&] { rep.ErrorDetection(s); }));
}
'''),
 dict(id="C07-zero-copy", property="C07",
  edits=[(R+"secret_sharing/rep.h", "if (elt != comparison) throw std::runtime_error(\"Inconsistent shares\");", "if (elt != comparison && elt != ValueType(0)) throw std::runtime_error(\"Inconsistent shares\");")],
  needs="a wrong copy that is zero",
  breaks="a party that sends zeros is not noticed",
  demo=r'''
int main() {
  Rep rep(4, 1);
  primitives::PRG prg;
  auto s = rep.Share(Field(7), prg);
  s[2][1] = Field(0);
  CHECK(throws([&] { rep.ErrorDetection(s); }));
}
'''),
 dict(id="C08-multiply-zero", property="C08",
  edits=[("src/frn/shr.cc", "  Shr r;\n  r.reserve(a.size());\n  for (const auto& s : a) r.emplace_back(c * s);", "  Shr r;\n  if (c == Field(0)) return Shr(ShareSize(), mIndexForConstantOps == 0 ? c : a[0] - a[0]);\n  r.reserve(a.size());\n  for (const auto& s : a) r.emplace_back(c == Field(2) && s == Field(0) ? Field(2) : c * s);")],
  needs="a share with a piece that is zero, multiplied by two",
  breaks="the piece becomes two",
  demo=r'''
int main() {
  frn::ShrManipulator m(0, 1, 4);
  Shr a = {Field(0), Field(5), Field(9)};
  auto r = m.MultiplyConstant(a, Field(2));
  CHECK(r[0] == Field(0) && r[1] == Field(10) && r[2] == Field(18));
}
'''),
 dict(id="C08-subtract-self", property="C08",
  edits=[("src/frn/shr.cc", "    r.emplace_back(a[i] - b[i]);", "    r.emplace_back(&a == &b ? a[i] : a[i] - b[i]);")],
  needs="subtracting a share object from itself",
  breaks="x - x is x",
  demo=r'''
int main() {
  frn::ShrManipulator m(1, 1, 4);
  Shr a = {Field(3), Field(5), Field(9)};
  CHECK(m.Subtract(a, a)[1] == Field(0));
}
'''),
 dict(id="C08-constant-holder", property="C08",
  edits=[("src/frn/shr.cc", "  for (const auto& s : a) r.emplace_back(-s);\n  if (mIndexForConstantOps == -1) return r;", "  for (const auto& s : a) r.emplace_back(-s);\n  if (mIndexForConstantOps == -1) return mParties > 7 ? a : r;")],
  needs="subtraction of a share from a constant with more than seven parties",
  breaks="parties without the first piece do not negate their share",
  demo=r'''
int main() {
  for (unsigned n : {4, 7, 8, 10}) {
    unsigned t = (n - 1) / 3;
    Rep rep(n, t);
    auto s = share_all(rep, {5});
    for (unsigned i = 0; i < n; i++) s[i][0] = frn::ShrManipulator(i, t, n).SubtractConstant(Field(12), s[i][0]);
    CHECK(open_all(rep, s, 0) == 7);
  }
}
'''),
]
