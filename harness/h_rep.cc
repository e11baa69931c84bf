// C05, C06, C07: replicated sharings.
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/secret_sharing/additive.h"
#include "frn/lib/secret_sharing/rep.h"
#include "mon.h"
#include "ref.h"
#include "sharing.h"

using namespace frn::lib;
using ref::u128;
using ref::u64;
using primitives::PRG;
namespace ss = secret_sharing;

static std::string nt(std::size_t n, std::size_t t) { return mon::cat("n=", n, " t=", t); }

static PRG seeded(mon::Rng& g) {
  unsigned char s[16];
  for (auto& b : s) b = (unsigned char)g.u64();
  return PRG(s);
}

// --- combinatorics (C05) -------------------------------------------------------

static void combinatorics(mon::Rng& g) {
  // m choose k for everything that fits
  for (unsigned m = 0; m <= 61; m++)
    for (unsigned k = 0; k <= m; k++) {
      mon::eval();
      if (ss::Binom(m, k) != ref::binom(m, k))
        mon::violation("C05.binom", mon::cat(m, " choose ", k, " -> ", ss::Binom(m, k)));
    }
  for (unsigned m = 62; m < 5000; m += 1 + (unsigned)g.below(60))
    for (unsigned k : {0u, 1u, 2u, 3u, m - 2, m - 1, m}) {
      u128 want = 1;
      unsigned kk = std::min(k, m - k);
      for (unsigned i = 1; i <= kk; i++) want = want * (m + 1 - i) / i;
      mon::eval();
      if (ss::Binom(m, k) != (std::size_t)want)
        mon::violation("C05.binom", mon::cat(m, " choose ", k, " -> ", ss::Binom(m, k)));
    }
  // combinations in lexicographic order
  for (int m = 1; m <= 11; m++)
    for (int k = 1; k <= m; k++) {
      auto all = ref::subsets(m, k);
      std::sort(all.begin(), all.end());
      std::vector<int> c(k);
      for (int i = 0; i < k; i++) c[i] = i;
      for (std::size_t i = 0; i < all.size(); i++) {
        mon::eval();
        if (c != all[i]) {
          mon::violation("C05.next-combination", mon::cat(m, " choose ", k, " number ", i));
          break;
        }
        if (ss::NextCombination(c, m, k) != (i + 1 < all.size())) {
          mon::violation("C05.next-combination", mon::cat("end of ", m, " choose ", k, " at ", i));
          break;
        }
      }
      if (c != all.back()) mon::violation("C05.next-combination", "last combination is not kept");
      for (int r = 0; r < 6; r++) {
        std::size_t i = r == 0 ? 0 : r == 1 ? all.size() - 1 : g.below(all.size());
        std::vector<int> d(k, 77);
        ss::NthCombination(d, (int)i, m);
        mon::eval();
        if (d != all[i])
          mon::violation("C05.nth-combination", mon::cat(m, " choose ", k, " number ", i));
      }
    }
  // intersection and difference of sorted sets, by position in the first
  for (std::size_t r = 0; r < mon::rounds(4000, 40000); r++) {
    std::set<int> a, b;
    int range = 1 + (int)g.below(30);
    for (std::size_t i = g.below(14); i > 0; i--) a.insert((int)g.below(range));
    for (std::size_t i = g.below(14); i > 0; i--) b.insert((int)g.below(range));
    std::vector<int> x(a.begin(), a.end()), y(b.begin(), b.end());
    std::vector<int> wi, wd, gi, gd;
    for (std::size_t i = 0; i < x.size(); i++) (b.count(x[i]) ? wi : wd).push_back((int)i);
    ss::Intersection(x, y, [&](int i) { gi.push_back(i); });
    ss::Difference(x, y, [&](int i) { gd.push_back(i); });
    mon::eval(2);
    if (gi != wi) mon::violation("C05.intersection", mon::cat("sizes ", x.size(), " ", y.size()));
    if (gd != wd) mon::violation("C05.difference", mon::cat("sizes ", x.size(), " ", y.size()));
  }
}

template <typename Prime>
struct Rep {
  using F = math::FpElement<Prime>;
  using V = typename Prime::ValueType;
  using R = ss::Replicator<F>;
  using S = typename R::ShareType;
  static constexpr std::size_t B = sizeof(V);
  static const char* name() { return B == 8 ? "mp61" : "mp127"; }
  static u128 p() { return B == 8 ? (u128)ref::P61 : ref::P127; }
  static void fail(const char* what, const std::string& d) {
    mon::violation(mon::cat(mon::args().prop, ".", name(), ".", what), d);
  }
  static F any(mon::Rng& g) {
    u128 v = g.below(2) ? ref::shaped(g, 8 * B, p()) : ref::rand_bits(g);
    return F((V)(v % p()));
  }
  static std::string txt(const F& f) { return f.ToString(); }

  // --- C05 -----------------------------------------------------------------

  static void structure(const R& r, std::size_t n, std::size_t t) {
    const std::string id = nt(n, t);
    std::size_t A = ref::binom((unsigned)n, (unsigned)t);
    std::size_t Z = ref::binom((unsigned)n - 1, (unsigned)t);
    mon::eval();
    if (r.Size() != n || r.Threshold() != t || r.AdditiveShareSize() != A || r.ShareSize() != Z ||
        r.ShareSizeBytes() != Z * B) {
      fail("sizes", mon::cat(id, ": ", r.Size(), " ", r.Threshold(), " ", r.AdditiveShareSize(), " ",
                             r.ShareSize(), " ", r.ShareSizeBytes()));
      return;
    }
    if (r.DifferenceSize() != ref::binom((unsigned)n - 2, (unsigned)t - 1))
      fail("difference-size", mon::cat(id, ": ", r.DifferenceSize()));
    std::set<std::vector<int>> sets;
    std::vector<u64> mask(A, 0);
    bool small = n <= 64;
    for (std::size_t i = 0; i < A; i++) {
      auto c = r.Combination(i);
      bool ok = c.size() == n - t;
      for (std::size_t j = 0; ok && j < c.size(); j++)
        ok = c[j] >= 0 && c[j] < (int)n && (!j || c[j - 1] < c[j]);
      if (!ok) {
        fail("combination", mon::cat(id, " piece ", i));
        return;
      }
      if (!sets.insert(c).second) fail("combination-twice", mon::cat(id, " piece ", i));
      if (r.RevComb(c) != (int)i) fail("reverse-map", mon::cat(id, " piece ", i));
      if (small)
        for (int x : c) mask[i] |= (u64)1 << x;
    }
    for (std::size_t q = 0; q < n; q++) {
      auto s = r.IndexSetFor(q);
      std::set<int> seen;
      if (s.size() != Z) {
        fail("index-set-size", mon::cat(id, " party ", q));
        return;
      }
      for (int i : s) {
        if (i < 0 || (std::size_t)i >= A || !seen.insert(i).second) {
          fail("index-set", mon::cat(id, " party ", q, " entry ", i));
          return;
        }
        if (small && !(mask[i] >> q & 1)) fail("entitlement", mon::cat(id, " party ", q, " piece ", i));
      }
      mon::eval();
    }
    mon::count("structures", 1);
  }

  static void share_once(mon::Rng& g, const R& r, const shr::Layout<F>& lay, const PRG& prg0,
                         const F& secret) {
    const std::string id = mon::cat(nt(lay.n, lay.t), " secret ", txt(secret));
    PRG prg = prg0;
    std::vector<S> shares = r.Share(secret, prg);
    std::vector<F> pieces;
    std::string why;
    mon::eval();
    mon::distinct(mon::mix(mon::hash_str(id), g.s));
    if (!lay.check(shares, &pieces, &why)) {
      fail("share", mon::cat(id, ": ", why));
      return;
    }
    if (shr::sum(pieces) != secret) fail("share-sum", id);
    auto before = shares;
    if (r.Reconstruct(shares) != secret) fail("reconstruct", id);
    F e(0);
    std::string what;
    if (mon::throws([&] { e = r.ErrorDetection(shares); }, &what) || e != secret)
      fail("reconstruct-checked", mon::cat(id, " ", what));
    if (shares != before) fail("reconstruct-changes", id);
    // a copied replicator is as good
    if (g.chance(1, 8)) {
      R c(r);
      PRG q = prg0;
      if (c.Share(secret, q) != shares || c.Reconstruct(shares) != secret) fail("copy", id);
    }
  }

  static void list(mon::Rng& g, const R& r, const PRG& prg0, std::size_t k) {
    const std::string id = mon::cat(nt(r.Size(), r.Threshold()), " list of ", k);
    std::vector<F> secrets;
    for (std::size_t i = 0; i < k; i++) secrets.push_back(any(g));
    PRG a = prg0, b = prg0;
    std::vector<std::vector<S>> got = r.Share(secrets, a);
    mon::eval();
    mon::distinct(mon::hash_str(mon::cat(id, g.s)));
    bool ok = got.size() == r.Size();
    for (auto& x : got) ok = ok && x.size() == k;
    if (!ok) {
      fail("list-shape", id);
      return;
    }
    for (std::size_t i = 0; i < k; i++) {
      auto one = r.Share(secrets[i], b);
      std::vector<S> col;
      for (auto& x : got) col.push_back(x[i]);
      if (one != col) {
        fail("list", mon::cat(id, " secret ", i));
        return;
      }
      if (r.Reconstruct(col) != secrets[i]) fail("list-value", mon::cat(id, " secret ", i));
    }
    // and the generator is where it would be
    std::vector<unsigned char> x(32), y(32);
    a.Next(x);
    b.Next(y);
    if (x != y) fail("list-generator", id);
  }

  static void additive(mon::Rng& g) {
    for (std::size_t r = 0; r < mon::rounds(300, 4000); r++) {
      std::size_t n = mon::near_constant(g, 1, 20000, 1 + (r < 40 ? r : g.below(500)));
      PRG prg = seeded(g);
      F s = any(g);
      auto v = ss::ShareAdditive(s, n, prg);
      mon::eval();
      if (v.size() != n || shr::sum(v) != s) fail("additive", mon::cat("n=", n));
    }
    PRG prg;
    mon::eval();
    if (!mon::throws([&] { ss::ShareAdditive(F(1), 0, prg); })) fail("additive-zero", "n=0 accepted");
  }

  static void rejects() {
    for (std::size_t n = 0; n <= 20; n++)
      for (std::size_t t = 0; t <= n + 3; t++) {
        if (t > 0 && t < n) continue;
        mon::eval();
        if (!mon::throws([&] { R r(n, t); })) fail("accepts-unusable", nt(n, t));
      }
  }

  // --- C06 -----------------------------------------------------------------

  static void coalitions(const R& r, std::size_t n, std::size_t t) {
    std::size_t A = r.AdditiveShareSize();
    if (n > 20) return;
    std::vector<u64> holders(A, 0);
    for (std::size_t q = 0; q < n; q++)
      for (int i : r.IndexSetFor(q)) holders[i] |= (u64)1 << q;
    for (u64 m = 0; m < ((u64)1 << n); m++) {
      unsigned c = (unsigned)__builtin_popcountll(m);
      if (c != t && c != t + 1) continue;
      bool missing = false;
      for (std::size_t i = 0; i < A && !missing; i++) missing = !(holders[i] & m);
      mon::eval();
      if (c == t && !missing) fail("coalition-has-all", mon::cat(nt(n, t), " parties ", m));
      if (c == t + 1 && missing) fail("coalition-lacks", mon::cat(nt(n, t), " parties ", m));
    }
    mon::count("structures_all_coalitions");
  }

  struct Bits {
    u64 n = 0;
    u64 ones[128] = {};
    void add(const F& f) {
      unsigned char b[B];
      f.ToBytes(b);
      n++;
      for (std::size_t i = 0; i < 8 * B; i++) ones[i] += b[i / 8] >> (i % 8) & 1;
    }
    void judge(const char* what) {
      // 10 sigma of a fair coin
      std::size_t bits = B == 8 ? 61 : 127;
      for (std::size_t i = 0; i < bits && n > 1000; i++) {
        double dev = (double)ones[i] - (double)n / 2;
        if (dev * dev > 100.0 * (double)n / 4)
          fail(what, mon::cat("bit ", i, " is set in ", ones[i], " of ", n, " pieces"));
      }
      mon::eval();
    }
  };

  // What a sequence of requests made of the generator: every piece but one per
  // sharing is the element at a place of the output stream that no other piece
  // comes from.
  struct Stream {
    std::vector<unsigned char> bytes;
    std::unordered_map<std::string, std::size_t> at;
    std::set<std::size_t> used;
    Stream(PRG prg, std::size_t words) : bytes(words * B) {
      prg.Next(bytes);
      for (std::size_t o = 0; o < bytes.size(); o += B) at[key(F::FromBytes(bytes.data() + o))] = o;
    }
    static std::string key(const F& f) {
      char b[B];
      f.ToBytes((unsigned char*)b);
      return std::string(b, B);
    }
    // -1 not in the stream, 1 fresh, 0 used before
    int take(const F& f) {
      auto i = at.find(key(f));
      if (i == at.end()) return -1;
      return used.insert(i->second).second ? 1 : 0;
    }
  };

  // `sharings` made one after another from a generator like `prg`.
  static void freshness(const std::vector<std::vector<F>>& sharings, const PRG& prg, Bits& bits,
                        const std::string& id, const char* kind) {
    std::size_t total = 0;
    for (auto& s : sharings) total += s.size() + 2;
    // a request uses up whole blocks, so twice as many words are enough even if
    // every piece is asked for separately
    Stream st(prg, total * (16 / B) + 64);
    std::set<std::string> seen;
    for (std::size_t i = 0; i < sharings.size(); i++) {
      std::size_t other = 0;
      for (std::size_t j = 0; j < sharings[i].size(); j++) {
        const F& f = sharings[i][j];
        int k = st.take(f);
        if (k == 0) fail("reused-output", mon::cat(kind, " ", id, " sharing ", i, " piece ", j));
        if (k == -1)
          other++;
        else
          bits.add(f);
        if (sharings[i].size() > 1 && !seen.insert(Stream::key(f)).second)
          fail("repeated-piece", mon::cat(kind, " ", id, " sharing ", i, " piece ", j));
        mon::eval();
      }
      if (other > 1)
        fail("not-generator-output", mon::cat(kind, " ", id, " sharing ", i, ": ", other, " pieces"));
    }
    mon::distinct(mon::hash_str(mon::cat(kind, id, mon::hash_bytes(st.bytes.data(), 16))));
  }

  static bool pieces_of(const shr::Layout<F>& lay, const std::vector<S>& s, std::vector<F>& out,
                        const std::string& id) {
    std::string why;
    if (lay.check(s, &out, &why)) return true;
    fail("not-a-sharing", mon::cat(id, ": ", why));
    return false;
  }

  static void privacy(mon::Rng& g, const R& r, const shr::Layout<F>& lay, std::size_t k, Bits& bits) {
    PRG prg0 = seeded(g);
    const std::string id = nt(lay.n, lay.t);
    // one by one, as a list, or in lists, single and plain sharings in turn
    const int how = (int)g.below(3);
    std::vector<std::pair<int, std::size_t>> plan;
    for (std::size_t left = k; left;) {
      std::size_t c = how == 2 ? std::min<std::size_t>(left, 1 + g.below(g.chance(1, 4) ? left : 4)) : left;
      plan.push_back({how == 2 ? (int)g.below(3) : how, c});
      left -= c;
    }
    std::vector<F> secrets;
    for (std::size_t i = 0; i < k; i++)
      secrets.push_back(i && g.chance(1, 3) ? secrets[g.below(i)] : any(g));
    auto run = [&](const std::vector<F>& sec, std::vector<std::vector<F>>& out) {
      PRG q = prg0;
      std::size_t at = 0;
      for (auto [kind, c] : plan) {
        std::vector<F> part(sec.begin() + (long)at, sec.begin() + (long)(at + c));
        at += c;
        if (kind == 1) {
          auto all = r.Share(part, q);
          for (std::size_t i = 0; i < part.size(); i++) {
            std::vector<S> col;
            for (auto& x : all) {
              if (x.size() != part.size()) {
                fail("not-a-sharing", id);
                return false;
              }
              col.push_back(x[i]);
            }
            out.emplace_back();
            if (!pieces_of(lay, col, out.back(), id)) return false;
          }
        } else if (kind == 2) {
          for (auto& s : part) out.push_back(ss::ShareAdditive(s, r.AdditiveShareSize(), q));
        } else {
          for (auto& s : part) {
            out.emplace_back();
            if (!pieces_of(lay, r.Share(s, q), out.back(), id)) return false;
          }
        }
      }
      return true;
    };
    std::vector<std::vector<F>> a, b;
    if (!run(secrets, a)) return;
    freshness(a, prg0, bits, id, how == 1 ? "list" : how ? "mixed" : "single");
    // the same randomness with other secrets: only the closing piece moves
    std::vector<F> others;
    for (std::size_t i = 0; i < k; i++) {
      F o = any(g);
      others.push_back(o);
    }
    if (!run(others, b)) return;
    std::vector<int> closing;
    for (std::size_t i = 0; i < k; i++) {
      int moved = 0;
      F diff(0);
      for (std::size_t j = 0; j < a[i].size(); j++)
        if (a[i][j] != b[i][j]) {
          moved++;
          diff = b[i][j] - a[i][j];
        }
      mon::eval();
      bool same = secrets[i] == others[i];
      if (moved != (same ? 0 : 1) || (!same && diff != others[i] - secrets[i]))
        fail("secret-dependent", mon::cat(id, " secrets ", txt(secrets[i]), " and ", txt(others[i]),
                                          ": ", moved, " pieces differ"));
    }
  }

  static void additive_privacy(mon::Rng& g, Bits& bits) {
    for (std::size_t r = 0; r < mon::rounds(60, 1000); r++) {
      std::size_t n = mon::near_constant(g, 1, 2000, 1 + (r < 20 ? r : g.below(300)));
      PRG prg0 = seeded(g), prg = prg0, prg2 = prg0;
      std::vector<std::vector<F>> all;
      for (std::size_t i = 0; i < 4; i++) {
        F s = any(g), o = any(g);
        all.push_back(ss::ShareAdditive(s, n, prg));
        auto other = ss::ShareAdditive(o, n, prg2);
        std::size_t moved = 0;
        if (all.back().size() != n || other.size() != n) {
          fail("additive-size", mon::cat("n=", n));
          return;
        }
        for (std::size_t j = 0; j < n; j++) moved += all.back()[j] != other[j];
        if (moved != (s != o)) fail("additive-secret-dependent", mon::cat("n=", n));
      }
      freshness(all, prg0, bits, mon::cat("n=", n), "additive");
    }
  }

  // --- C07 -----------------------------------------------------------------

  // shares (possibly inconsistent) against the model
  static void judge(const R& r, const shr::Layout<F>& lay, const std::vector<S>& shares,
                    const std::string& id) {
    std::vector<F> pieces;
    std::string why, what;
    bool consistent = lay.check(shares, &pieces, &why);
    F got(0);
    bool rejected = mon::throws([&] { got = r.ErrorDetection(shares); }, &what);
    mon::eval();
    mon::distinct(mon::hash_str(id));
    mon::count(consistent ? "consistent" : "inconsistent");
    if (consistent && rejected) fail("rejects-consistent", mon::cat(id, ": ", what));
    if (!consistent && !rejected) fail("accepts-inconsistent", mon::cat(id, ": ", why));
    if (consistent && !rejected && got != shr::sum(pieces)) fail("wrong-value", id);
  }

  static F delta(mon::Rng& g) {
    switch (g.below(8)) {
      case 7: {
        F f((V)(mon::constant(g) % p()));
        return f == F(0) ? F(3) : f;
      }
      case 0:
        return F(1);
      case 1:
        return F((V)(p() - 1));
      case 2:
        return F((V)((u128)1 << (g.below(8 * B - (B == 8 ? 3 : 1)))));
      case 3:  // multiples of 2^32: equal when truncated
        return F((V)(((u128)(1 + g.below(1 << 20)) << 32) % p()));
      case 4:
        return F((V)((((u128)1 << (B == 8 ? 56 : 64)) * (1 + g.below(15))) % p()));
      default: {
        F f = any(g);
        return f == F(0) ? F(2) : f;
      }
    }
  }

  static void exhaustive(mon::Rng& g, const R& r, const shr::Layout<F>& lay) {
    PRG prg = seeded(g);
    auto honest = r.Share(any(g), prg);
    judge(r, lay, honest, mon::cat(nt(lay.n, lay.t), " honest ", g.s));
    for (std::size_t q = 0; q < lay.n; q++)
      for (std::size_t j = 0; j < lay.size; j++) {
        auto s = honest;
        F d = delta(g);
        s[q][j] = s[q][j] + d;
        judge(r, lay, s, mon::cat(nt(lay.n, lay.t), " one copy: party ", q, " position ", j, " by ", txt(d)));
      }
    // every pair of copies of every piece
    for (std::size_t i = 0; i < lay.pieces && lay.pieces <= 130; i++) {
      std::vector<std::pair<std::size_t, std::size_t>> at;
      for (std::size_t q = 0; q < lay.n; q++)
        for (std::size_t j = 0; j < lay.size; j++)
          if (lay.idx[q][j] == (int)i) at.push_back({q, j});
      for (std::size_t x = 0; x < at.size(); x++)
        for (std::size_t y = x + 1; y < at.size(); y++) {
          auto s = honest;
          F d = delta(g);
          s[at[x].first][at[x].second] = s[at[x].first][at[x].second] + d;
          s[at[y].first][at[y].second] =
              g.below(2) ? s[at[y].first][at[y].second] + d : s[at[y].first][at[y].second] - d;
          judge(r, lay, s, mon::cat(nt(lay.n, lay.t), " two copies of piece ", i, ": ", x, " ", y, " by ", txt(d)));
        }
      if (at.size() > 1) {  // all but one, and all
        auto s = honest;
        F d = delta(g);
        std::size_t spare = g.below(at.size());
        for (std::size_t x = 0; x < at.size(); x++)
          if (x != spare) s[at[x].first][at[x].second] = s[at[x].first][at[x].second] + d;
        judge(r, lay, s, mon::cat(nt(lay.n, lay.t), " all copies of ", i, " but ", spare));
        s[at[spare].first][at[spare].second] = s[at[spare].first][at[spare].second] + d;
        judge(r, lay, s, mon::cat(nt(lay.n, lay.t), " all copies of ", i));
      }
    }
  }

  static void tamper(mon::Rng& g, const R& r, const shr::Layout<F>& lay) {
    PRG prg = seeded(g);
    F secret = any(g);
    auto s = r.Share(secret, prg);
    std::string how;
    switch (g.below(8)) {
      case 0:  // a coalition changes anything
      {
        std::size_t c = 1 + g.below(lay.t + 1);
        std::vector<std::size_t> who;
        for (std::size_t q = 0; q < lay.n; q++) who.push_back(q);
        g.shuffle(who);
        for (std::size_t k = 0; k < c && k < lay.n; k++)
          for (auto& x : s[who[k]])
            if (g.below(2)) x = any(g);
        how = mon::cat("coalition of ", c);
        break;
      }
      case 1:  // one party, changes that cancel in the sum
      {
        std::size_t q = g.below(lay.n);
        F d = delta(g);
        std::size_t i = g.below(lay.size), j = g.below(lay.size);
        s[q][i] = s[q][i] + d;
        s[q][j] = s[q][j] - d;
        how = mon::cat("cancelling at party ", q, " ", i, " ", j, " by ", txt(d));
        break;
      }
      case 2:  // two shares swapped
      {
        std::size_t a = g.below(lay.n), b = g.below(lay.n);
        std::swap(s[a], s[b]);
        how = mon::cat("shares ", a, " and ", b, " swapped");
        break;
      }
      case 3:  // two positions swapped
      {
        std::size_t q = g.below(lay.n), i = g.below(lay.size), j = g.below(lay.size);
        std::swap(s[q][i], s[q][j]);
        how = mon::cat("positions ", i, " and ", j, " of ", q, " swapped");
        break;
      }
      case 4:  // everybody changes the same pieces alike
      {
        F d = delta(g);
        std::size_t i = g.below(lay.pieces);
        for (std::size_t q = 0; q < lay.n; q++)
          for (std::size_t j = 0; j < lay.size; j++)
            if (lay.idx[q][j] == (int)i) s[q][j] = s[q][j] + d;
        how = mon::cat("piece ", i, " changed by all by ", txt(d));
        break;
      }
      case 5:  // cancelling over the copies of one piece
      {
        F d = delta(g), total(0);
        std::size_t i = g.below(lay.pieces);
        std::vector<std::pair<std::size_t, std::size_t>> at;
        for (std::size_t q = 0; q < lay.n; q++)
          for (std::size_t j = 0; j < lay.size; j++)
            if (lay.idx[q][j] == (int)i) at.push_back({q, j});
        for (std::size_t k = 0; k < at.size(); k++) {
          F x = k + 1 < at.size() ? d * F((V)(1 + g.below(3))) : -total;
          total = total + x;
          s[at[k].first][at[k].second] = s[at[k].first][at[k].second] + x;
        }
        how = mon::cat("cancelling over the copies of ", i);
        break;
      }
      case 6:  // a sharing of something else, from some parties
      {
        auto o = r.Share(g.below(2) ? secret : any(g), prg);
        u64 m = g.u64();
        for (std::size_t q = 0; q < lay.n; q++)
          if (m >> (q % 64) & 1) s[q] = o[q];
        how = mon::cat("mixed with another sharing, mask ", m);
        break;
      }
      default:  // special values
      {
        F v = g.below(2) ? F(0) : any(g);
        for (auto& x : s)
          for (auto& y : x) y = v;
        std::size_t q = g.below(lay.n);
        if (g.below(2)) s[q][g.below(lay.size)] = delta(g);
        how = mon::cat("all copies ", txt(v), " but at party ", q);
      }
    }
    judge(r, lay, s, mon::cat(nt(lay.n, lay.t), " ", how, " ", mon::hash_str(txt(secret))));
  }


  // One process which uses many shapes, in any order: each time the structure is that of
  // the shape asked for.
  static void every_shape(mon::Rng& g) {
    std::vector<std::pair<std::size_t, std::size_t>> shapes;
    std::size_t top = mon::args().thorough ? 90 : 44;
    u64 most = mon::args().thorough ? 1200 : 200;
    for (std::size_t n = 2; n <= top; n++)
      for (std::size_t t = 1; t < n; t++) {
        // n choose the smaller of t and n - t, given up as soon as it is too much
        u64 b = 1;
        for (std::size_t k = 1; k <= std::min(t, n - t) && b <= most; k++) b = b * (n - k + 1) / k;
        if (b <= most) shapes.push_back({n, t});
      }
    for (std::size_t i = shapes.size(); i > 1; i--) std::swap(shapes[i - 1], shapes[g.below(i)]);
    std::vector<R> kept;
    for (auto [n, t] : shapes) {
      mon::where() = mon::cat("every shape ", nt(n, t));
      kept.emplace_back(n, t);
      if (kept.size() < 12) continue;
      for (auto& r : kept) structure(r, r.Size(), r.Threshold());
      kept.clear();
    }
    for (auto& r : kept) structure(r, r.Size(), r.Threshold());
    mon::count("shapes_in_one_process", shapes.size());
  }

  // --- work ------------------------------------------------------------------

  static void run(mon::Rng& g) {
    const auto& a = mon::args();
    std::vector<std::pair<std::size_t, std::size_t>> shapes;
    std::size_t top = a.flavor == "vg" ? 7 : a.prop == "C05" ? 16 : a.prop == "C06" ? 14 : 12;
    for (std::size_t n = 2; n <= top; n++)
      for (std::size_t t = 1; t < n; t++) shapes.push_back({n, t});
    if (a.prop == "C05" && a.flavor != "vg")
      for (auto x : {std::pair<int, int>{20, 1}, {20, 2}, {20, 19}, {20, 18}, {24, 3}, {33, 1}, {40, 2},
                     {64, 1}, {64, 63}, {100, 1}, {100, 99}, {40, 38}, {17, 4}, {18, 5}})
        shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    if ((a.prop == "C06" || a.prop == "C07") && a.flavor != "vg")
      for (auto x : {std::pair<int, int>{13, 4}, {16, 2}, {16, 3}, {16, 5}, {18, 1}, {20, 2}, {20, 18}, {33, 1}, {40, 39}})
        shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    Bits bits;
    std::size_t i = 0;
    for (auto [n, t] : shapes) {
      if ((int)(i++ % (std::size_t)a.shards) != a.shard) continue;
      std::size_t A = ss::Binom(n, t);
      mon::where() = nt(n, t);
      R r(n, t);
      shr::Layout<F> lay(r);
      std::size_t work = n * r.ShareSize();
      auto times = [&](double q, double th) {
        double k = (double)mon::rounds(q, th) / (double)(work + 20);
        return k < 1 ? (std::size_t)1 : k > 4000 ? (std::size_t)4000 : (std::size_t)k;
      };
      if (a.prop == "C05") {
        structure(r, n, t);
        std::size_t k = times(100000, 3000000);
        for (std::size_t x = 0; x < k; x++) {
          F s = x == 0 ? F(0) : any(g);
          share_once(g, r, lay, seeded(g), s);
        }
        for (std::size_t x = 0; x < k / 8 + 1; x++) list(g, r, seeded(g), A > 2000 ? g.below(3) : mon::near_constant(g, 1, 60000 / work + 9, A < 40 && g.chance(1, 6) ? 100 + g.below(2000) : g.below(9), 1, 8));
      }
      if (a.prop == "C06") {
        coalitions(r, n, t);
        std::size_t k = times(400000, 6000000);
        for (std::size_t x = 0; x < k / 8 + 1; x++)
          privacy(g, r, lay, A > 1000 ? 1 + g.below(2) : mon::near_constant(g, 1, 30000 / work + 9, A < 20 && g.chance(1, 8) ? 100 + g.below(900) : 1 + g.below(10), 1, 8), bits);
      }
      if (a.prop == "C07") {
        if (n <= (mon::args().thorough ? 10u : a.flavor == "vg" ? 5u : 8u)) exhaustive(g, r, lay);
        std::size_t k = times(1500000, 20000000);
        for (std::size_t x = 0; x < k; x++) tamper(g, r, lay);
      }
    }
    if (a.flavor == "o2" && a.scale >= 1 && a.shard < 3) {  // long lists
      R r(3 + (std::size_t)a.shard, 1);
      shr::Layout<F> lay(r);
      std::size_t k = a.shard == 0 ? 66000 + g.below(1000) : 130000 + g.below(10000);
      mon::where() = mon::cat("long list of ", k);
      if (a.prop == "C05") list(g, r, seeded(g), k);
      if (a.prop == "C06") privacy(g, r, lay, k, bits);
      mon::count("long_lists");
    }
    if (a.prop == "C05" && a.flavor != "vg") every_shape(g);
    if (a.prop == "C05" && a.shard == 0) rejects();
    if (a.prop == "C05" && a.shard == a.shards - 1) additive(g);
    if (a.prop == "C06") {
      additive_privacy(g, bits);
      mon::count("pieces_in_bit_statistics", bits.n);
      bits.judge("bias");
    }
  }
};

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    mon::watchdog(120);
    ref::self_check();
    mon::Rng g(mon::base_seed());
    if (mon::args().prop == "C05" && mon::args().shard == 0) combinatorics(g);
    Rep<math::Mp61>::run(g);
    Rep<math::Mp127>::run(g);
    mon::sample(mon::cat("last shape ", mon::where()));
  });
}
