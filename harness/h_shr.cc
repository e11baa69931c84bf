// C08, C09, C10, C11: local operations on shares, the reconstruction plan,
// correlated randomness. All parties of a network live in this process.
#include "frn/corr.h"
#include "frn/input_corr.h"
#include "frn/shr.h"
#include "mon.h"
#include "ref.h"
#include "sharing.h"

using frn::Field;
using frn::Shr;
using frn::ShrManipulator;
using frn::lib::primitives::PRG;
using ref::u128;
using ref::u64;
using R = frn::lib::secret_sharing::Replicator<Field>;
using L = shr::Layout<Field>;

static void fail(const char* what, const std::string& d) {
  mon::violation(mon::cat(mon::args().prop, ".", what), d);
}

static u64 raw(mon::Rng& g) {
  return (u64)((g.below(2) ? ref::shaped(g, 64, ref::P61) : ref::rand_bits(g)) % ref::P61);
}
static u64 val(const Field& f) {
  unsigned char b[8];
  f.ToBytes(b);
  u64 v = 0;
  for (int i = 0; i < 8; i++) v |= (u64)b[i] << (8 * i);
  return v;
}

struct Setup {
  std::size_t n, d;
  std::vector<ShrManipulator> man;  // one per party
  R rep, dbl;
  L lay, lay2;
  Setup(std::size_t n_, std::size_t d_)
      : n(n_), d(d_), rep(n_, d_), dbl(n_, 2 * d_), lay(rep), lay2(dbl) {
    if (n * lay.size * lay.size < 200000) {
      for (std::size_t p = 0; p < n; p++) man.emplace_back(p, d, n);
      return;
    }
    std::vector<std::unique_ptr<ShrManipulator>> made(n);
    std::atomic<std::size_t> next{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++)
      ts.emplace_back([&] {
        for (std::size_t p; (p = next++) < n;) {
          made[p] = std::make_unique<ShrManipulator>(p, d, n);
          mon::eval(0);
        }
      });
    for (auto& t : ts) t.join();
    for (auto& m : made) man.push_back(std::move(*m));
  }
  std::string id() const { return mon::cat("n=", n, " d=", d); }
  // a sharing with these pieces
  std::vector<Shr> with(const std::vector<Field>& pieces) const {
    std::vector<Shr> s(n);
    for (std::size_t p = 0; p < n; p++)
      for (int i : lay.idx[p]) s[p].push_back(pieces[i]);
    return s;
  }
  // a sharing of v: made by the library, or with pieces of any shape
  std::vector<Shr> share(mon::Rng& g, u64 v) const {
    if (g.below(2)) {
      unsigned char seed[16];
      for (auto& b : seed) b = (unsigned char)g.u64();
      PRG prg(seed);
      return rep.Share(Field(v), prg);
    }
    std::vector<Field> pieces(lay.pieces);
    u64 total = 0;
    std::size_t close = g.below(lay.pieces);
    int style = (int)g.below(3);
    for (std::size_t i = 0; i < lay.pieces; i++) {
      if (i == close) continue;
      u64 x = style == 0 ? 0 : style == 1 ? ref::P61 - 1 - g.below(3) : raw(g);
      pieces[i] = Field(x);
      total = (total + x) % ref::P61;
    }
    pieces[close] = Field((v + ref::P61 - total) % ref::P61);
    return with(pieces);
  }
};

// --- C08 -----------------------------------------------------------------------

static void programs(mon::Rng& g, Setup& s, std::size_t steps) {
  struct Var {
    std::vector<Shr> sh;
    u64 v;
  };
  std::vector<Var> pool;
  for (int i = 0; i < 4; i++) {
    u64 v = i == 0 ? 0 : raw(g);
    pool.push_back({s.share(g, v), v});
  }
  std::string trace;
  auto P = (u128)ref::P61;
  for (std::size_t k = 0; k < steps; k++) {
    std::size_t i = g.below(pool.size()), j = g.chance(1, 6) ? i : g.below(pool.size());
    u64 c = g.chance(1, 8) ? 0 : raw(g);
    int op = (int)g.below(9);
    const Var &a = pool[i], &b = pool[j];
    u128 x = a.v, y = b.v, z = c, want = 0;
    Var r;
    r.sh.resize(s.n);
    auto before_a = a.sh, before_b = b.sh;
    for (std::size_t p = 0; p < s.n; p++) {
      auto& m = s.man[p];
      const Shr &u = a.sh[p], &w = b.sh[p];
      const Field fc(c);
      switch (op) {
        case 0: r.sh[p] = m.Add(u, w); want = x + y; break;
        case 1: r.sh[p] = m.Subtract(u, w); want = x + P - y; break;
        case 2: r.sh[p] = m.AddConstant(u, fc); want = x + z; break;
        case 3: r.sh[p] = m.AddConstant(fc, u); want = x + z; break;
        case 4: r.sh[p] = m.SubtractConstant(u, fc); want = x + P - z; break;
        case 5: r.sh[p] = m.SubtractConstant(fc, u); want = z + P - x; break;
        case 6: r.sh[p] = m.MultiplyConstant(u, fc); want = x * z; break;
        case 7: r.sh[p] = m.MultiplyConstant(fc, u); want = x * z; break;
        default: {  // result into an operand
          Shr t = u;
          t = m.Add(t, t);
          t = m.Subtract(t, w);
          r.sh[p] = t;
          want = 2 * x + P - y;
        }
      }
      if (val(fc) != c) fail("constant-changed", s.id());
    }
    r.v = (u64)(want % P);
    trace = mon::cat(s.id(), " op ", op, " on ", a.v, " ", b.v, " constant ", c, i == j ? " (same)" : "",
                     " step ", k);
    mon::eval();
    mon::distinct(mon::hash_str(trace));
    std::vector<Field> pieces;
    std::string why;
    if (!s.lay.check(r.sh, &pieces, &why)) {
      fail("inconsistent", trace + ": " + why);
      return;
    }
    if (val(shr::sum(pieces)) != r.v) {
      fail("value", mon::cat(trace, " -> ", val(shr::sum(pieces)), " instead of ", r.v));
      return;
    }
    if (a.sh != before_a || b.sh != before_b) fail("operand-changed", trace);
    if (s.rep.Reconstruct(r.sh) != Field(r.v)) fail("value", trace);
    if (pool.size() < 12)
      pool.push_back(r);
    else
      pool[g.below(pool.size())] = r;
  }
  mon::count("steps", steps);
  mon::sample(trace);
}

// --- C09 -----------------------------------------------------------------------

static void tables(Setup& s) {
  const std::string id = s.id();
  const std::size_t N = s.lay.pieces, S = s.lay.size;
  // global cross product -> (global piece, who accounts), agreed by all
  std::vector<std::pair<int, int>> goes(N * N, {-1, -1});
  std::vector<unsigned> counted(N * N, 0);
  std::vector<std::vector<int>> at(s.n, std::vector<int>(S * S, -1));  // by local positions
  for (std::size_t p = 0; p < s.n; p++) {
    auto t = s.man[p].GetTableMult();
    for (auto& e : t) {
      if (e.src_a >= S || e.src_b >= S || e.dest_c >= s.lay2.size || e.first_party >= s.n) {
        fail("table-range", mon::cat(id, " party ", p));
        return;
      }
      int a = s.lay.idx[p][e.src_a], b = s.lay.idx[p][e.src_b], c = s.lay2.idx[p][e.dest_c];
      auto& mine = at[p][e.src_a * S + e.src_b];
      if (mine != -1) fail("counted-twice", mon::cat(id, " party ", p, " pieces ", a, " ", b));
      mine = c;
      auto& all = goes[(std::size_t)a * N + (std::size_t)b];
      std::pair<int, int> now{c, (int)e.first_party};
      if (all.first == -1) all = now;
      if (all != now) fail("disagreement", mon::cat(id, " party ", p, " pieces ", a, " ", b));
      if (e.first_party == p) counted[(std::size_t)a * N + (std::size_t)b]++;
    }
    mon::eval(t.size());
  }
  std::vector<std::vector<char>> holds(s.n, std::vector<char>(s.lay2.pieces, 0));
  std::vector<std::vector<int>> pos(s.n, std::vector<int>(N, -1));
  for (std::size_t p = 0; p < s.n; p++) {
    for (int i : s.lay2.idx[p]) holds[p][(std::size_t)i] = 1;
    for (std::size_t j = 0; j < S; j++) pos[p][(std::size_t)s.lay.idx[p][j]] = (int)j;
  }
  for (std::size_t a = 0; a < N; a++) {
    for (std::size_t b = 0; b < N; b++) {
      auto [c, who] = goes[a * N + b];
      if (c == -1) {
        fail("product-missing", mon::cat(id, " pieces ", a, " ", b));
        return;
      }
      if (counted[a * N + b] != 1)
        fail("accounted", mon::cat(id, " pieces ", a, " ", b, " by ", counted[a * N + b]));
      if (who >= (int)(2 * s.d + 1)) fail("accountant", mon::cat(id, " pieces ", a, " ", b, " by ", who));
      for (std::size_t p = 0; p < s.n; p++) {
        int x = pos[p][a], y = pos[p][b];
        bool has = x >= 0 && y >= 0 && at[p][(std::size_t)x * S + (std::size_t)y] != -1;
        if ((holds[p][(std::size_t)c] != 0) != has)
          fail("holders", mon::cat(id, " pieces ", a, " ", b, " party ", p));
      }
    }
    mon::eval(N);
  }
  // the index computed by itself agrees with the table
  for (std::size_t p = 0; p < s.n; p++) {
    std::size_t step = S > 200 ? S * S / 20000 : S > 60 ? 7 : 1;
    for (std::size_t a = 0; a < S; a += step)
      for (std::size_t b = 0; b < S; b++) {
        int i = s.man[p].ComputeIndexForDoubleMultiplication(a, b);
        int got = i < 0 || (std::size_t)i >= s.lay2.size ? -1 : s.lay2.idx[p][(std::size_t)i];
        mon::eval();
        if (got != at[p][a * S + b]) fail("index", mon::cat(id, " party ", p, " positions ", a, " ", b));
      }
  }
  mon::count("tables");
}

static void product(mon::Rng& g, Setup& s, const std::vector<Shr>& x, const std::vector<Shr>& y, u64 vx,
                    u64 vy, const std::string& how, bool onehot) {
  const std::string id = mon::cat(s.id(), " ", how, " ", vx, " * ", vy);
  u64 want = (u64)((u128)vx * vy % ref::P61);
  std::vector<Shr> c(s.n);
  std::vector<Field> add(s.n);
  for (std::size_t p = 0; p < s.n; p++) {
    Shr a = x[p], b = y[p];
    if (g.below(2)) {
      add[p] = s.man[p].MultiplyToAdditive(a, b);
      c[p] = s.man[p].MultiplyToDoubleDegree(a, b);
    } else {
      c[p] = s.man[p].MultiplyToDoubleDegree(a, b);
      add[p] = s.man[p].MultiplyToAdditive(a, b);
    }
    if (a != x[p] || b != y[p]) fail("operand-changed", id);
  }
  mon::eval();
  mon::distinct(mon::hash_str(id));
  std::vector<Field> pieces;
  std::string why;
  if (!s.lay2.check(c, &pieces, &why)) {
    fail("inconsistent", id + ": " + why);
    return;
  }
  if (val(shr::sum(pieces)) != want) fail("double-degree-value", mon::cat(id, " -> ", val(shr::sum(pieces))));
  Field total(0);
  std::size_t nonzero = 0;
  for (std::size_t p = 0; p < s.n; p++) {
    if (p < 2 * s.d + 1)
      total = total + add[p];
    else if (add[p] != Field(0))
      fail("additive-outside", mon::cat(id, " party ", p));
    nonzero += add[p] != Field(0);
  }
  if (val(total) != want) fail("additive-value", mon::cat(id, " -> ", val(total)));
  if (onehot) {
    std::size_t k = 0;
    for (auto& f : pieces) k += f != Field(0);
    if (k != 1 || nonzero != 1) fail("cross-product", mon::cat(id, ": ", k, " pieces, ", nonzero, " parties"));
  }
  mon::sample(id);
}

static void products(mon::Rng& g, Setup& s, std::size_t k) {
  for (std::size_t i = 0; i < k; i++) {
    u64 x = raw(g), y = g.chance(1, 8) ? x : raw(g);
    auto sx = s.share(g, x);
    auto sy = x == y && g.below(2) ? sx : s.share(g, y);
    product(g, s, sx, sy, x, y, "random", false);
  }
  // one piece against one piece
  for (std::size_t i = 0; i < k; i++) {
    std::vector<Field> px(s.lay.pieces, Field(0)), py(s.lay.pieces, Field(0));
    u64 x = 1 + raw(g) % (ref::P61 - 1), y = 1 + raw(g) % (ref::P61 - 1);
    std::size_t a = g.below(s.lay.pieces), b = g.below(s.lay.pieces);
    px[a] = Field(x);
    py[b] = Field(y);
    product(g, s, s.with(px), s.with(py), x, y, mon::cat("piece ", a, " times piece ", b), true);
  }
}

// --- C10 -----------------------------------------------------------------------

static void plan(mon::Rng& g, Setup& s, std::size_t k) {
  const std::string id = s.id();
  std::vector<std::vector<frn::RecEntry>> rec;
  for (std::size_t p = 0; p < s.n; p++) {
    rec.push_back(s.man[p].GetTableRec());
    if (rec.back().size() != s.lay2.size) {
      fail("plan-size", mon::cat(id, " party ", p, ": ", rec.back().size()));
      return;
    }
  }
  std::vector<std::vector<char>> holds(s.n, std::vector<char>(s.lay2.pieces, 0));
  for (std::size_t p = 0; p < s.n; p++)
    for (int i : s.lay2.idx[p]) holds[p][i] = 1;
  std::vector<std::size_t> holders(s.lay2.pieces, 0);
  for (auto& h : holds)
    for (std::size_t i = 0; i < h.size(); i++) holders[i] += h[i];
  // what reaches whom
  std::map<std::pair<std::size_t, int>, std::pair<int, int>> got;  // (party, piece) -> values, digests
  for (std::size_t p = 0; p < s.n; p++)
    for (std::size_t j = 0; j < s.lay2.size; j++) {
      int i = s.lay2.idx[p][j];
      std::set<unsigned> to;
      mon::eval();
      for (unsigned q : rec[p][j].party_set) {
        if (q >= s.n || holds[q][i]) fail("sent-to-holder", mon::cat(id, " piece ", i, " from ", p, " to ", q));
        if (!to.insert(q).second) fail("sent-twice", mon::cat(id, " piece ", i, " from ", p, " to ", q));
        auto& w = got[{q, i}];
        (rec[p][j].value_or_hash == frn::VALUE ? w.first : w.second)++;
      }
      mon::distinct(mon::hash_str(mon::cat(id, p, " ", j)));
    }
  for (std::size_t q = 0; q < s.n; q++)
    for (int i = 0; i < (int)s.lay2.pieces; i++) {
      if (holds[q][i]) continue;
      auto w = got[{q, i}];
      mon::eval();
      if (w.first != 1) fail("values", mon::cat(id, " party ", q, " piece ", i, ": ", w.first));
      if (w.second != (int)holders[i] - 1)
        fail("digests", mon::cat(id, " party ", q, " piece ", i, ": ", w.second, " of ", holders[i] - 1));
    }
  mon::count("plans");
  // follow it
  for (std::size_t r = 0; r < k; r++) {
    unsigned char seed[16];
    for (auto& b : seed) b = (unsigned char)g.u64();
    PRG prg(seed);
    u64 v = raw(g);
    auto sh = s.dbl.Share(Field(v), prg);
    for (std::size_t q = 0; q < s.n; q++) {
      std::vector<Field> pieces(s.lay2.pieces, Field(0));
      std::vector<char> have(s.lay2.pieces, 0);
      for (std::size_t j = 0; j < s.lay2.size; j++) {
        pieces[s.lay2.idx[q][j]] = sh[q][j];
        have[s.lay2.idx[q][j]] = 1;
      }
      for (std::size_t p = 0; p < s.n; p++)
        for (std::size_t j = 0; j < s.lay2.size; j++)
          if (rec[p][j].value_or_hash == frn::VALUE)
            for (unsigned x : rec[p][j].party_set)
              if (x == q) {
                pieces[s.lay2.idx[p][j]] = sh[p][j];
                have[s.lay2.idx[p][j]] = 1;
              }
      mon::eval();
      bool all = true;
      for (char h : have) all = all && h;
      if (!all || val(shr::sum(pieces)) != v) fail("reconstruction", mon::cat(id, " party ", q));
    }
  }
}

// --- C11 -----------------------------------------------------------------------

struct Stream {
  std::vector<unsigned char> bytes;
  std::unordered_map<u64, std::size_t> at;
  std::set<std::size_t> used;
  void grow(PRG prg, std::size_t blocks) {
    bytes.resize(blocks * 16);
    prg.Next(bytes);
    for (std::size_t o = 0; o < bytes.size(); o += 8) at[val(Field::FromBytes(bytes.data() + o))] = o;
  }
  int take(const Field& f) {
    auto i = at.find(val(f));
    if (i == at.end()) return -1;
    return used.insert(i->second).second ? 1 : 0;
  }
};

static void correlated(mon::Rng& g, const R& rep, const L& lay, std::size_t rounds, bool keyed) {
  std::size_t n = lay.n, d = lay.t, u = 2 * d + 1;
  const std::string id = mon::cat("n=", n, " d=", d, keyed ? "" : " default generators");
  std::vector<std::unique_ptr<frn::Correlator>> co;
  for (std::size_t p = 0; p < n; p++) co.push_back(std::make_unique<frn::Correlator>((unsigned)p, rep));
  std::vector<std::vector<Stream>> st;  // [party in U][piece]
  std::set<u64> seen_r, seen_add;

  auto seed = [&] {
    st.assign(u, std::vector<Stream>(lay.pieces));
    std::vector<std::size_t> order;
    for (std::size_t j = 0; j < u; j++) order.push_back(j);
    g.shuffle(order);
    for (std::size_t j : order) {
      std::vector<Field> pieces;
      for (std::size_t i = 0; i < lay.pieces; i++) pieces.push_back(Field(raw(g)));
      std::vector<PRG> own;
      for (std::size_t i = 0; i < lay.pieces; i++) {
        own.push_back(frn::FieldElementToPrg(pieces[i]));
        st[j][i].grow(own.back(), rounds * 2 + 16);
      }
      co[j]->SetOwnPRGs(own);
      for (std::size_t p = 0; p < n; p++) {
        std::vector<PRG> prgs;
        for (int i : lay.idx[p]) prgs.push_back(own[i]);
        co[p]->SetRandPRGs(prgs, (unsigned)j);
      }
    }
  };
  if (keyed) seed();
  for (std::size_t k = 0; k < rounds; k++) {
    if (keyed && rounds > 20 && k == rounds / 2 && g.below(2)) seed();  // new keys half way
    if (g.chance(1, 20))  // copies go on from here
      for (auto& c : co) c = std::make_unique<frn::Correlator>(*c);
    bool dummy = g.chance(1, 6);
    std::vector<frn::RandomShare> r;
    std::vector<std::size_t> order;
    for (std::size_t p = 0; p < n; p++) order.push_back(p);
    g.shuffle(order);
    r.resize(n);
    for (std::size_t p : order) {
      if (dummy) {
        r[p] = co[p]->GenRandomShareDummy();
        auto z = co[p]->GenZeroShareDummy();
        bool ok = z.add_share == Field(0) && z.rep_add_shares.size() == u;
        for (auto& s : z.rep_add_shares) ok = ok && s == Shr(lay.size, Field(0));
        mon::eval();
        if (!ok) fail("zero-dummy", id);
      } else {
        r[p] = co[p]->GenRandomShare();
      }
    }
    const std::string at = mon::cat(id, " round ", k);
    mon::eval();
    mon::distinct(mon::mix(mon::hash_str(at), g.s));
    auto column = [&](auto&& f) {
      std::vector<Shr> c;
      for (auto& x : r) c.push_back(f(x));
      return c;
    };
    for (auto& x : r)
      if (x.rep_add_shares.size() != u) {
        fail("shape", at);
        return;
      }
    std::string why;
    std::vector<Field> rp;
    if (!lay.check(column([](auto& x) { return x.rep_share; }), &rp, &why)) {
      fail("random-share", at + ": " + why);
      return;
    }
    Field total(0);
    for (std::size_t p = 0; p < n; p++) {
      if (p < u)
        total = total + r[p].add_share;
      else if (r[p].add_share != Field(0))
        fail("additive-outside", mon::cat(at, " party ", p));
    }
    if (total != shr::sum(rp)) fail("additive-sum", at);
    for (std::size_t j = 0; j < u; j++) {
      std::vector<Field> ap;
      if (!lay.check(column([j](auto& x) { return x.rep_add_shares[j]; }), &ap, &why)) {
        fail("share-of-additive", mon::cat(at, " of party ", j, ": ", why));
        return;
      }
      mon::eval();
      if (shr::sum(ap) != r[j].add_share) fail("share-of-additive-value", mon::cat(at, " of party ", j));
      if (dummy) {
        for (auto& f : ap)
          if (f != Field(0)) fail("dummy", at);
      } else if (keyed) {
        for (std::size_t i = 0; i < lay.pieces; i++) {
          int t = st[j][i].take(ap[i]);
          mon::eval();
          if (t == 0) fail("reused-output", mon::cat(at, " of party ", j, " piece ", i));
          if (t == -1) fail("not-generator-output", mon::cat(at, " of party ", j, " piece ", i));
        }
      }
      if (!dummy && !seen_add.insert(val(r[j].add_share)).second && keyed)
        fail("repeated", mon::cat(at, " additive share of ", j));
    }
    if (dummy)
      for (auto& f : rp)
        if (f != Field(0)) fail("dummy", at);
    if (!dummy && !seen_r.insert(val(total)).second) fail("repeated", mon::cat(at, " value"));
  }
  mon::count("rounds", rounds);
  mon::sample(mon::cat(id, " ", rounds, " rounds"));
}

// The small shapes, for one process to use them all, in any order.
static std::vector<std::pair<std::size_t, std::size_t>> mixed(mon::Rng& g, const std::vector<std::pair<std::size_t, std::size_t>>& shapes) {
  std::vector<std::pair<std::size_t, std::size_t>> v;
  for (auto x : shapes)
    if (x.first * ref::binom((unsigned)x.first - 1, (unsigned)x.second) < 300) v.push_back(x);
  for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]);
  mon::count("shapes_in_one_process", v.size());
  return v;
}

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    mon::watchdog(150);
    auto& a = mon::args();
    mon::Rng g(mon::base_seed());
    std::vector<std::pair<std::size_t, std::size_t>> shapes;
    bool slow = a.flavor != "o2";
    for (std::size_t n = 3; n <= (slow ? 9u : 10u); n++)
      for (std::size_t d = 1; 2 * d < n; d++) shapes.push_back({n, d});
    for (auto x : {std::pair<int, int>{11, 1}, {12, 1}, {13, 1}, {14, 1}, {15, 1}, {16, 1}})
      shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    if (!slow)
      for (auto x : {std::pair<int, int>{11, 2}, {11, 3}, {12, 2}, {12, 3}, {13, 2}, {13, 3}, {13, 4}, {14, 2},
                     {14, 3}, {15, 2}, {16, 2}, {16, 3}, {17, 1}, {20, 1}, {33, 1}})
        shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    if (!slow && (a.prop == "C09" || a.prop == "C10"))
      for (auto x : {std::pair<int, int>{16, 4}, {16, 5}}) shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    if (a.thorough && !slow)
      for (auto x : {std::pair<int, int>{11, 4}, {12, 4}, {14, 4}, {18, 2}, {24, 2}, {65, 1}})
        shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
    if (a.flavor == "vg")  // 50 times slower
      shapes.erase(std::remove_if(shapes.begin(), shapes.end(), [](auto& x) { return x.first > 7; }), shapes.end());
    // the big ones first, dealt round robin
    std::sort(shapes.begin(), shapes.end(), [](auto& x, auto& y) {
      return ref::binom(x.first - 1, x.second) * x.first > ref::binom(y.first - 1, y.second) * y.first;
    });
    if (a.prop == "C11") {
      if (a.flavor != "vg")
        for (auto x : {std::pair<int, int>{16, 4}}) shapes.push_back({(std::size_t)x.first, (std::size_t)x.second});
      std::size_t i = 0;
      for (auto [n, d] : shapes) {
        if ((int)(i++ % (std::size_t)a.shards) != a.shard) continue;
        R rep(n, d);
        L lay(rep);
        std::size_t work = (2 * d + 1) * lay.size * n;
        std::size_t k = mon::rounds(600000, 6000000) / work + 8;
        if (k > 3000) k = 3000;
        for (int r = 0; r < 2; r++) correlated(g, rep, lay, k, true);
        correlated(g, rep, lay, k / 8 + 3, false);
        correlated(g, rep, lay, 3, true);
      }
      if (a.flavor == "o2" && a.scale >= 1 && a.shard == 1) {  // a long life
        R rep(4, 1);
        L lay(rep);
        correlated(g, rep, lay, a.thorough ? 3000000 : 300000, true);
      }
      for (auto [n, d] : mixed(g, shapes)) {
        R rep(n, d);
        L lay(rep);
        correlated(g, rep, lay, 12, true);
      }
      return;
    }
    std::size_t i = 0;
    for (auto [n, d] : shapes) {
      if ((int)(i++ % (std::size_t)a.shards) != a.shard) continue;
      mon::where() = mon::cat("n=", n, " d=", d);
      Setup s(n, d);
      mon::eval();
      std::size_t work = n * s.lay.size;
      if (a.prop == "C08") {
        std::size_t steps = mon::rounds(3000000, 40000000) / (work + 20) + 20;
        while (steps > 0) {
          std::size_t k = std::min<std::size_t>(steps, 5 + g.below(200));
          programs(g, s, k);
          steps -= k;
        }
      }
      if (a.prop == "C09") {
        tables(s);
        products(g, s, mon::rounds(3000000, 40000000) / (work * s.lay.size + 200) + 4);
      }
      if (a.prop == "C10") plan(g, s, mon::rounds(200000, 3000000) / (n * n * s.lay2.size + 20) + 1);
    }
    for (auto [n, d] : mixed(g, shapes)) {
      mon::where() = mon::cat("n=", n, " d=", d, " among others");
      Setup s(n, d);
      if (a.prop == "C08") programs(g, s, 20);
      if (a.prop == "C09") {
        tables(s);
        products(g, s, 3);
      }
      if (a.prop == "C10") plan(g, s, 1);
    }
  });
}
