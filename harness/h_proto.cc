// C12-C16, C29 (and C26, C27 under sanitizers): the protocols. Random programs
// of inputs, local operations, multiplications and checks are executed by all
// parties over a recording network.
#include <optional>

#include "frn.h"
#include "frn/check.h"
#include "frn/corr.h"
#include "frn/input.h"
#include "frn/input_corr.h"
#include "frn/mult.h"
#include "frn/tcp_network.h"
#include "hub.h"
#include "mon.h"
#include "ports.h"
#include "ref.h"
#include "sharing.h"

using frn::Field;
using frn::Shr;
using frn::ShrManipulator;
using frn::lib::primitives::PRG;
using ref::u128;
using ref::u64;
using R = frn::lib::secret_sharing::Replicator<Field>;
using L = shr::Layout<Field>;

static void fail(const std::string& what, const std::string& d) {
  mon::violation(mon::args().prop + "." + what, d);
}
static u64 raw(mon::Rng& g) {
  return (u64)((g.below(2) ? ref::shaped(g, 64, ref::P61) : ref::rand_bits(g)) % ref::P61);
}
static u64 val(const Field& f) {
  unsigned char b[8];
  f.ToBytes(b);
  u64 v = 0;
  for (int i = 0; i < 8; i++) v |= (u64)b[i] << (8 * i);
  return v;
}
static u64 add(u64 a, u64 b) { return (u64)(((u128)a + b) % ref::P61); }
static u64 sub(u64 a, u64 b) { return (u64)(((u128)a + ref::P61 - b) % ref::P61); }
static u64 mul(u64 a, u64 b) { return (u64)((u128)a * b % ref::P61); }

static PRG prg_of(u64 seed) {
  unsigned char s[16];
  u64 a = mon::mix(seed, 1), b = mon::mix(seed, 2);
  std::memcpy(s, &a, 8);
  std::memcpy(s + 8, &b, 8);
  return PRG(s);
}

struct Setup {
  std::size_t n, d;
  std::vector<ShrManipulator> man;
  R rep, dbl;
  L lay, lay2;
  Setup(std::size_t n_, std::size_t d_) : n(n_), d(d_), rep(n_, d_), dbl(n_, 2 * d_), lay(rep), lay2(dbl) {
    if (lay2.size < 1000) {
      for (std::size_t p = 0; p < n; p++) man.emplace_back(p, d, n);
    } else {  // their tables take a while
      std::vector<std::optional<ShrManipulator>> m(n);
      std::vector<std::thread> ts;
      for (std::size_t p = 0; p < n; p++) ts.emplace_back([&, p] { m[p].emplace(p, d, n); });
      for (auto& t : ts) t.join();
      for (auto& x : m) man.push_back(std::move(*x));
    }
  }
  std::string id() const { return mon::cat("n=", n, " d=", d); }
};

// --- programs --------------------------------------------------------------------

struct Phase {
  enum Kind { kDeal, kInput, kLocal, kMult, kCheck } kind;
  // deal
  std::vector<std::vector<Shr>> dealt;
  // input
  std::vector<std::vector<u64>> values;  // by party
  int extra_setups = 0;
  // local
  std::vector<std::array<u64, 4>> ops;
  // mult
  bool fresh = false;
  int key = 0;
  std::vector<std::pair<std::size_t, std::size_t>> pairs;
  std::size_t first_out = 0;  // number of the first value this phase adds
};

struct Program {
  u64 seed = 0;
  bool same_generators = false;
  std::vector<Phase> phases;
  std::vector<u64> model;  // value of every share in the pool
  std::size_t mults = 0, inputs = 0, checks = 0;
  std::vector<std::pair<u64, u64>> factors;  // of every multiplication
  std::string text;
};

struct Shape {
  bool input = true, mult = true, check = true;
  std::size_t max_batch = 6, max_phases = 6;
  std::size_t big_input = 0, big_mult = 0, exact = 0;
  bool default_keys = false, last_check = false;
};

// The same seed with another secret_seed gives the same program on other secrets.
static Program make(const Setup& s, const Shape& shape, u64 seed, u64 secret_seed) {
  Program pr;
  pr.seed = seed;
  mon::Rng g(seed), sec(secret_seed);
  pr.same_generators = g.chance(1, 8);
  int key = shape.default_keys ? 0 : 1;
  bool have_mult = false;
  std::size_t phases = 1 + g.below(shape.max_phases);
  auto deal = [&](std::size_t k) {
    Phase ph;
    ph.kind = Phase::kDeal;
    ph.first_out = pr.model.size();
    for (std::size_t i = 0; i < k; i++) {
      u64 v = raw(sec);
      g.u64();
      PRG p = prg_of(g.u64());
      bool lib = g.below(3) != 0;
      if (lib) {
        ph.dealt.push_back(s.rep.Share(Field(v), p));
      } else {  // pieces of any shape
        std::vector<Field> pieces(s.lay.pieces);
        u64 total = 0;
        std::size_t close = g.below(s.lay.pieces);
        int style = (int)g.below(3);
        for (std::size_t x = 0; x < s.lay.pieces; x++) {
          u64 y = style == 0 ? 0 : style == 1 ? ref::P61 - 1 - g.below(3) : g.u64() % ref::P61;
          if (x == close) continue;
          pieces[x] = Field(y);
          total = add(total, y);
        }
        pieces[close] = Field(sub(v, total));
        std::vector<Shr> sh(s.n);
        for (std::size_t q = 0; q < s.n; q++)
          for (int x : s.lay.idx[q]) sh[q].push_back(pieces[x]);
        ph.dealt.push_back(sh);
      }
      pr.model.push_back(v);
    }
    pr.text += mon::cat(" deal ", k);
    pr.phases.push_back(ph);
  };
  if (!shape.input || shape.big_mult) deal(2 + g.below(4));
  for (std::size_t k = 0; k < phases; k++) {
    std::vector<int> kinds;
    if (shape.input) kinds.insert(kinds.end(), {0, 0});
    if (!pr.model.empty()) kinds.push_back(1);
    if (shape.mult && !pr.model.empty()) kinds.insert(kinds.end(), {2, 2, 2});
    if (shape.check && (have_mult || g.chance(1, 4))) kinds.push_back(3);
    if (kinds.empty()) kinds.push_back(4);
    int kind = kinds[g.below(kinds.size())];
    if (shape.big_mult && k + 1 == phases) kind = 2;
    if (shape.big_input && k + 1 == phases) kind = 0;
    Phase ph;
    ph.first_out = pr.model.size();
    if (kind == 4) {
      deal(3);
      continue;
    }
    if (kind == 0) {
      ph.kind = Phase::kInput;
      ph.values.resize(s.n);
      ph.extra_setups = g.chance(1, 5) ? 1 + (int)g.below(2) : 0;
      int style = (int)g.below(4);
      std::size_t big = g.below(s.n);
      for (std::size_t p = 0; p < s.n; p++) {
        std::size_t c = style == 0 ? g.below(shape.max_batch + 1) : style == 1 ? (p == big ? 1 + g.below(shape.max_batch) : 0)
                      : style == 2 ? 1 : (g.below(2) ? 0 : g.below(shape.max_batch + 1));
        if (shape.big_input && (p == big || g.chance(1, 3))) c = shape.big_input + (p == big ? 0 : g.below(3));
        if (shape.exact && p == big) c = shape.exact;
        for (std::size_t i = 0; i < c; i++) {
          u64 v = sec.chance(1, 10) ? 0 : raw(sec);
          ph.values[p].push_back(v);
          pr.model.push_back(v);
        }
        pr.inputs += c;
        pr.text += mon::cat(p ? "," : " input ", c);
      }
    } else if (kind == 1) {
      ph.kind = Phase::kLocal;
      std::size_t c = 1 + g.below(5);
      for (std::size_t i = 0; i < c; i++) {
        u64 op = g.below(6), a = g.below(pr.model.size()), b = g.below(pr.model.size()), z = (g.below(4) ? g.u64() : (u64)mon::constant(g)) % ref::P61;
        ph.ops.push_back({op, a, b, z});
        u64 x = pr.model[a], y = pr.model[b];
        pr.model.push_back(op == 0 ? add(x, y) : op == 1 ? sub(x, y) : op == 2 ? add(x, z) : op == 3 ? sub(x, z)
                           : op == 4 ? sub(z, x) : mul(x, z));
      }
      pr.text += mon::cat(" local ", c);
    } else if (kind == 2) {
      ph.kind = Phase::kMult;
      ph.fresh = !have_mult || g.chance(1, 4);
      if (ph.fresh) {
        ph.key = key;
        key++;
      }
      have_mult = true;
      std::size_t c = g.chance(1, 10) ? 0 : 1 + g.below(shape.max_batch);
      if (shape.big_mult && k + 1 == phases) c = shape.big_mult;
      if (shape.exact && g.below(2)) c = shape.exact;
      std::size_t m = pr.model.size();
      std::size_t from = m > 8 && g.below(2) ? m - 8 : 0;  // often the latest results
      for (std::size_t i = 0; i < c; i++) {
        std::size_t a = from + g.below(m - from), b = g.chance(1, 6) ? a : from + g.below(m - from);
        ph.pairs.push_back({a, b});
        pr.factors.push_back({pr.model[a], pr.model[b]});
        pr.model.push_back(mul(pr.model[a], pr.model[b]));
      }
      pr.mults += c;
      pr.text += mon::cat(ph.fresh ? " mult* " : " mult ", c);
    } else {
      ph.kind = Phase::kCheck;
      pr.checks++;
      pr.text += " check";
    }
    pr.phases.push_back(ph);
  }
  if (shape.last_check || (shape.check && shape.big_mult)) {
    Phase ph;
    ph.kind = Phase::kCheck;
    ph.first_out = pr.model.size();
    pr.checks++;
    pr.text += " check";
    pr.phases.push_back(ph);
  }
  return pr;
}

// --- execution ---------------------------------------------------------------------

struct CheckRec {
  std::size_t phase = 0, mults = 0;
  std::vector<Field> coefficients;
  Field sent, recv;
  std::vector<Field> recv_by_p1;
  std::vector<Shr> msgs;
};

struct Party {
  std::vector<Shr> pool;
  std::vector<std::vector<std::vector<Shr>>> inputs;  // result of every input phase
  std::vector<std::size_t> outputs;                   // sizes of the results of mult phases
  std::unique_ptr<frn::CheckData> cd;
  std::vector<Field> masks, contributions;            // per multiplication
  std::vector<CheckRec> checks;
  // bytes sent to everyone, per phase: [phase][to], cumulative; the same at the
  // end of the setup part of an input phase
  std::vector<std::vector<std::size_t>> before, setup, after;
  std::string error;
  bool aborted = false;
};

static std::vector<std::vector<Field>> keys(const Setup& s, u64 seed, int key) {
  mon::Rng g(mon::mix(seed, 1000 + (u64)key));
  std::vector<std::vector<Field>> k(2 * s.d + 1);
  for (auto& x : k)
    for (std::size_t i = 0; i < s.lay.pieces; i++) x.push_back(Field(g.u64() % ref::P61));
  return k;
}

static frn::Correlator correlator(const Setup& s, unsigned id, u64 seed, int key) {
  frn::Correlator c(id, s.rep);
  if (key == 0) return c;
  auto k = keys(s, seed, key);
  for (std::size_t j = 0; j < k.size(); j++) {
    std::vector<PRG> own;
    for (auto& f : k[j]) own.push_back(frn::FieldElementToPrg(f));
    std::vector<PRG> mine;
    for (int i : s.lay.idx[id]) mine.push_back(own[i]);
    c.SetRandPRGs(mine, (unsigned)j);
    if (j == id) c.SetOwnPRGs(own);
  }
  return c;
}

static void body(const Setup& s, const Program& pr, unsigned id, std::shared_ptr<frn::Network> net,
                 const hub::Transcript& log, Party& out) {
  mon::Rng g(mon::mix(pr.seed, 50 + id));
  auto sent = [&] {
    std::vector<std::size_t> v;
    for (std::size_t j = 0; j < s.n; j++) v.push_back(log.link(id, j).size());
    return v;
  };
  PRG prg = pr.same_generators ? PRG() : prg_of(mon::mix(pr.seed, 900 + id));
  frn::InputSetup setup(net, s.rep, prg);
  out.cd = std::make_unique<frn::CheckData>((unsigned)s.d);
  std::unique_ptr<frn::Mult> mult;
  std::unique_ptr<frn::Correlator> copy;
  ShrManipulator man = s.man[id];
  for (std::size_t k = 0; k < pr.phases.size(); k++) {
    const Phase& ph = pr.phases[k];
    out.before.push_back(sent());
    out.setup.push_back(sent());
    switch (ph.kind) {
      case Phase::kDeal:
        for (auto& x : ph.dealt) out.pool.push_back(x[id]);
        break;
      case Phase::kInput: {
        for (int i = 0; i < ph.extra_setups; i++) setup.Run();
        frn::InputSetup::Correlator corr = setup.Run();
        out.setup.back() = sent();
        frn::Input in(net, man, corr);
        // announce, in an order and grouping of this party's own choice
        std::vector<std::size_t> done(s.n, 0);
        std::vector<unsigned> todo;
        for (unsigned p = 0; p < s.n; p++)
          if (!ph.values[p].empty()) todo.push_back(p);
        while (!todo.empty()) {
          std::size_t at = g.below(todo.size());
          unsigned p = todo[at];
          std::size_t left = ph.values[p].size() - done[p];
          std::size_t c = g.chance(1, 4) ? left : 1 + g.below(left);
          bool list = g.below(2);
          if (p == id) {
            std::vector<Field> v;
            for (std::size_t i = 0; i < c; i++) v.push_back(Field(ph.values[p][done[p] + i]));
            if (list)
              in.Prepare(v);
            else
              for (auto& f : v) in.Prepare(f);
          } else if (list) {
            in.PrepareToReceive(p, c);
          } else {
            for (std::size_t i = 0; i < c; i++) in.PrepareToReceive(p);
          }
          done[p] += c;
          if (done[p] == ph.values[p].size()) todo.erase(todo.begin() + (long)at);
        }
        auto r = in.Run();
        for (auto& x : r)
          for (auto& y : x) out.pool.push_back(y);
        out.inputs.push_back(r);
        break;
      }
      case Phase::kLocal:
        for (auto& o : ph.ops) {
          const Shr &a = out.pool.at(o[1]), &b = out.pool.at(o[2]);
          Field z(o[3]);
          Shr r = o[0] == 0   ? man.Add(a, b)
                  : o[0] == 1 ? man.Subtract(a, b)
                  : o[0] == 2 ? man.AddConstant(a, z)
                  : o[0] == 3 ? man.SubtractConstant(a, z)
                  : o[0] == 4 ? man.SubtractConstant(z, a)
                              : man.MultiplyConstant(a, z);
          out.pool.push_back(r);
        }
        break;
      case Phase::kMult: {
        if (ph.fresh) {
          frn::Correlator c = correlator(s, id, pr.seed, ph.key);
          copy = std::make_unique<frn::Correlator>(c);
          mult = std::make_unique<frn::Mult>(net, s.rep, man, c, *out.cd);
        }
        std::size_t at = 0;
        while (at < ph.pairs.size()) {
          std::size_t c = 1 + g.below(ph.pairs.size() - at);
          std::vector<Shr> xs, ys;
          for (std::size_t i = at; i < at + c; i++) {
            xs.push_back(out.pool.at(ph.pairs[i].first));
            ys.push_back(out.pool.at(ph.pairs[i].second));
            out.masks.push_back(copy->GenRandomShare().add_share);
            out.contributions.push_back(man.MultiplyToAdditive(xs.back(), ys.back()));
          }
          if (g.below(2))
            mult->Prepare(xs, ys);
          else
            for (std::size_t i = 0; i < c; i++) mult->Prepare(xs[i], ys[i]);
          at += c;
        }
        auto r = mult->Run();
        out.outputs.push_back(r.size());
        for (auto& x : r) out.pool.push_back(x);
        break;
      }
      case Phase::kCheck: {
        frn::Check check(net, s.rep, man, *out.cd);
        check.ComputeRandomCoefficients();
        check.PrepareLinearCombinations();
        check.PrepareMsgs();
        check.ReconstructMsgs();
        CheckRec rec;
        rec.phase = k;
        rec.mults = out.cd->counter;
#ifdef FRN_VERIF_HOOKS
        rec.coefficients = check.VerifCoefficients();
        auto& c = check.VerifCompressed();
        rec.sent = c.shares_sent_to_p1;
        rec.recv = c.values_recv_from_p1;
        rec.recv_by_p1 = c.shares_recv_by_p1;
        rec.msgs = c.msgs;
#endif
        out.checks.push_back(rec);
      }
    }
    out.after.push_back(sent());
  }
}

struct Mode {
  enum { kSerial, kFree, kTcp } kind = kSerial;
  int strategy = 0;
  u64 seed = 0;
};

struct Result {
  std::vector<Party> parties;
  hub::Transcript log;
  std::string problem;  // empty if everybody completed
  bool leftover = false;
  std::string leftover_text;
  std::size_t switches = 0;
};

static Result execute(const Setup& s, const Program& pr, const Mode& m) {
  Result r;
  r.parties.resize(s.n);
  std::vector<std::thread> threads;
  if (m.kind == Mode::kTcp) {
    r.log = hub::Transcript(s.n);
    std::vector<std::shared_ptr<frn::TcpNetwork>> nets(s.n);
    for (unsigned p = 0; p < s.n; p++)
      nets[p] = frn::TcpNetwork::CreateWithLocalParties(p, s.n, ports::base(), false);
    for (unsigned p = 0; p < s.n; p++)
      threads.emplace_back([&, p] {
        try {
          mon::Rng g(mon::mix(m.seed, p));
          usleep((useconds_t)g.below(20000));
          nets[p]->Connect();
          // the layout of the recorder is that of the library's default threshold
          body(s, pr, p, std::make_shared<hub::Recorder>(nets[p], r.log, s.rep.ShareSize()), r.log, r.parties[p]);
        } catch (const std::exception& e) {
          r.parties[p].error = e.what();
        }
        if (!r.parties[p].error.empty()) {
          try {
            nets[p]->Close();
          } catch (const std::exception&) {
          }
        }
      });
    for (auto& t : threads) t.join();
    for (unsigned p = 0; p < s.n; p++) {
      try {
        if (r.parties[p].error.empty()) nets[p]->Close();
      } catch (const std::exception& e) {
        r.parties[p].error = mon::cat("closing: ", e.what());
      }
    }
    for (std::size_t i = 0; i < s.n; i++)
      for (std::size_t j = 0; j < s.n; j++)
        if (r.log.link(i, j).size() != r.log.received[i * s.n + j]) {
          r.leftover = true;
          r.leftover_text += mon::cat(" ", i, "->", j, ": sent ", r.log.link(i, j).size(), " received ",
                                      r.log.received[i * s.n + j]);
        }
  } else {
    hub::Hub h(s.n, m.kind == Mode::kSerial, m.strategy, m.seed);
    for (unsigned p = 0; p < s.n; p++)
      threads.emplace_back([&, p] {
        h.Enter(p);
        try {
          body(s, pr, p, std::make_shared<hub::HubNetwork>(p, s.n, s.rep.ShareSize(), h), h.log, r.parties[p]);
        } catch (const hub::Aborted&) {
          r.parties[p].aborted = true;
        } catch (const std::exception& e) {
          r.parties[p].error = e.what();
        }
        h.Leave(p);
      });
    for (auto& t : threads) t.join();
    r.log = h.log;
    r.switches = h.switches();
    if (h.deadlock()) r.problem = "nobody can go on:" + h.deadlock_text();
    for (std::size_t i = 0; i < s.n; i++)
      for (std::size_t j = 0; j < s.n; j++)
        if (h.leftover(i, j)) {
          r.leftover = true;
          r.leftover_text += mon::cat(" ", i, "->", j, ": ", h.leftover(i, j), " bytes");
        }
    mon::distinct(mon::mix(h.schedule(), pr.seed));
    mon::count("scheduler_switches", h.switches());
    mon::count("network_calls", h.calls());
    mon::count("waits_for_data", h.blocks());
  }
  for (unsigned p = 0; p < s.n; p++)
    if (!r.parties[p].error.empty()) r.problem += mon::cat(" party ", p, " raised: ", r.parties[p].error);
  u64 bytes = 0;
  for (auto& l : r.log.sent) bytes += l.size();
  mon::count("bytes_on_links", bytes);
  mon::count(m.kind == Mode::kTcp ? "runs_tcp" : m.kind == Mode::kSerial ? "runs_scheduled" : "runs_free");
  return r;
}

// --- oracles -------------------------------------------------------------------------

static std::vector<Field> elements(const std::vector<unsigned char>& b, std::size_t from, std::size_t to) {
  std::vector<Field> v;
  for (std::size_t i = from; i + 8 <= to && i + 8 <= b.size(); i += 8) v.push_back(Field::FromBytes(b.data() + i));
  return v;
}

// A value of the pool at all parties.
static bool pool_value(const Setup& s, const Program& pr, const Result& r, std::size_t i, const char* what,
                       const std::string& id) {
  std::vector<Shr> c;
  for (auto& p : r.parties) {
    if (i >= p.pool.size()) {
      fail(mon::cat(what, ".missing"), mon::cat(id, " value ", i));
      return false;
    }
    c.push_back(p.pool[i]);
  }
  std::vector<Field> pieces;
  std::string why;
  mon::eval();
  if (!s.lay.check(c, &pieces, &why)) {
    fail(mon::cat(what, ".inconsistent"), mon::cat(id, " value ", i, ": ", why));
    return false;
  }
  u64 got = val(shr::sum(pieces));
  if (got != pr.model[i]) {
    fail(mon::cat(what, ".value"), mon::cat(id, " value ", i, ": ", got, " instead of ", pr.model[i]));
    return false;
  }
  return true;
}

// C12
static void judge_inputs(const Setup& s, const Program& pr, const Result& r, const std::string& id) {
  std::size_t run = 0;
  for (auto& ph : pr.phases) {
    if (ph.kind != Phase::kInput) continue;
    for (std::size_t p = 0; p < s.n; p++) {
      auto& out = r.parties[p].inputs.at(run);
      mon::eval();
      if (out.size() != s.n) {
        fail("shape", mon::cat(id, " party ", p, " has results for ", out.size(), " parties"));
        return;
      }
      for (std::size_t q = 0; q < s.n; q++)
        if (out[q].size() != ph.values[q].size()) {
          fail("count", mon::cat(id, " party ", p, " has ", out[q].size(), " inputs of ", q, " instead of ",
                                 ph.values[q].size()));
          return;
        }
    }
    std::size_t i = ph.first_out;
    for (std::size_t q = 0; q < s.n; q++)
      for (std::size_t k = 0; k < ph.values[q].size(); k++, i++)
        if (!pool_value(s, pr, r, i, "input", mon::cat(id, " input ", k, " of party ", q))) return;
    run++;
  }
}

// C13
static void judge_products(const Setup& s, const Program& pr, const Result& r, const std::string& id) {
  std::size_t run = 0;
  for (auto& ph : pr.phases) {
    if (ph.kind != Phase::kMult) continue;
    for (std::size_t p = 0; p < s.n; p++) {
      mon::eval();
      if (r.parties[p].outputs.at(run) != ph.pairs.size()) {
        fail("count", mon::cat(id, " party ", p, " has ", r.parties[p].outputs[run], " products of ", ph.pairs.size()));
        return;
      }
    }
    for (std::size_t k = 0; k < ph.pairs.size(); k++)
      if (!pool_value(s, pr, r, ph.first_out + k, "product", mon::cat(id, " product ", k))) return;
    run++;
  }
}

// What the multiplications of the program sent from `from` to `to`, without the rest.
static std::vector<Field> mult_traffic(const Program& pr, const Result& r, std::size_t from, std::size_t to) {
  std::vector<Field> v;
  auto& p = r.parties[from];
  for (std::size_t k = 0; k < pr.phases.size(); k++) {
    if (pr.phases[k].kind != Phase::kMult) continue;
    auto e = elements(r.log.link(from, to), p.before[k][to], p.after[k][to]);
    v.insert(v.end(), e.begin(), e.end());
  }
  return v;
}

// The traffic from party 0 to itself in a multiplication is its share of each
// product followed by the opened values.
static void split_self(const Program& pr, const Result& r, std::vector<Field>& shares, std::vector<Field>& opened) {
  auto& p = r.parties[0];
  for (std::size_t k = 0; k < pr.phases.size(); k++) {
    if (pr.phases[k].kind != Phase::kMult) continue;
    auto e = elements(r.log.link(0, 0), p.before[k][0], p.after[k][0]);
    std::size_t c = pr.phases[k].pairs.size();
    for (std::size_t i = 0; i < e.size(); i++) (i < c ? shares : opened).push_back(e[i]);
  }
}

struct Wire {
  std::vector<std::vector<Field>> shares;  // [party in U][mult]
  std::vector<std::vector<Field>> opened;  // [party in T][mult]
};

static bool wire_of(const Setup& s, const Program& pr, const Result& r, Wire& w, const std::string& id) {
  w.shares.resize(2 * s.d + 1);
  w.opened.resize(s.n - s.d);
  split_self(pr, r, w.shares[0], w.opened[0]);
  for (std::size_t i = 1; i < 2 * s.d + 1; i++) w.shares[i] = mult_traffic(pr, r, i, 0);
  for (std::size_t j = 1; j < s.n - s.d; j++) w.opened[j] = mult_traffic(pr, r, 0, j);
  bool ok = true;
  for (auto& x : w.shares) ok = ok && x.size() == pr.mults;
  for (auto& x : w.opened) ok = ok && x.size() == pr.mults;
  if (!ok) fail("traffic", id + ": the multiplications sent another number of elements than expected");
  return ok;
}

// C14
static void judge_record(const Setup& s, const Program& pr, const Result& r, const std::string& id) {
  std::size_t M = pr.mults, U = 2 * s.d + 1;
  Wire w;
  if (!wire_of(s, pr, r, w, id)) return;
  for (std::size_t p = 0; p < s.n; p++) {
    auto& cd = *r.parties[p].cd;
    const std::string at = mon::cat(id, " party ", p);
    mon::eval();
    if (cd.counter != M) fail("counter", mon::cat(at, ": ", cd.counter, " of ", M));
    if (cd.shares_sent_to_p1.size() != M || cd.msgs.size() != M || cd.shares_recv_by_p1.size() != U) {
      fail("entries", mon::cat(at, ": ", cd.shares_sent_to_p1.size(), " sent, ", cd.msgs.size(), " contributions, of ", M));
      return;
    }
    for (auto& m : cd.msgs)
      if (m.size() != U) {
        fail("entries", at);
        return;
      }
    for (std::size_t i = 0; i < U; i++) {
      if (p == 0 ? cd.shares_recv_by_p1[i] != w.shares[i] : !cd.shares_recv_by_p1[i].empty())
        fail("received-by-first", mon::cat(at, " from ", i));
      mon::eval();
    }
    if (p < U && cd.shares_sent_to_p1 != w.shares[p]) fail("sent", at);
    if (p < s.n - s.d) {
      if (cd.values_recv_from_p1 != w.opened[p]) fail("opened", at);
    } else if (!cd.values_recv_from_p1.empty()) {
      fail("opened", at + " records values it did not receive");
    }
  }
  for (std::size_t m = 0; m < M; m++) {
    u64 total = 0;
    for (std::size_t i = 0; i < U; i++) {
      std::vector<Shr> c;
      for (auto& p : r.parties) c.push_back(p.cd->msgs[m][i]);
      std::vector<Field> pieces;
      std::string why;
      const std::string at = mon::cat(id, " multiplication ", m, " contribution of ", i);
      mon::eval();
      if (!s.lay2.check(c, &pieces, &why)) {
        fail("contribution-inconsistent", at + ": " + why);
        return;
      }
      u64 v = val(shr::sum(pieces));
      total = add(total, v);
      if (sub(v, val(w.shares[i][m])) != val(r.parties[i].masks.at(m))) {
        fail("mask", at);
        return;
      }
    }
    if (total != mul(pr.factors[m].first, pr.factors[m].second)) {
      fail("contributions-sum", mon::cat(id, " multiplication ", m));
      return;
    }
  }
}

// C15
static void judge_check(const Setup& s, const Program& pr, const Result& r, const std::string& id) {
  std::size_t U = 2 * s.d + 1;
  Wire w;
  if (!wire_of(s, pr, r, w, id)) return;
  for (std::size_t c = 0; c < pr.checks; c++) {
    std::size_t M = r.parties[0].checks.at(c).mults;
    const std::string at = mon::cat(id, " check ", c, " of ", M);
    auto& coef = r.parties[0].checks[c].coefficients;
    std::vector<std::vector<Field>> groups(s.lay2.pieces);
#ifdef FRN_VERIF_HOOKS
    for (auto& p : r.parties) {
      mon::eval();
      if (p.checks.at(c).coefficients != coef) fail("coefficients-differ", at);
    }
    if (coef.size() != M) {
      fail("coefficients-count", mon::cat(at, ": ", coef.size()));
      return;
    }
    {
      std::vector<unsigned char> stream(16 * (M + 2));
      PRG().Next(stream);
      std::map<u64, std::size_t> where;
      for (std::size_t o = 0; o < stream.size(); o += 8) where[val(Field::FromBytes(stream.data() + o))] = o;
      std::set<std::size_t> used;
      for (auto& f : coef) {
        auto it = where.find(val(f));
        mon::eval();
        if (it == where.end()) {
          fail("coefficient-not-output", at);
          break;
        }
        if (!used.insert(it->second).second) {
          fail("coefficient-reused", at);
          break;
        }
      }
    }
    auto combine = [&](const std::vector<Field>& v) {
      u64 t = 0;
      for (std::size_t m = 0; m < M && m < v.size(); m++) t = add(t, mul(val(coef[m]), val(v[m])));
      return t;
    };
    for (std::size_t p = 0; p < U; p++) {
      auto& k = r.parties[p].checks[c];
      mon::eval();
      if (p > 0) {
        if (val(k.sent) != combine(w.shares[p])) fail("combination-sent", mon::cat(at, " party ", p));
        if (val(k.recv) != combine(w.opened[p])) fail("combination-opened", mon::cat(at, " party ", p));
      } else {
        if (k.recv_by_p1.size() != U) {
          fail("combination-received", at);
          return;
        }
        for (std::size_t i = 0; i < U; i++)
          if (val(k.recv_by_p1[i]) != combine(w.shares[i])) fail("combination-received", mon::cat(at, " from ", i));
      }
    }
    for (std::size_t i = 0; i < U; i++) {
      std::vector<Shr> col;
      for (auto& p : r.parties) {
        if (p.checks[c].msgs.size() != U) {
          fail("combination-contributions", at);
          return;
        }
        col.push_back(p.checks[c].msgs[i]);
      }
      std::vector<Field> pieces;
      std::string why;
      mon::eval();
      if (!s.lay2.check(col, &pieces, &why)) {
        fail("combination-inconsistent", mon::cat(at, " contribution of ", i, ": ", why));
        return;
      }
      u64 want = 0;
      for (std::size_t m = 0; m < M; m++)
        want = add(want, mul(val(coef[m]), val(r.parties[i].contributions.at(m))));
      if (val(shr::sum(pieces)) != want) fail("combination-value", mon::cat(at, " contribution of ", i));
      for (std::size_t x = 0; x < pieces.size(); x++) groups[x].push_back(pieces[x]);
    }
    mon::count("checks_with_internals");
#endif
    // the exchange
    std::size_t ph = r.parties[0].checks[c].phase;
    std::vector<std::vector<char>> holds(s.n, std::vector<char>(s.lay2.pieces, 0));
    for (std::size_t p = 0; p < s.n; p++)
      for (int i : s.lay2.idx[p]) holds[p][i] = 1;
    auto key = [](const std::vector<Field>& g) {
      std::string t;
      for (auto& f : g) t += f.ToString() + " ";
      return t;
    };
    for (std::size_t q = 0; q < s.n; q++) {
      std::multiset<std::string> got, want;
      std::size_t lacks = 0;
      for (std::size_t i = 0; i < s.lay2.pieces; i++)
        if (!holds[q][i]) {
          lacks++;
          want.insert(key(groups[i]));
        }
      std::size_t total = 0;
      for (std::size_t p = 0; p < s.n; p++) {
        const std::string link = mon::cat(at, " link ", p, "->", q);
        auto& b = r.log.link(p, q);
        std::size_t from = r.parties[p].before[ph][q], to = r.parties[p].after[ph][q];
        std::size_t both = 0;
        std::set<std::string> may;
        for (std::size_t i = 0; i < s.lay2.pieces; i++)
          if (holds[p][i] && !holds[q][i]) {
            both++;
            may.insert(key(groups[i]));
          }
        mon::eval();
        std::uint32_t v = 0, h = 0;
        bool ok = to - from >= 4;
        if (ok) std::memcpy(&v, b.data() + from, 4);
        ok = ok && to - from >= 8 + 8 * (std::size_t)v;
        if (ok) std::memcpy(&h, b.data() + from + 4 + 8 * (std::size_t)v, 4);
        ok = ok && to - from == 8 + 8 * ((std::size_t)v + h) && v % U == 0;
        if (!ok) {
          fail("exchange-format", mon::cat(link, ": ", to - from, " bytes, ", v, " values, ", h, " digests"));
          return;
        }
        auto e = elements(b, from + 4, from + 4 + 8 * (std::size_t)v);
        if (v / U + h != both)
          fail("exchange-pieces", mon::cat(link, ": ", v / U, " pieces and ", h, " digests for ", both));
        total += v / U;
        for (std::size_t k = 0; k < e.size(); k += U) {
          std::vector<Field> grp(e.begin() + (long)k, e.begin() + (long)(k + U));
#ifdef FRN_VERIF_HOOKS
          if (!may.count(key(grp))) fail("exchange-values", link);
#endif
          got.insert(key(grp));
        }
      }
      mon::eval();
      if (total != lacks) fail("exchange-count", mon::cat(at, " party ", q, " receives ", total, " pieces and lacks ", lacks));
#ifdef FRN_VERIF_HOOKS
      if (got != want) fail("exchange-set", mon::cat(at, " party ", q));
#endif
    }
  }
}

// C16: everything that must not depend on the schedule.
static bool same(const Setup& s, const Result& a, const Result& b, std::string* why) {
  for (std::size_t i = 0; i < s.n; i++) {
    if (a.parties[i].pool != b.parties[i].pool || a.parties[i].inputs != b.parties[i].inputs) {
      *why = mon::cat("outputs of party ", i);
      return false;
    }
    auto &x = *a.parties[i].cd, &y = *b.parties[i].cd;
    if (x.counter != y.counter || x.msgs != y.msgs || x.shares_sent_to_p1 != y.shares_sent_to_p1 ||
        x.values_recv_from_p1 != y.values_recv_from_p1 || x.shares_recv_by_p1 != y.shares_recv_by_p1) {
      *why = mon::cat("record of party ", i);
      return false;
    }
    for (std::size_t j = 0; j < s.n; j++)
      if (a.log.link(i, j) != b.log.link(i, j)) {
        *why = mon::cat("bytes from ", i, " to ", j, ": ", a.log.link(i, j).size(), " and ", b.log.link(i, j).size());
        return false;
      }
  }
  return true;
}

// C29
static void judge_traffic(const Setup& s, const Program& pr, const Result& r, const std::string& id) {
  std::size_t U = 2 * s.d + 1;
  for (std::size_t k = 0; k < pr.phases.size(); k++) {
    auto& ph = pr.phases[k];
    for (std::size_t p = 0; p < s.n; p++)
      for (std::size_t q = 0; q < s.n; q++) {
        auto& x = r.parties[p];
        std::size_t setup = x.setup[k][q] - x.before[k][q], rest = x.after[k][q] - x.setup[k][q];
        std::size_t want_setup = 0, want = 0;
        if (ph.kind == Phase::kInput) {
          want_setup = (std::size_t)(1 + ph.extra_setups) * s.lay.size * 8;
          want = ph.values[p].size() * 8;
        } else if (ph.kind == Phase::kMult) {
          if (p < U && q == 0) want += ph.pairs.size() * 8;
          if (p == 0 && q < s.n - s.d) want += ph.pairs.size() * 8;
        } else if (ph.kind == Phase::kCheck) {
          continue;
        }
        mon::eval();
        if (setup != want_setup || rest != want)
          fail(ph.kind == Phase::kInput ? "input-messages" : "messages",
               mon::cat(id, " phase ", k, " link ", p, "->", q, ": ", setup, "+", rest, " bytes instead of ", want_setup,
                        "+", want));
      }
  }
}

// The masks of inputs by party, and of multiplications by sender, and of openings.
struct Masks {
  std::vector<std::vector<u64>> input, mult;
  std::vector<u64> opened;
};

static bool masks_of(const Setup& s, const Program& pr, const Result& r, Masks& m, const std::string& id) {
  m.input.resize(s.n);
  for (std::size_t p = 0; p < s.n; p++) {
    std::vector<u64> got, val_;
    for (std::size_t k = 0; k < pr.phases.size(); k++) {
      auto& ph = pr.phases[k];
      if (ph.kind != Phase::kInput) continue;
      std::vector<Field> first;
      for (std::size_t q = 0; q < s.n; q++) {
        auto e = elements(r.log.link(p, q), r.parties[p].setup[k][q], r.parties[p].after[k][q]);
        if (q == 0) first = e;
        mon::eval();
        if (e != first) fail("input-not-the-same-to-all", mon::cat(id, " party ", p));
      }
      if (first.size() != ph.values[p].size()) return false;
      for (std::size_t i = 0; i < first.size(); i++) m.input[p].push_back(sub(ph.values[p][i], val(first[i])));
    }
  }
  if (!pr.mults) return true;
  Wire w;
  if (!wire_of(s, pr, r, w, id)) return false;
  m.mult.resize(w.shares.size());
  for (std::size_t i = 0; i < w.shares.size(); i++)
    for (std::size_t k = 0; k < pr.mults; k++)
      m.mult[i].push_back(sub(val(r.parties[i].contributions.at(k)), val(w.shares[i][k])));
  for (std::size_t k = 0; k < pr.mults; k++) {
    for (auto& o : w.opened)
      if (o[k] != w.opened[0][k]) fail("opened-differ", mon::cat(id, " multiplication ", k));
    m.opened.push_back(sub(mul(pr.factors[k].first, pr.factors[k].second), val(w.opened[0][k])));
  }
  return true;
}

static void fresh(const std::vector<u64>& v, const std::string& what) {
  std::set<u64> seen, diffs;
  for (std::size_t i = 0; i < v.size(); i++) {
    mon::eval();
    if (v[i] == 0) fail("unmasked", mon::cat(what, " number ", i));
    if (!seen.insert(v[i]).second) {
      fail("mask-reused", mon::cat(what, " number ", i, " of ", v.size()));
      return;
    }
    // masks in a simple relation to each other give the values away as well
    if (i && !diffs.insert(sub(v[i], v[i - 1])).second && v.size() > 2) {
      fail("masks-related", mon::cat(what, " number ", i));
      return;
    }
  }
}

// --- work -----------------------------------------------------------------------------

static std::vector<std::pair<std::size_t, std::size_t>> shapes() {
  auto& a = mon::args();
  std::vector<std::pair<std::size_t, std::size_t>> v;
  bool slow = a.flavor != "o2";
  bool slowest = a.flavor == "vg" || a.flavor == "tsan";
  for (std::size_t n = 4; n <= (slowest ? 7u : slow ? 8u : 10u); n++)
    for (std::size_t d = 1; d <= (n - 1) / 3; d++) v.push_back({n, d});
  if (a.flavor == "vg") return v;
  v.push_back({13, 1});
  if (!slowest) v.push_back({16, 1});
  if (!slow) v.push_back({12, 2});
  if (!slow && a.thorough) {
    v.push_back({11, 3});
    v.push_back({13, 3});
    v.push_back({13, 4});
    v.push_back({16, 2});
  }
  return v;
}

// Some with very many pieces, for a few short programs, each in a shard of its own.
static std::vector<std::pair<std::size_t, std::size_t>> large_shapes() {
  auto& a = mon::args();
  if (a.flavor != "o2" || a.mode == "tcp" || a.prop == "C26" || a.prop == "C27") return {};
  std::vector<std::pair<std::size_t, std::size_t>> v = {{13, 3}, {12, 3}, {13, 4}};
  if (a.prop != "C16") v.insert(v.end(), {{14, 4}, {14, 3}});
  if (a.thorough && (a.prop == "C12" || a.prop == "C13")) v.push_back({16, 5});
  if (a.thorough) v.push_back({16, 2});
  return v;
}

static Mode mode_of(mon::Rng& g) {
  Mode m;
  m.strategy = (int)g.below(hub::kStrategies);
  m.seed = g.u64();
  return m;
}

static void scenario(const Setup& s, mon::Rng& g, const Shape& shape) {
  auto& a = mon::args();
  u64 seed = g.u64(), secret = g.u64();
  Program pr = make(s, shape, seed, secret);
  const std::string id = mon::cat(s.id(), " seed ", seed, pr.text.substr(0, 300));
  mon::where() = id;
  mon::distinct(mon::hash_str(id));
  mon::sample(id);
  mon::count("programs");
  mon::count("inputs", pr.inputs);
  mon::count("multiplications", pr.mults);
  Mode m = mode_of(g);
  if (a.mode == "free") m.kind = Mode::kFree;
  if (a.mode == "tcp") m.kind = Mode::kTcp;
  Result r = execute(s, pr, m);
  mon::eval();
  if (!r.problem.empty()) {
    fail("incomplete", mon::cat(id, " strategy ", m.strategy, ": ", r.problem));
    return;
  }
  if (a.prop == "C12") judge_inputs(s, pr, r, id);
  if (a.prop == "C13") judge_products(s, pr, r, id);
  if (a.prop == "C14") judge_record(s, pr, r, id);
  if (a.prop == "C15") judge_check(s, pr, r, id);
  if (a.prop == "C16") {
    if (r.leftover) fail("leftover", id + ":" + r.leftover_text);
    for (int k = 0; k < 4; k++) {
      Mode o = mode_of(g);
      if (k == 3) o.kind = Mode::kFree;
      Result q = execute(s, pr, o);
      std::string why;
      mon::eval();
      if (!q.problem.empty())
        fail("incomplete", mon::cat(id, " strategy ", o.strategy, ": ", q.problem));
      else if (!same(s, r, q, &why))
        fail("depends-on-schedule", mon::cat(id, " strategies ", m.strategy, " and ", o.strategy, ": ", why));
      if (q.leftover) fail("leftover", id + ":" + q.leftover_text);
    }
    if (s.d == (s.n - 1) / 3 && s.n <= 10 && g.chance(1, 3)) {
      Mode o;
      o.kind = Mode::kTcp;
      o.seed = g.u64();
      Result q = execute(s, pr, o);
      std::string why;
      mon::eval();
      if (!q.problem.empty())
        fail("incomplete", mon::cat(id, " over tcp: ", q.problem));
      else if (!same(s, r, q, &why))
        fail("depends-on-transport", mon::cat(id, ": ", why));
      if (q.leftover) fail("leftover-tcp", id + ":" + q.leftover_text);
    }
  }
  if (a.prop == "C29") {
    judge_traffic(s, pr, r, id);
    Program other = make(s, shape, seed, mon::mix(secret, 7));
    Result q = execute(s, other, mode_of(g));
    Masks x, y;
    if (!q.problem.empty()) {
      fail("incomplete", id + " with other secrets: " + q.problem);
      return;
    }
    if (!masks_of(s, pr, r, x, id) || !masks_of(s, other, q, y, id)) return;
    mon::eval();
    if (x.input != y.input) fail("input-mask-depends-on-secret", id);
    if (x.mult != y.mult || x.opened != y.opened) fail("mask-depends-on-secret", id);
    for (std::size_t p = 0; p < s.n; p++) fresh(x.input[p], mon::cat(id, " inputs of ", p));
    for (std::size_t p = 0; p < x.mult.size(); p++) fresh(x.mult[p], mon::cat(id, " products of ", p));
    fresh(x.opened, mon::cat(id, " openings"));
  }
}

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    auto& a = mon::args();
    mon::watchdog(a.flavor == "o2" ? 60 : 150);
    mon::Rng g(mon::base_seed());
    Shape shape;
    double quick = 600000, thorough = 4000000;
    if (a.prop == "C12") shape.mult = shape.check = false;
    if (a.prop == "C13") {
      shape.check = false;
      shape.input = false;
    }
    if (a.prop == "C14") shape.input = false;
    if (a.prop == "C15") shape.input = false;
    if (a.prop == "C29") shape.check = false;
    if (a.prop == "C16") quick = 70000, thorough = 800000;
    std::size_t i = 0;
    for (auto [n, d] : shapes()) {
      i++;
      if (a.mode == "tcp" && (d != (n - 1) / 3 || n > 10)) continue;
      Setup s(n, d);
      mon::eval();
      // every shard runs every shape, with programs of its own
      std::size_t work = n * n * s.lay.size * s.lay2.size / 10 + 150;
      std::size_t k = mon::rounds(quick, thorough) / work / (std::size_t)a.shards + 2;
      for (std::size_t x = 0; x < k; x++) {
        Shape sh = shape;
        if (a.prop != "C29" && g.chance(1, 6)) sh.default_keys = true;
        if (g.below(3) == 0) sh.max_batch = 20;
        // sizes at the thresholds of the sources, where they can be afforded
        sh.exact = mon::near_constant(g, 20, std::min<std::size_t>(3000, 40000 / work + 20), 0, 1, sh.check ? 12 : 6);
        if (sh.exact) sh.max_phases = std::min<std::size_t>(sh.max_phases, 3);
        sh.last_check = sh.check && sh.exact && g.chance(1, 2);
        if (a.prop == "C13" || a.prop == "C14" || a.prop == "C15") sh.input = g.chance(1, 5);
        scenario(s, g, sh);
      }
      if ((int)(i % (std::size_t)a.shards) == a.shard && n <= 7) {  // a big one
        Shape sh = shape;
        bool full = a.flavor == "o2";
        if (sh.input) {
          sh.big_input = full ? mon::near_constant(g, 3000, 30000, 0, 1, 2) : 0;
          if (!sh.big_input) sh.big_input = full ? 10000 + g.below(5000) : 300;
          sh.max_phases = 1;
          sh.mult = false;
          scenario(s, g, sh);
          sh.mult = shape.mult;
          sh.big_input = 0;
        }
        if (sh.mult) {
          sh.big_mult = full ? (d == 1 ? 1500 + g.below(1500) : 150) : 60;
          sh.max_phases = 3;
          scenario(s, g, sh);
        }
      }
    }
    if (a.flavor == "o2" && a.mode != "tcp" && a.scale >= 1 && a.shard < 2) {  // one batch of many
      auto t0 = std::chrono::steady_clock::now();
      Setup s(4, 1);
      for (int x = 0; x < (a.thorough ? 4 : 1); x++) {
        Shape sh = shape;
        sh.max_phases = 1;
        std::size_t k = a.shard == 0 ? 65600 + g.below(500) : 131100 + g.below(2000);
        if (a.prop == "C12" || a.prop == "C16" || (a.prop == "C29" && x % 2 == 0)) {
          sh.mult = sh.check = false;
          sh.big_input = k;
          scenario(s, g, sh);
          sh = shape;
          sh.big_input = 0;
          sh.max_phases = 1;
        }
        if (sh.mult) {
          sh.input = false;
          sh.big_mult = k;
          scenario(s, g, sh);
        }
        mon::count("batches_beyond_65536");
      }
      if (getenv("VERIF_DEBUG")) fprintf(stderr, "many: %.1f s\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    }
    i = 0;
    for (auto [n, d] : large_shapes()) {
      if ((int)(i++ % (std::size_t)a.shards) != a.shard) continue;
      auto t0 = std::chrono::steady_clock::now();
      Setup s(n, d);
      for (int x = 0; x < (a.thorough ? 4 : 1); x++) {
        Shape sh = shape;
        sh.max_batch = 3;
        sh.max_phases = 2;
        sh.last_check = sh.check;
        if (sh.mult) sh.input = false;
        scenario(s, g, sh);
      }
      mon::count("large_shapes");
      if (getenv("VERIF_DEBUG")) fprintf(stderr, "%zu %zu: %.1f s\n", n, d, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    }
  });
}
