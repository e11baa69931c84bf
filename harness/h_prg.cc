// C03: the generator against an AES-128 counter-mode model.
#include "frn/lib/primitives/prg.h"

#include "mon.h"
#include "ref.h"

using frn::lib::primitives::PRG;
using ref::u64;

static const u64 kInit = (u64)PRG_INITIAL_COUNTER;
static const u64 kNonce = (u64)PRG_NONCE;

struct Model {
  std::array<unsigned char, 16> seed{};
  std::shared_ptr<ref::CtrStream> stream;
  u64 next = kInit;
  explicit Model(const unsigned char* s) {
    if (s) std::memcpy(seed.data(), s, 16);
    stream = std::make_shared<ref::CtrStream>(seed.data(), kNonce);
  }
  void gen(unsigned char* out, std::size_t n) {
    unsigned char b[16];
    for (std::size_t i = 0; i < n; i += 16) {
      stream->block(next++, b);
      std::memcpy(out + i, b, std::min<std::size_t>(16, n - i));
    }
  }
};

static void fail(const char* what, const std::string& d) {
  mon::violation(mon::cat("C03.", what), d);
}

static void request(PRG& p, Model& m, std::size_t n, int form, mon::Rng& g,
                    const std::string& history) {
  std::size_t off = g.below(8), tail = 3 + g.below(20);
  std::vector<unsigned char> want(n);
  m.gen(want.data(), n);
  std::vector<unsigned char> mem;
  unsigned char* at;
  if (form == 0) {
    mem.assign(off + n + tail, 0x5A);
    at = mem.data() + off;
    p.Next(at, n);
    for (std::size_t i = 0; i < mem.size(); i++)
      if ((i < off || i >= off + n) && mem[i] != 0x5A) {
        fail("bounds", mon::cat("request of ", n, " bytes wrote outside"));
        break;
      }
  } else if (form == 1) {
    mem.assign(n, 0x5A);
    p.Next(mem);
    if (mem.size() != n) fail("vector-size", mon::cat(n, " became ", mem.size()));
    at = mem.data();
  } else if (form == 2) {
    mem.assign(n + tail, 0x5A);
    p.Next(mem, n);
    at = mem.data();
    for (std::size_t i = n; i < mem.size(); i++)
      if (mem[i] != 0x5A) {
        fail("bounds", mon::cat("request of ", n, " bytes wrote outside"));
        break;
      }
  } else {  // a block of exactly the requested size
    std::unique_ptr<unsigned char[]> buf(new unsigned char[n ? n : 1]);
    p.Next(buf.get(), n);
    mem.assign(buf.get(), buf.get() + n);
    at = mem.data();
  }
  if (n && std::memcmp(at, want.data(), n)) {
    std::size_t i = 0;
    while (at[i] == want[i]) i++;
    fail("output", mon::cat("request of ", n, " bytes, byte ", i, " differs, seed ",
                            mon::hex(m.seed.data(), 16), " next block ", m.next,
                            " history ", history));
  }
  if (n == 0 && form != 0) {}
  mon::eval();
}

static std::size_t pick_len(mon::Rng& g) {
  switch (g.below(13)) {
    case 12: return mon::near_constant(g, 1, 20000, g.below(64), 1, 1);
    case 0: return 0;
    case 1: return 16 * g.below(20);
    case 2: return 16 * g.below(20) + 1;
    case 3: return 16 * (1 + g.below(20)) - 1;
    case 4: return g.below(4096);
    case 5: return 8;
    case 6: return 16;
    case 7: return (std::size_t)1 << g.below(13);
    default: return g.below(64);
  }
}

static void history(mon::Rng& g, int steps) {
  unsigned char seed[16];
  for (auto& b : seed) b = (unsigned char)g.u64();
  int shape = (int)g.below(8);
  if (shape == 0) std::memset(seed, 0, 16);
  if (shape == 1) std::memset(seed, 0xFF, 16);
  if (shape == 2) { std::memset(seed, 0, 16); seed[g.below(16)] = (unsigned char)(1 << g.below(8)); }
  if (shape == 3) std::memset(seed + 8, 0, 8);
  bool def = shape == 0 && g.below(2);
  std::vector<PRG> ps;
  std::vector<Model> ms;
  if (def) {
    ps.emplace_back();
    ms.emplace_back(nullptr);
  } else {
    ps.emplace_back(seed);
    ms.emplace_back(seed);
  }
  // the seed is copied
  if (!def && g.below(2)) std::memset(seed, 0x11, 16);
  std::string h;
  u64 hash = mon::hash_bytes(ms[0].seed.data(), 16);
  for (int i = 0; i < steps; i++) {
    std::size_t k = g.below(ps.size());
    int op = (int)g.below(20);
    if (op == 0 && ps.size() < 6) {
      PRG c(ps[k]);
      Model m(ms[k]);
      ps.push_back(c);
      ms.push_back(m);
      if (h.size() < 300) h += mon::cat("copy ", k, "; ");
    } else if (op == 1) {
      ps[k].Reset();
      ms[k].next = kInit;
      if (h.size() < 300) h += mon::cat("reset ", k, "; ");
    } else if (op == 2) {
      std::size_t j = g.below(ps.size());
      ps[j] = ps[k];
      ms[j] = Model(ms[k]);
      if (h.size() < 300) h += mon::cat("assign ", j, "=", k, "; ");
    } else if (op == 3) {
      std::vector<unsigned char> small(g.below(20));
      std::size_t n = small.size() + 1 + g.below(40);
      auto before = small;
      if (!mon::throws([&] { ps[k].Next(small, n); }))
        fail("too-small", mon::cat("vector of ", small.size(), " accepted for ", n));
      if (small != before) fail("too-small", "vector written although rejected");
      mon::eval();
    } else {
      std::size_t n = pick_len(g);
      if (h.size() < 300) h += mon::cat(k, ":", n, " ");
      request(ps[k], ms[k], n, (int)g.below(4), g, h);
      hash = mon::mix(hash, n * 8 + k);
    }
    if (std::memcmp(ps[k].Seed(), ms[k].seed.data(), 16)) fail("seed", "Seed() differs from the seed given");
    if ((u64)ps[k].Counter() != ms[k].next)
      fail("counter", mon::cat("Counter() is ", ps[k].Counter(), ", next unused block is ", ms[k].next));
  }
  mon::distinct(hash);
  mon::sample(mon::cat("seed ", mon::hex(ms[0].seed.data(), 16), " requests ", h), 2);
}

// One request of more than 4 GB, of which some blocks are compared.
static void huge_request(mon::Rng& g) {
  if (!mon::memory_for(9)) {
    mon::count("huge_request_not_possible");
    return;
  }
  const std::size_t n = ((std::size_t)1 << 32) + 1000 + g.below(1000);
  unsigned char seed[16], b[16];
  for (auto& x : seed) x = (unsigned char)g.u64();
  PRG p(seed);
  ref::CtrStream s(seed, kNonce);
  std::unique_ptr<unsigned char[]> mem(new unsigned char[n + 1]);
  mem[n] = 0x5A;
  p.Next(mem.get(), n);
  if (mem[n] != 0x5A) fail("bounds", mon::cat("request of ", n, " bytes wrote outside"));
  u64 blocks = (n + 15) / 16;
  for (int i = 0; i < 20000; i++) {
    u64 at = i < 100 ? (u64)i : i < 200 ? blocks - 1 - (u64)(i - 100) : i < 300 ? (1u << 27) - 50 + (u64)(i - 200) : i < 400 ? (1u << 28) - 50 + (u64)(i - 300) : g.below(blocks);
    s.block(kInit + at, b);
    mon::eval();
    if (std::memcmp(b, mem.get() + 16 * at, std::min<std::size_t>(16, n - 16 * at))) {
      fail("output", mon::cat("request of ", n, " bytes, block ", at, " differs"));
      break;
    }
  }
  if ((u64)p.Counter() != kInit + blocks) fail("counter", mon::cat("after ", n, " bytes the counter is ", p.Counter()));
  p.Next(b, 16);
  unsigned char w[16];
  s.block(kInit + blocks, w);
  if (std::memcmp(b, w, 16)) fail("output", mon::cat("the request after one of ", n, " bytes differs"));
  mon::count("requests_beyond_4GB");
}

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    ref::self_check();
    mon::Rng g(mon::base_seed());
    if (mon::args().flavor == "o2" && mon::args().shard == 1 && mon::args().scale >= 1) huge_request(g);
    if (PRG::BlockSize() != 16 || PRG::SeedSize() != 16) fail("sizes", "");
    {  // every length up to 600 from a fresh generator and from a running one
      unsigned char seed[16];
      for (auto& b : seed) b = (unsigned char)g.u64();
      PRG run(seed);
      Model mrun(seed);
      for (std::size_t n = 0; n < 600; n++) {
        PRG p(seed);
        Model m(seed);
        request(p, m, n, (int)(n % 4), g, "fresh");
        request(p, m, 33, 0, g, "after the first request");
        request(run, mrun, n, (int)((n + 1) % 4), g, "running");
      }
    }
    std::size_t n = mon::rounds(1200, 20000);
    for (std::size_t i = 0; i < n; i++) history(g, 5 + (int)g.below(60));
    mon::count("histories", n);
    {  // a long life: many small requests, then big ones
      unsigned char seed[16];
      for (auto& b : seed) b = (unsigned char)g.u64();
      PRG p(seed);
      Model m(seed);
      std::size_t small = mon::rounds(70000, 2000000);
      for (std::size_t i = 0; i < small; i++) {
        unsigned char b[16], w[16];
        p.Next(b, 8);
        m.gen(w, 8);
        if (std::memcmp(b, w, 8)) {
          fail("long-history", mon::cat("small request ", i, " differs"));
          break;
        }
        mon::eval();
      }
      for (std::size_t big : {65536u, 100000u, 1u << 20, (1u << 20) + 5, 3000001u})
        request(p, m, (std::size_t)(big * std::min(1.0, mon::args().scale * 4)), 3, g, "long");
      if (mon::args().thorough) request(p, m, 80000000, 3, g, "long");
      request(p, m, 40, 0, g, "after long");
      mon::count("longest-counter", m.next - kInit);
    }
  });
}
