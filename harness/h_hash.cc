// C04: hashing against an independent SHA-3.
#include "frn/lib/primitives/hash.h"

#include <sys/mman.h>

#include "mon.h"
#include "ref.h"

using namespace frn::lib::primitives;
using Bytes = std::vector<unsigned char>;

template <typename Tag>
struct H {
  static constexpr unsigned bits = sizeof(typename Tag::DigestType) * 8;

  static void judge(const char* what, const typename Tag::DigestType& d,
                    const Bytes& want, std::size_t len, const std::string& how) {
    if (d.size() * 8 != bits || want.size() != d.size() ||
        std::memcmp(d.data(), want.data(), d.size()))
      mon::violation(mon::cat("C04.sha3-", bits, ".", what),
                     mon::cat("message of ", len, " bytes fed as ", how, ": ",
                              mon::hex(d.data(), d.size()), " expected ",
                              mon::hex(want.data(), want.size())));
    mon::eval();
  }

  static Bytes message(mon::Rng& g, std::size_t n) {
    Bytes m(n);
    int kind = (int)g.below(8);
    for (auto& b : m) b = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? 0x80 : (unsigned char)g.u64();
    return m;
  }

  static typename Tag::DigestType chunked(const Bytes& m, const std::vector<std::size_t>& cuts, mon::Rng& g) {
    Hash<Tag> h;
    std::size_t a = 0;
    for (auto c : cuts) {
      if (g.below(2)) {
        Bytes part(m.begin() + a, m.begin() + c);
        h.Update(part);
      } else if (g.below(2)) {
        // a copy of exactly that many bytes
        std::unique_ptr<unsigned char[]> part(new unsigned char[c - a]);
        std::memcpy(part.get(), m.data() + a, c - a);
        Hash<Tag>& r = h.Update(part.get(), c - a);
        if (&r != &h) mon::violation("C04.update", "Update does not return the object");
      } else {
        h.Update(m.data() + a, c - a);
      }
      a = c;
    }
    h.Update(m.data() + a, m.size() - a);
    return h.Finalize();
  }

  static void all(mon::Rng& g) {
    const std::size_t rate = 200 - 2 * bits / 8;
    // every length over several blocks, whole and byte by byte
    for (std::size_t n = mon::args().shard; n < 4 * rate + 20; n += mon::args().shards) {
      Bytes m = message(g, n);
      Bytes want = ref::sha3(m.data(), n, bits);
      judge("whole", Hash<Tag>().Update(m).Finalize(), want, n, "one update");
      Hash<Tag> h;
      for (auto b : m) h.Update(&b, 1);
      judge("bytewise", h.Finalize(), want, n, "single bytes");
      Hash<Tag> w;
      for (std::size_t i = 0; i < n; i += 7) w.Update(m.data() + i, std::min<std::size_t>(7, n - i));
      judge("sevens", w.Finalize(), want, n, "pieces of 7");
      // every way to split into two, around words and blocks
      for (std::size_t c = 0; c <= n; c++) {
        if (n > 40 && c > 24 && c + 24 < n && (c % rate) > 9 && (c % rate) + 9 < rate && g.below(8)) continue;
        judge("two-part", chunked(m, {c}, g), want, n, mon::cat(c, " + ", n - c));
      }
      mon::distinct(mon::mix(n, bits));
    }
    // random messages, random splits, including empty updates
    std::size_t rounds = mon::rounds(2500, 60000);
    for (std::size_t i = 0; i < rounds; i++) {
      std::size_t n = mon::near_constant(g, 1, 20000, g.below(5) ? g.below(3 * rate) : g.below(5000), 1, 12);
      Bytes m = message(g, n);
      std::vector<std::size_t> cuts;
      std::size_t k = g.below(12);
      for (std::size_t j = 0; j < k; j++) {
        std::size_t c = g.below(n + 1);
        if (g.below(3) == 0) c = c / 8 * 8;
        if (g.below(4) == 0) c = c / rate * rate;
        c = mon::near_constant(g, 0, n, c, 1, 12);
        cuts.push_back(c);
        if (g.below(6) == 0) cuts.push_back(c);
      }
      std::sort(cuts.begin(), cuts.end());
      std::string how;
      for (auto c : cuts) how += mon::cat(c, ",");
      judge("split", chunked(m, cuts, g), ref::sha3(m.data(), n, bits), n, "cuts at " + how);
      mon::distinct(mon::mix(mon::hash_bytes(m.data(), n), mon::hash_str(how) + bits));
      mon::sample(mon::cat("SHA3-", bits, ", ", n, " bytes, cuts at ", how), 2);
    }
    // objects side by side, copies in the middle
    for (std::size_t i = 0; i < mon::rounds(400, 8000); i++) {
      std::vector<Hash<Tag>> hs(1 + g.below(4));
      std::vector<Bytes> ms(hs.size());
      for (int s = 0; s < 30; s++) {
        std::size_t k = g.below(hs.size());
        if (g.below(10) == 0 && hs.size() < 6) {
          Hash<Tag> c(hs[k]);
          hs.push_back(c);
          Bytes mc = ms[k];
          ms.push_back(mc);
        } else if (g.below(15) == 0) {
          std::size_t j = g.below(hs.size());
          hs[j] = hs[k];
          Bytes mc = ms[k];
          ms[j] = mc;
        } else {
          Bytes part = message(g, g.below(40));
          hs[k].Update(part);
          ms[k].insert(ms[k].end(), part.begin(), part.end());
        }
      }
      for (std::size_t k = 0; k < hs.size(); k++)
        judge("side-by-side", hs[k].Finalize(), ref::sha3(ms[k].data(), ms[k].size(), bits), ms[k].size(),
              "interleaved updates of several objects");
    }
    // big ones
    for (std::size_t n : {65535u, 65536u, 100003u, 1u << 20}) {
      Bytes m = message(g, (std::size_t)(n * std::min(1.0, mon::args().scale)));
      std::vector<std::size_t> cuts = {g.below(m.size()), g.below(m.size())};
      std::sort(cuts.begin(), cuts.end());
      judge("big", chunked(m, cuts, g), ref::sha3(m.data(), m.size(), bits), m.size(), "three parts");
    }
    if (mon::args().thorough && mon::args().shard < 2) {
      Bytes m = message(g, (std::size_t)(300000000 * std::min(1.0, mon::args().scale)));
      judge("big", Hash<Tag>().Update(m).Finalize(), ref::sha3(m.data(), m.size(), bits), m.size(), "one update");
    }
    mon::count(mon::cat("sha3-", bits, ".split-cases"), rounds);
  }
};

// One update of more than 4 GB (or 2^32 words). The memory is only reserved and reads as
// zeros; the digest was computed with another implementation.
static void huge_update(int log, const std::string& want) {
  const std::size_t n = ((std::size_t)1 << log) + 12345;
  void* p = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    mon::count("huge_update_not_possible");
    return;
  }
  Hash<SHA3_256> h;
  h.Update((const unsigned char*)"\1\2\3", 3);
  h.Update((const unsigned char*)p, n);
  h.Update((const unsigned char*)"end", 3);
  auto d = h.Finalize();
  munmap(p, n);
  mon::eval();
  mon::count("updates_beyond_4GB");
  std::string got = mon::hex(d.data(), d.size());
  for (auto& c : got) c = (char)tolower(c);
  if (got != want) mon::violation("C04.sha3-256.huge", mon::cat("3 bytes, ", n, " zeros in one update, 3 bytes: ", got, " expected ", want));
}

int main(int argc, char** argv) {
  return mon::run_main(argc, argv, [] {
    ref::self_check();
    mon::Rng g(mon::base_seed());
    if (mon::args().flavor == "o2" && mon::args().shard == 1 && mon::args().scale >= 1) {
      huge_update(32, "90aeac11cbb9992f8f55ba31ac0489deaef0ac60f320ef3a2b52d5e080477524");
      if (!mon::args().thorough) return;
      huge_update(35, "19d7efeca21751dee7e861f853b2f46faa44e1f6bf892378bcb587eef10daac2");
    }
    H<SHA3_256>::all(g);
    H<SHA3_384>::all(g);
    H<SHA3_512>::all(g);
  });
}
