// Common parts of the demonstrations.
#include "frn.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/shared_deque.h"
#include "frn/lib/primitives/hash.h"
#include "frn/lib/primitives/prg.h"
#include "frn/lib/secret_sharing/additive.h"
#include "frn/lib/secret_sharing/rep.h"

#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <thread>

using namespace frn::lib;
using frn::Field;
using frn::Shr;
using F127 = math::FpElement<math::Mp127>;
using u64 = std::uint64_t;
using u128 = __uint128_t;
using Rep = secret_sharing::Replicator<Field>;
using Bytes = std::vector<unsigned char>;

static const u64 P61 = math::Mp61::kPrime;
static const u128 P127 = math::Mp127::kPrime;

#define CHECK(c)                                                   \
  do {                                                             \
    if (!(c)) {                                                    \
      std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c);  \
      std::_Exit(1);                                               \
    }                                                              \
  } while (0)

template <typename F>
static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

static unsigned free_base() {
  static unsigned next = 0;
  if (!next) next = 15000 + (unsigned)(getpid() * 7919u) % 14000;
  unsigned b = next;
  next += 300;
  return b;
}

// Runs f(network, id) for n parties over TCP, each in its own thread.
static void parties(unsigned n, const std::function<void(std::shared_ptr<frn::TcpNetwork>, unsigned)>& f) {
  unsigned base = free_base();
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      auto net = frn::TcpNetwork::CreateWithLocalParties(i, n, base, false);
      net->Connect();
      f(net, i);
      net->Close();
    });
  for (auto& t : ts) t.join();
}

static u64 val(const Field& f) { return std::stoull(f.ToString()); }

// Shares of several secrets: result[party][secret].
static std::vector<std::vector<Shr>> share_all(const Rep& rep, const std::vector<u64>& xs, unsigned char key = 9) {
  unsigned char seed[16] = {key, 1, 2};
  primitives::PRG prg(seed);
  std::vector<Field> v;
  for (auto x : xs) v.push_back(Field(x));
  return rep.Share(v, prg);
}
// Value of secret k; every party's shares in s[party][k].
static u64 open_all(const Rep& rep, const std::vector<std::vector<Shr>>& s, std::size_t k) {
  std::vector<Shr> v;
  for (auto& p : s) v.push_back(p[k]);
  return val(rep.ErrorDetection(v));
}
