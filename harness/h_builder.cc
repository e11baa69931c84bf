// C21: which configurations are built, and where the parties listen and connect.
// Linked with --wrap: no connection is made, the calls are only recorded.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <numeric>
#include <optional>

#include "frn/lib/logging/nowhere.h"
#include "frn/lib/net/builder.h"
#include "frn/tcp_network.h"
#include "mon.h"

namespace net = frn::lib::net;
using u64 = std::uint64_t;
using Builder = net::Network::Builder;

static void fail(const std::string& what, const std::string& d) { mon::violation("C21." + what, d); }

struct End {
  std::string ip;  // connecting: where to; listening: the address bound
  int port;
};
static std::vector<End> g_connects, g_binds;
static std::set<int> g_listening;
static std::map<int, int> g_bound;  // fd -> index in g_binds
static std::vector<int> g_accepts;  // fds accepted on
static std::string g_odd;

static End end_of(const sockaddr* a) {
  auto in = (const sockaddr_in*)a;
  char t[64] = "?";
  inet_ntop(AF_INET, &in->sin_addr, t, sizeof t);
  if (in->sin_family != AF_INET) g_odd += " family";
  return {t, ntohs(in->sin_port)};
}

extern "C" {
int __real_socket(int, int, int);
int __wrap_connect(int, const sockaddr* a, socklen_t) {
  g_connects.push_back(end_of(a));
  return 0;
}
int __wrap_bind(int fd, const sockaddr* a, socklen_t) {
  g_bound[fd] = (int)g_binds.size();
  g_binds.push_back(end_of(a));
  return 0;
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_listen(int fd, int) {
  if (!g_bound.count(fd)) g_odd += " listen-unbound";
  g_listening.insert(fd);
  return 0;
}
int __wrap_accept(int fd, sockaddr*, socklen_t*) {
  if (!g_listening.count(fd)) g_odd += " accept-not-listening";
  g_listening.erase(fd);
  g_bound.erase(fd);
  g_accepts.push_back(fd);
  return ::socket(AF_INET, SOCK_STREAM, 0);
}
}

struct Ends {
  std::vector<End> connects, binds;
};

// Has the network connect, and tells where.
template <typename N>
static Ends observe(N& nw, const std::string& id) {
  g_connects.clear();
  g_binds.clear();
  g_listening.clear();
  g_bound.clear();
  g_accepts.clear();
  g_odd.clear();
  nw.Connect();
  if (!g_odd.empty() || g_accepts.size() != g_binds.size()) fail("calls", id + ": odd sequence of calls" + g_odd);
  Ends e{g_connects, g_binds};
  nw.Close();
  return e;
}

static std::string scratch() {
  const char* s = getenv("VERIF_SCRATCH");
  return std::string(s ? s : "/tmp") + mon::cat("/builder-", getpid(), ".txt");
}

static void write_file(const std::vector<std::string>& lines, bool last_newline = true) {
  std::ofstream f(scratch());
  for (std::size_t i = 0; i < lines.size(); i++) f << lines[i] << (i + 1 < lines.size() || last_newline ? "\n" : "");
}

static std::string address(mon::Rng& g) {
  static const std::vector<std::string> fixed = {"127.0.0.1", "10.0.0.1", "255.255.255.254", "1.2.3.4", "192.168.100.200"};
  if (g.chance(1, 6)) return g.pick(fixed);
  return mon::cat(1 + g.below(254), ".", g.below(256), ".", g.below(256), ".", g.below(256));
}
static std::string bad_address(mon::Rng& g) {
  static const std::vector<std::string> v = {"localhost", "1.2.3", "256.1.1.1", "::1", "1.2.3.4.5", " 1.2.3.4", "1.2.3.4 ", "1.2.3.4\r", "nonsense",
                                             "1.2.3.-4", "1.2.3.4:80", "1,2,3,4", "01.2.3.4x", "1.2.3.", "a.b.c.d", "0x7f.0.0.1"};
  return g.pick(v);
}

// --- what a builder remembers --------------------------------------------------------

struct Model {
  std::optional<int> id;
  std::optional<std::size_t> n;
  std::optional<bool> tcp;
  std::optional<int> port;
  bool local = false;
  std::optional<std::vector<std::string>> ips;
};

static bool usable(const std::string& ip) {
  in_addr a;
  return inet_pton(AF_INET, ip.c_str(), &a) == 1;
}

// 1: must build, 0: must raise, -1: either
static int outcome(const Model& m, std::string* why) {
  auto no = [&](const char* w) {
    *why = w;
    return 0;
  };
  if (!m.id) return no("no identifier");
  if (!m.n) return no("no size");
  if (!m.tcp) return no("no transport");
  if (!*m.tcp) return no("unknown transport");
  if (*m.id < 0 || (std::size_t)*m.id >= *m.n) return no("identifier out of range");
  if (!m.local && !m.ips) return no("no addresses");
  bool doubt = false;
  if (m.ips && m.ips->size() != *m.n) {
    if (!m.local) return no("number of addresses");
    doubt = true;
  }
  if (!m.local)
    for (std::size_t j = 0; j < *m.n; j++)
      if (!usable((*m.ips)[j])) {
        if ((int)j < *m.id) return no("unusable address");
        doubt = true;  // it is not needed for anything
      }
  int base = m.port.value_or(net::Network::kBasePort);
  for (std::size_t j = 0; j < *m.n; j++) {
    if ((int)j == *m.id) continue;
    std::size_t lo = std::min<std::size_t>(j, (std::size_t)*m.id), hi = std::max<std::size_t>(j, (std::size_t)*m.id);
    if (base + lo * *m.n + hi > 65535) return no("port out of range");
  }
  return doubt ? -1 : 1;
}

enum Setting { kId, kSize, kType, kPort, kAddr, kSettings };

// One random builder: settings in any order, some repeated, some refused.
static void configuration(mon::Rng& g) {
  Builder b;
  Model m;
  std::string text;
  std::size_t n = g.chance(1, 12) ? g.below(80) : 1 + g.below(9);
  int id = n ? (int)g.below(n) : 0;
  int missing = g.chance(1, 6) ? (int)g.below(kSettings) : -1;
  std::vector<int> steps;
  for (int s = 0; s < kSettings; s++)
    if (s != missing && !(s == kPort && g.chance(1, 4))) steps.push_back(s);
  int noise = g.chance(1, 2) ? 0 : 1 + (int)g.below(3);
  for (int k = 0; k < noise; k++) steps.push_back((int)g.below(kSettings));
  g.shuffle(steps);
  bool odd = g.chance(1, 3);
  for (std::size_t k = 0; k < steps.size(); k++) {
    bool strange = odd && g.chance(1, 4);
    bool threw = false, want = false;
    std::string w;
    switch (steps[k]) {
      case kId: {
        int v = strange ? (int)g.range(-3, (std::int64_t)n + 3) : id;
        if (strange && g.chance(1, 6)) v = g.chance(1, 2) ? INT32_MIN : INT32_MAX;
        want = v < 0 || (m.n && (std::size_t)v >= *m.n);
        threw = mon::throws([&] { b.LocalPeerId(v); });
        if (!want) m.id = v;
        w = mon::cat("LocalPeerId(", v, ")");
        break;
      }
      case kSize: {
        std::size_t v = strange ? g.below(n + 4) : n;
        want = m.id && (std::size_t)*m.id >= v;
        threw = mon::throws([&] { b.Size(v); });
        if (!want) m.n = v;
        w = mon::cat("Size(", v, ")");
        break;
      }
      case kType: {
        bool tcp = !(strange && g.chance(1, 2));
        threw = mon::throws([&] { b.TransportType(tcp ? net::Network::TransportType::eTcp : net::Network::TransportType::eFake); });
        m.tcp = tcp;
        w = mon::cat("TransportType(", tcp ? "tcp" : "fake", ")");
        break;
      }
      case kPort: {
        static const std::vector<int> edges = {1024, 1025, 1026, 65535, 65536, 65534, 0, -1, 80, 70000, INT32_MAX, INT32_MIN, 65536 + 2000, -60000};
        int v = strange ? g.pick(edges) : g.chance(1, 5) ? 65535 - (int)g.below(2 * n * n + 2) : (int)g.range(1025, 64000);
        want = v < 1025 || v > 65535;
        threw = mon::throws([&] { b.BasePort(v); });
        if (!want) m.port = v;
        w = mon::cat("BasePort(", v, ")");
        break;
      }
      default: {
        if (g.chance(1, 3)) {
          threw = mon::throws([&] { b.AllPartiesLocal(); });
          m.local = true;
          w = "AllPartiesLocal()";
          break;
        }
        if (strange && g.chance(1, 5)) {
          want = true;
          threw = mon::throws([&] { b.ConnectionFile(scratch() + ".missing"); });
          w = "ConnectionFile(missing)";
          break;
        }
        std::size_t c = strange ? g.below(n + 3) : n;
        std::vector<std::string> ips;
        for (std::size_t j = 0; j < c; j++) ips.push_back(address(g));
        if (c && g.chance(1, 8)) ips[g.below(c)] = bad_address(g);
        write_file(ips, g.chance(1, 2));
        want = ips.empty() || (m.n && *m.n != c);
        threw = mon::throws([&] { b.ConnectionFile(scratch()); });
        if (!want) m.ips = ips;
        w = "ConnectionFile(";
        for (auto& ip : ips) w += ip + " ";
        w += ")";
      }
    }
    text += " " + w;
    mon::eval();
    if (threw != want) {
      fail("setting", mon::cat(text, threw ? " raised" : " was accepted"));
      return;
    }
    mon::count(want ? "settings_refused" : "settings_accepted");
    if (!want && g.chance(1, 10)) b = Builder(b);
  }
  std::string why;
  int want = outcome(m, &why);
  int got = -1;
  std::string what;
  mon::where() = text;
  int times = 1 + (g.chance(1, 5) ? 1 : 0);
  for (int k = 0; k < times; k++) {
    try {
      std::shared_ptr<net::Network> nw = g.chance(1, 2) ? b.BuildShared() : std::make_shared<net::Network>(b.Build());
      got = 1;
      mon::eval();
      if (nw->Size() != *m.n || nw->LocalPeerId() != *m.id)
        fail("other-network", mon::cat(text, ": built party ", nw->LocalPeerId(), " of ", nw->Size()));
      if (want == 1 && *m.n <= 12 && g.chance(1, 3)) {
        Ends e = observe(*nw, text);
        std::size_t below = (std::size_t)*m.id;
        mon::eval();
        if (e.connects.size() != below || e.binds.size() != *m.n - 1 - below)
          fail("ends", mon::cat(text, ": ", e.connects.size(), " connections and ", e.binds.size(), " listeners"));
        std::multiset<std::string> to, expect;
        for (auto& c : e.connects) to.insert(c.ip);
        for (std::size_t j = 0; j < below; j++) expect.insert(m.local ? "" : (*m.ips)[j]);
        if (m.local) {
          for (auto& c : e.connects)
            if (c.ip != "0.0.0.0" && c.ip.substr(0, 4) != "127.") fail("address", mon::cat(text, ": connects to ", c.ip));
        } else if (to != expect) {
          fail("address", mon::cat(text, ": does not connect to the addresses of its peers"));
        }
        mon::count("networks_observed");
      }
    } catch (const std::exception& e) {
      got = 0;
      what = e.what();
    }
    mon::eval();
    if (want >= 0 && got != want)
      fail(got ? "built" : "refused", mon::cat(text, got ? ": built although: " : ": refused: ", got ? why : what));
    mon::count(got ? "built" : "refused");
    if (!got && want == 0) mon::count("refused_" + why);
  }
  mon::distinct(mon::hash_str(text));
  mon::sample(text + (got ? " -> built" : " -> refused"));
}

// All orders of all subsets of the settings, for one configuration.
static void orders(mon::Rng& g) {
  std::size_t n = 2 + g.below(5);
  int id = (int)g.below(n), port = (int)g.range(2000, 60000);
  std::vector<std::string> ips;
  for (std::size_t j = 0; j < n; j++) ips.push_back(address(g));
  write_file(ips);
  bool local = g.chance(1, 2);
  for (int sub = 0; sub < 32; sub++) {
    std::vector<int> p;
    for (int s = 0; s < 5; s++)
      if (sub >> s & 1) p.push_back(s);
    do {
      Builder b;
      std::string text = mon::cat("n=", n, " id=", id, " order");
      for (int s : p) {
        text += mon::cat(" ", s);
        if (s == kId) b.LocalPeerId(id);
        if (s == kSize) b.Size(n);
        if (s == kType) b.TransportType(net::Network::TransportType::eTcp);
        if (s == kPort) b.BasePort(port);
        if (s == kAddr) local ? b.AllPartiesLocal() : b.ConnectionFile(scratch());
      }
      bool want = (sub | 1 << kPort) == 31;
      bool got = !mon::throws([&] {
        auto nw = b.Build();
        if (nw.Size() != n || nw.LocalPeerId() != id) fail("other-network", text);
      });
      mon::eval();
      if (got != want) fail(got ? "built" : "refused", text);
      mon::count("orders");
      mon::distinct(mon::hash_str(text));
    } while (std::next_permutation(p.begin(), p.end()));
  }
}

// All parties of a network: do their ends fit together?
static void pairs(mon::Rng& g) {
  std::size_t n = 1 + g.below(g.chance(1, 5) ? 40 : 16);
  int base = g.chance(1, 3) ? 1025 : g.chance(1, 3) ? 65535 - (int)((n < 2 ? 0 : (n - 2) * n) + (n ? n - 1 : 0)) : (int)g.range(1025, 60000);
  int kind = n >= 4 && n <= 16 && g.chance(1, 3) ? 2 : (int)g.below(2);
  std::vector<std::string> ips;
  std::set<std::string> used;
  while (ips.size() < n) {
    std::string a = address(g);
    if (used.insert(a).second) ips.push_back(a);
  }
  write_file(ips);
  bool default_port = g.chance(1, 6) && kind != 2;
  if (default_port) base = net::Network::kBasePort;
  std::string id = mon::cat(kind == 0 ? "addresses" : kind == 1 ? "local" : "TcpNetwork", " n=", n, " base=", base);
  mon::where() = id;
  std::vector<Ends> ends(n);
  for (std::size_t i = 0; i < n; i++) {
    if (kind == 2) {
      auto nw = frn::TcpNetwork::CreateWithLocalParties((unsigned)i, n, (unsigned)base, false);
      if (nw->Id() != i || nw->Size() != n) fail("other-network", id);
      ends[i] = observe(*nw, id);
    } else {
      Builder b;
      b.LocalPeerId((int)i).Size(n).TransportType(net::Network::TransportType::eTcp);
      if (!default_port) b.BasePort(base);
      if (kind)
        b.AllPartiesLocal();
      else
        b.ConnectionFile(scratch());
      auto nw = b.BuildShared();
      ends[i] = observe(*nw, id);
    }
  }
  std::set<int> ports;
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = i + 1; j < n; j++) {
      // the ports on which one of the two listens and to which the other connects
      std::vector<int> common;
      int listens = -1;
      for (auto ab : {std::pair<std::size_t, std::size_t>{i, j}, {j, i}})
        for (auto& l : ends[ab.first].binds)
          for (auto& c : ends[ab.second].connects)
            if (l.port == c.port && (kind || c.ip == ips[ab.first])) {
              common.push_back(l.port);
              listens = (int)ab.first;
              if (l.ip != "0.0.0.0" && !(kind && (l.ip.substr(0, 4) == "127.")) && l.ip != ips[ab.first]) fail("listen-address", id + ": listens at " + l.ip);
              if (kind && c.ip != "0.0.0.0" && c.ip.substr(0, 4) != "127.") fail("address", id + ": connects to " + c.ip);
            }
      mon::eval();
      mon::count("pairs");
      if (common.size() != 1) {
        fail("pair", mon::cat(id, ": parties ", i, " and ", j, " have ", common.size(), " links"));
        continue;
      }
      (void)listens;
      int p = common[0];
      if (!ports.insert(p).second) fail("same-port", mon::cat(id, ": port ", p, " is used by two pairs"));
      if (p < base || p > 65535) fail("port-range", mon::cat(id, ": port ", p));
    }
  for (std::size_t i = 0; i < n; i++) {
    mon::eval();
    if (ends[i].binds.size() + ends[i].connects.size() != n - 1)
      fail("ends", mon::cat(id, ": party ", i, " has ", ends[i].binds.size(), " listeners and ", ends[i].connects.size(), " connections"));
    std::set<int> own;
    for (auto& b : ends[i].binds) own.insert(b.port);
    if (own.size() != ends[i].binds.size()) fail("same-port", mon::cat(id, ": party ", i, " listens twice on a port"));
  }
  mon::distinct(mon::hash_str(id));
  mon::sample(id);
}

static void refusals() {
  for (unsigned n = 4; n <= 16; n++)
    for (unsigned id : {n, n + 1, 1000u, 4294967295u}) {
      mon::eval();
      if (!mon::throws([&] { frn::TcpNetwork::CreateWithLocalParties(id, n, 9000, false); }))
        fail("built", mon::cat("TcpNetwork n=", n, " id=", id));
    }
  for (unsigned port : {0u, 1u, 1024u, 65536u, 4294967295u, 65535u}) {
    mon::eval();
    if (!mon::throws([&] { frn::TcpNetwork::CreateWithLocalParties(0, 4, port, false); })) fail("built", mon::cat("TcpNetwork port=", port));
  }
}

static void body() {
  mon::watchdog(30);
  mon::Rng g(mon::base_seed());
  std::size_t r = mon::rounds(6000, 120000);
  refusals();
  for (std::size_t i = 0; i < r; i++) {
    configuration(g);
    if (i % 60 == 0) orders(g);
    if (i % 20 == 0) pairs(g);
  }
  unlink(scratch().c_str());
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
