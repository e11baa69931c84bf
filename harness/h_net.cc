// C17-C20 and C23: links, closing, setting up and tearing down, failing calls, and
// the communication summary.
#define VERIF_CHAOS_IMPL
#include <malloc.h>
#include <sys/mman.h>

#include <fstream>
#include <regex>

#include "frn/lib/secret_sharing/rep.h"
#include "frn/tcp_network.h"
#include "netkit.h"
#include "ref.h"

using namespace kit;
using frn::Field;
using frn::Shr;
using frn::TcpNetwork;
using CState = enum net::Connector::State;

static void fail(const std::string& what, const std::string& d) { mon::violation(mon::args().prop + "." + what, d); }

static u64 link_key(u64 round, unsigned from, unsigned to) { return mon::mix(round, from * 64 + to + 1); }

struct ChaosScope {
  ChaosScope(bool shorten, bool delay, int buffers = 0, long slowness = 1) {
    slow::factor() = slowness;
    chaos::state().shorten = shorten;
    chaos::state().delay = delay;
    chaos::state().buffers = buffers;
  }
  ~ChaosScope() {
    slow::factor() = 1;
    chaos::state().shorten = false;
    chaos::state().delay = false;
    chaos::state().buffers = 0;
  }
};

// Mostly the system's own, sometimes small ones, so that senders have to wait early.
static int buffers(mon::Rng& g) { return g.chance(1, 3) ? (int)(1 + g.below(40000)) : 0; }

// Receives n bytes of the stream `key` at `off` and compares. Guards around the buffer.
static bool recv_check(net::Network& nw, int peer, u64 key, u64 off, std::size_t n, std::string* why) {
  constexpr std::size_t G = 16;
  Bytes b(n + 2 * G, 0xA5);
  nw.RecvFrom(peer, b.data() + G, n);
  for (std::size_t i = 0; i < G; i++)
    if (b[i] != 0xA5 || b[n + G + i] != 0xA5) {
      *why = mon::cat("receiving ", n, " bytes wrote outside of the buffer");
      return false;
    }
  Bytes e = stream(key, off, n);
  if (n && std::memcmp(e.data(), b.data() + G, n)) {
    std::size_t i = 0;
    while (e[i] == b[G + i]) i++;
    *why = mon::cat("byte ", off + i, " differs (receive of ", n, " bytes at ", off, ")");
    return false;
  }
  return true;
}

// --- C17 -------------------------------------------------------------------------------

// How the sender and the receiver cut a link's stream into pieces.
static std::vector<std::size_t> cut(mon::Rng& g, std::size_t total) {
  std::vector<std::size_t> v;
  // now and then very many small ones
  std::size_t small = g.chance(1, 6) ? std::max<std::size_t>(1 + g.below(64), total / 50000) : 0;
  while (total) {
    std::size_t k = std::min(total, small ? 1 + g.below(small) : length(g));
    if (!small && g.chance(1, 20)) k = total;
    v.push_back(k);
    total -= k;
  }
  for (int i = (int)g.below(3); i > 0; i--) v.insert(v.begin() + (long)g.below(v.size() + 1), 0);
  return v;
}

static void links(mon::Rng& g, unsigned base, std::size_t n, bool big) {
  u64 key = g.u64();
  bool barrier = big || g.chance(1, 2), threads = g.chance(1, 2), broadcast = g.chance(1, 3);
  ChaosScope cs(g.chance(2, 3), g.chance(1, 4), buffers(g), slow::some(g));
  std::size_t sleeper = g.below(n);
  std::string id = mon::cat("links n=", n, " key=", key, big ? " big" : "", barrier ? " all sent first" : "",
                            threads ? " thread per direction" : "");
  mon::where() = id;
  std::vector<NetPtr> nets;
  for (std::size_t i = 0; i < n; i++) nets.push_back(make_net((int)i, n, (int)base));
  u64 pauses = g.u64();
  auto pause = [&](std::size_t i, int where) {
    mon::Rng h(mon::mix(pauses, (u64)where));
    if (i == sleeper && h.chance(1, 2)) slow::pause(h);
  };
  if (slow::on()) mon::count("rounds_with_slow_parties");
  for (auto& e : parallel(n, [&](std::size_t i) {
         pause(i, 1);
         nets[i]->Connect();
       }))
    if (!e.empty()) {
      fail("connect", id + ": " + e);
      return;
    }
  std::vector<std::vector<std::size_t>> total(n, std::vector<std::size_t>(n, 0));
  for (auto& r : total)
    for (auto& t : r) t = g.chance(1, 8) ? 0 : g.below(g.chance(1, n > 6 ? 30 : 4) ? 400000 : 8000);
  if (big) total[g.below(n)][g.below(n)] = 20000000 + g.below(5000000);
  // single messages of sizes the sources mention, and of powers of two
  std::vector<std::vector<std::size_t>> first(n, std::vector<std::size_t>(n, 0));
  if (!big && n <= 4 && mon::args().flavor == "o2" && g.chance(1, 12))
    for (int k = 0; k < 2; k++) {
      std::size_t a = g.below(n), b = g.below(n);
      std::size_t len = mon::near_constant(g, 200000, 6000000, ((std::size_t)1 << (16 + g.below(8))) - 2 + g.below(5), 1, 2);
      first[a][b] = len;
      total[a][b] = len + g.below(3000);
      mon::count("long_messages");
    }
  Barrier bar(n);
  std::vector<std::string> errors(n);
  std::mutex em;
  auto problem = [&](std::size_t i, const std::string& s) {
    std::lock_guard<std::mutex> l(em);
    if (errors[i].empty()) errors[i] = s;
  };
  u64 seed = g.u64();
  std::vector<int> order(n);  // in which the parties close
  for (std::size_t i = 0; i < n; i++) order[i] = (int)i;
  g.shuffle(order);
  auto sender = [&](std::size_t i) {
    mon::Rng h(mon::mix(seed, i));
    std::vector<std::vector<std::size_t>> plan(n);
    std::vector<std::size_t> off(n, 0), at(n, 0);
    for (std::size_t j = 0; j < n; j++) {
      plan[j] = cut(h, total[i][j] - first[i][j]);
      if (first[i][j]) plan[j].insert(plan[j].begin(), first[i][j]);
    }
    std::vector<std::size_t> live;
    for (std::size_t j = 0; j < n; j++)
      if (!plan[j].empty()) live.push_back(j);
    for (std::size_t pauses = 0; !live.empty();) {
      std::size_t x = h.below(live.size()), j = live[x], k = plan[j][at[j]++];
      Bytes m = stream(link_key(key, (unsigned)i, (unsigned)j), off[j], k);
      if (live.size() == 1 && pauses++ < 3) pause(i, 2);
      nets[i]->SendTo((int)j, m.data(), k);
      // the buffer is the caller's again
      std::fill(m.begin(), m.end(), 0xEE);
      off[j] += k;
      if (at[j] == plan[j].size()) live.erase(live.begin() + (long)x);
      mon::count("messages");
    }
    if (broadcast) {
      Bytes m = stream(mon::mix(key, 1000 + i), 0, 40);
      nets[i]->Broadcast(m.data(), m.size());
    }
  };
  auto receiver = [&](std::size_t i, std::size_t only) {
    mon::Rng h(mon::mix(seed, 1000 + i * n + (only < n ? only : 0)));
    std::vector<std::vector<std::size_t>> plan(n);
    std::vector<std::size_t> off(n, 0), at(n, 0), live;
    for (std::size_t j = 0; j < n; j++) {
      if (only < n && j != only) continue;
      plan[j] = cut(h, total[j][i]);
      if (!plan[j].empty()) live.push_back(j);
    }
    std::string why;
    pause(i, 3);
    while (!live.empty()) {
      std::size_t x = h.below(live.size()), j = live[x], k = plan[j][at[j]++];
      if (!recv_check(*nets[i], (int)j, link_key(key, (unsigned)j, (unsigned)i), off[j], k, &why)) {
        problem(i, mon::cat("from ", j, " to ", i, ": ", why));
        return;
      }
      off[j] += k;
      if (at[j] == plan[j].size()) live.erase(live.begin() + (long)x);
      mon::eval();
    }
    for (std::size_t j = 0; j < n && broadcast; j++) {
      if (only < n && j != only) continue;
      if (!recv_check(*nets[i], (int)j, mon::mix(key, 1000 + j), 0, 40, &why))
        problem(i, mon::cat("broadcast from ", j, " to ", i, ": ", why));
      mon::eval();
    }
  };
  auto thrown = parallel(n, [&](std::size_t i) {
    mon::where() = id;
    struct Leave {  // a party that fails must not leave the others waiting for it
      std::function<void()> f;
      ~Leave() { f(); }
    };
    if (barrier) {
      {
        Leave l{[&] { bar.wait(); }};
        sender(i);
      }
      if (threads)
        for (auto& e : parallel(n, [&](std::size_t j) { receiver(i, j); }))
          if (!e.empty()) problem(i, e);
      if (!threads) receiver(i, n);
    } else if (threads) {
      auto es = parallel(n + 1, [&](std::size_t j) {
        if (j == n)
          sender(i);
        else
          receiver(i, j);
      });
      for (auto& e : es)
        if (!e.empty()) problem(i, e);
    } else {
      sender(i);
      receiver(i, n);
    }
    mon::eval();
  });
  for (std::size_t i = 0; i < n; i++)
    if (errors[i].empty()) errors[i] = thrown[i];
  bool ok = true;
  for (auto& e : errors)
    if (!e.empty()) {
      fail("link", id + ": " + e);
      ok = false;
    }
  for (auto& r : total)
    for (auto t : r) mon::count("bytes", t);
  mon::count("links", n * n);
  mon::distinct(mon::mix(key, n));
  mon::sample(id);
  // Nothing more is on any link: at its end there is the end.
  std::vector<bool> closed(n, false);
  for (int i : order) {
    for (std::size_t j = 0; j < n && ok; j++)
      if (closed[j]) {
        unsigned char c = 0;
        bool t = mon::throws([&] { nets[(std::size_t)i]->RecvFrom((int)j, &c, 1); });
        mon::eval();
        if (!t) fail("surplus", mon::cat(id, ": party ", i, " got one more byte from ", j));
      }
    mon::throws([&] { nets[(std::size_t)i]->Close(); });
    closed[(std::size_t)i] = true;
    mon::eval();
  }
}

// Two ends in one process, with the local connector.
static void local_links(mon::Rng& g) {
  u64 key = g.u64();
  bool self = g.chance(1, 2), async = g.chance(1, 2);
  std::string id = mon::cat("local self=", self, " async=", async, " key=", key);
  mon::where() = id;
  auto x = net::LocalConnector::MakeBuffer(), y = net::LocalConnector::MakeBuffer();
  std::unique_ptr<net::Connector> ca, cb;
  if (self)
    ca = std::make_unique<net::LocalConnector>(x, x);
  else {
    ca = std::make_unique<net::LocalConnector>(x, y);
    cb = std::make_unique<net::LocalConnector>(y, x);
  }
  auto mk = [&](std::unique_ptr<net::Connector>& c) -> std::unique_ptr<net::Channel> {
    if (async) return std::make_unique<net::AsyncSenderChannel>(c);
    return std::make_unique<net::Channel>(c);
  };
  std::unique_ptr<net::Channel> A = mk(ca), B;
  A->Open();
  if (!self) {
    B = mk(cb);
    B->Open();
  }
  u64 ab = mon::mix(key, 1), ba = mon::mix(key, 2);
  std::size_t tab = g.below(60000), tba = self ? 0 : g.below(60000);
  auto pa = cut(g, tab), pb = cut(g, tba), ra = cut(g, tba), rb = cut(g, tab);
  auto send = [&](net::Channel& c, u64 k, std::vector<std::size_t>& p) {
    u64 off = 0;
    for (auto l : p) {
      Bytes m = stream(k, off, l);
      c.Send(m.data(), l);
      std::fill(m.begin(), m.end(), 0xEE);
      off += l;
    }
  };
  auto recv = [&](net::Channel& c, u64 k, std::vector<std::size_t>& p) {
    u64 off = 0;
    for (auto l : p) {
      Bytes m(l);
      c.Recv(m.data(), l);
      mon::eval();
      if (m != stream(k, off, l)) {
        fail("link", mon::cat(id, ": receive of ", l, " bytes at ", off, " differs"));
        return;
      }
      off += l;
    }
  };
  std::vector<std::function<void()>> jobs = {[&] { send(*A, ab, pa); }, [&] { recv(self ? *A : *B, ab, rb); }};
  if (!self) {
    jobs.push_back([&] { send(*B, ba, pb); });
    jobs.push_back([&] { recv(*A, ba, ra); });
  }
  std::vector<std::string> es;
  if (g.chance(1, 2)) {
    es = parallel(jobs.size(), [&](std::size_t i) { jobs[i](); });
  } else {  // everything is sent before anything is received
    for (std::size_t i : {(std::size_t)0, (std::size_t)2, (std::size_t)1, (std::size_t)3})
      if (i < jobs.size()) {
        std::string e;
        if (mon::throws(jobs[i], &e)) es.push_back(e);
      }
  }
  for (auto& e : es)
    if (!e.empty()) fail("link", id + ": " + e);
  if (x->Size() || y->Size())
    if (!async) fail("surplus", mon::cat(id, ": ", x->Size(), "+", y->Size(), " messages left in the buffers"));
  A->Close();
  if (B) B->Close();
  mon::count("local_links");
  mon::distinct(mon::mix(key, 99));
}

// --- typed links and the summary (C17, C23) ------------------------------------------------

struct Counted {
  std::shared_ptr<TcpNetwork> net;
  std::vector<u64> sent, received;
};

struct Cell {
  u64 sent = 0, received = 0;
  bool mentioned = false;
};

// Reads a summary: every line that speaks about traffic names a peer and byte counts.
static bool parse_summary(const std::string& text, std::size_t n, unsigned id, std::vector<Cell>* out, std::string* why) {
  out->assign(n, Cell());
  static const std::regex both("sent/received to/from (\\d+): (\\d+)/(\\d+) bytes"), s("sent to (\\d+): (\\d+) bytes"),
      r("received from (\\d+): (\\d+) bytes"), head("communication summary for (\\d+):");
  std::istringstream is(text);
  std::string line;
  bool seen_head = false;
  while (std::getline(is, line)) {
    std::smatch m;
    if (line.find_first_not_of(" \t\r") == std::string::npos) continue;
    std::vector<u64> v;
    if (std::regex_match(line, m, head)) {
      if (seen_head || std::stoull(m[1]) != id) {
        *why = "heading: " + line;
        return false;
      }
      seen_head = true;
      continue;
    }
    bool b = std::regex_match(line, m, both);
    bool os = !b && std::regex_match(line, m, s);
    bool orr = !b && !os && std::regex_match(line, m, r);
    if (!b && !os && !orr) {
      *why = "line: " + line;
      return false;
    }
    u64 p = std::stoull(m[1]);
    if (p >= n || (*out)[p].mentioned) {
      *why = "peer: " + line;
      return false;
    }
    (*out)[p].mentioned = true;
    if (b || os) (*out)[p].sent = std::stoull(m[2]);
    if (b) (*out)[p].received = std::stoull(m[3]);
    if (orr) (*out)[p].received = std::stoull(m[2]);
  }
  if (!seen_head) *why = "no heading in: " + text;
  return seen_head;
}

static std::mutex g_cout;
static std::string summary_text(const TcpNetwork& n) {
  std::lock_guard<std::mutex> l(g_cout);
  mon::CaptureBuf b;
  auto* old = std::cout.rdbuf(&b);
  n.PrintCommunicationSummary();
  std::cout.flush();
  std::cout.rdbuf(old);
  return b.take();
}

static void judge_summary(const Counted& c, std::size_t n, unsigned id, const std::string& what) {
  std::vector<Cell> cells;
  std::string why, text = summary_text(*c.net);
  mon::eval();
  if (!parse_summary(text, n, id, &cells, &why)) {
    fail("format", what + ": " + why);
    return;
  }
  for (std::size_t j = 0; j < n; j++) {
    mon::eval();
    mon::count(cells[j].mentioned ? "peers_with_traffic" : "peers_without_traffic");
    if (cells[j].sent != c.sent[j] || cells[j].received != c.received[j])
      fail("summary", mon::cat(what, ": party ", id, " reports ", cells[j].sent, "/", cells[j].received, " for peer ", j,
                               " instead of ", c.sent[j], "/", c.received[j]));
    else if (cells[j].mentioned != (c.sent[j] || c.received[j]))
      fail("summary-mention", mon::cat(what, ": party ", id, " peer ", j, " without traffic is mentioned"));
  }
}

static std::vector<Shr> to_shares(const std::vector<Field>& v, std::size_t size) {
  std::vector<Shr> r;
  for (std::size_t i = 0; i + size <= v.size(); i += size)
    r.push_back(Shr(std::vector<Field>(v.begin() + (long)i, v.begin() + (long)(i + size))));
  return r;
}

static void typed(mon::Rng& g, unsigned base, std::size_t n) {
  u64 key = g.u64();
  bool c23 = mon::args().prop == "C23";
  ChaosScope cs(g.chance(1, 2), g.chance(1, 4));
  std::string id = mon::cat("typed n=", n, " key=", key);
  mon::where() = id;
  std::vector<Counted> ps(n);
  for (std::size_t i = 0; i < n; i++) {
    ps[i].net = TcpNetwork::CreateWithLocalParties((unsigned)i, n, base, g.chance(1, 4));
    ps[i].sent.assign(n, 0);
    ps[i].received.assign(n, 0);
  }
  std::size_t share = frn::lib::secret_sharing::Replicator<Field>(n, (n - 1) / 3).ShareSize();
  for (auto& e : parallel(n, [&](std::size_t i) { ps[i].net->Connect(); }))
    if (!e.empty()) {
      fail("connect", id + ": " + e);
      return;
    }
  if (c23)
    for (std::size_t i = 0; i < n; i++) judge_summary(ps[i], n, (unsigned)i, id + " at the start");
  // elements of each link's stream, and how many are sent in this phase
  auto element = [&](std::size_t a, std::size_t b, u64 k) {
    u64 v = mon::mix(link_key(key, (unsigned)a, (unsigned)b), k);
    switch (v & 15) {
      case 0:
        v = 0;
        break;
      case 1:
        v = ref::P61 - 1;
        break;
      default:
        v = v % ref::P61;
    }
    unsigned char t[8];
    for (int i = 0; i < 8; i++) t[i] = (unsigned char)(v >> (8 * i));
    return Field::FromBytes(t);
  };
  auto some = [&](std::size_t a, std::size_t b, u64 from, u64 to) {
    std::vector<Field> v;
    for (u64 k = from; k < to; k++) v.push_back(element(a, b, k));
    return v;
  };
  auto bytes = [&](const std::vector<Field>& v) {
    Bytes b(v.size() * 8);
    for (std::size_t i = 0; i < v.size(); i++) v[i].ToBytes(b.data() + 8 * i);
    return b;
  };
  std::vector<std::vector<u64>> done(n, std::vector<u64>(n, 0));
  int phases = 1 + (int)g.below(3);
  for (int ph = 0; ph < phases; ph++) {
    std::vector<std::vector<u64>> cnt(n, std::vector<u64>(n, 0));
    double quiet = g.below(4) / 4.0;
    for (auto& r : cnt)
      for (auto& c : r) c = (g.below(1000) < 1000 * quiet) ? 0 : g.below(g.chance(1, 10) ? 40000 : 400);
    u64 seed = g.u64();
    Barrier bar(n);
    bool barrier = g.chance(1, 2);
    auto es = parallel(n, [&](std::size_t i) {
      mon::Rng h(mon::mix(seed, i));
      TcpNetwork& nw = *ps[i].net;
      try {
        std::vector<u64> at(n, 0), live;
        for (std::size_t j = 0; j < n; j++)
          if (cnt[i][j]) live.push_back(j);
        while (!live.empty()) {
          std::size_t x = h.below(live.size()), j = live[x];
          u64 left = cnt[i][j] - at[j], k = std::min<u64>(left, h.chance(1, 8) ? 0 : 1 + h.below(h.chance(1, 6) ? 9000 : 60));
          u64 from = done[i][j] + at[j];
          int kind = (int)h.below(3);
          if (kind == 2) k = std::min(left / share, k / share + 1) * share;
          auto v = some(i, j, from, from + k);
          if (kind == 0) {
            nw.Send((unsigned)j, v);
          } else if (kind == 1) {
            Bytes b = bytes(v);
            std::size_t c = h.below(b.size() + 1);
            nw.SendBytes((unsigned)j, Bytes(b.begin(), b.begin() + (long)c));
            nw.SendBytes((unsigned)j, Bytes(b.begin() + (long)c, b.end()));
          } else {
            nw.SendShares((unsigned)j, to_shares(v, share));
          }
          std::fill(v.begin(), v.end(), Field(7));
          ps[i].sent[j] += 8 * k;
          at[j] += k;
          mon::count(kind == 0 ? "sends_elements" : kind == 1 ? "sends_bytes" : "sends_shares");
          if (at[j] == cnt[i][j]) live.erase(live.begin() + (long)x);
        }
      } catch (...) {
        if (barrier) bar.wait();
        throw;
      }
      if (barrier) {
        bar.wait();
        if (c23) judge_summary(ps[i], n, (unsigned)i, mon::cat(id, " phase ", ph, " sent"));
      }
      std::vector<u64> at(n, 0), live;  // bytes
      for (std::size_t j = 0; j < n; j++)
        if (cnt[j][i]) live.push_back(j);
      while (!live.empty()) {
        std::size_t x = h.below(live.size()), j = live[x];
        u64 left = 8 * cnt[j][i] - at[j];
        int kind = at[j] % 8 ? 1 : (int)h.below(3);
        u64 el = done[j][i] + at[j] / 8, k = 0;
        bool ok = true;
        if (kind == 0) {
          k = std::min<u64>(left / 8, h.chance(1, 8) ? 0 : 1 + h.below(h.chance(1, 6) ? 9000 : 60));
          ok = nw.Recv((unsigned)j, k) == some(j, i, el, el + k);
          k *= 8;
        } else if (kind == 1) {
          k = std::min<u64>(left, h.chance(1, 8) ? 0 : 1 + h.below(h.chance(1, 6) ? 70000 : 500));
          if (h.chance(1, 3) && at[j] % 8) k = std::min(left, 8 - at[j] % 8);
          Bytes e = bytes(some(j, i, el, el + (at[j] % 8 + k + 7) / 8));
          Bytes got = nw.RecvBytes((unsigned)j, k);
          ok = got.size() == k && std::equal(got.begin(), got.end(), e.begin() + (long)(at[j] % 8));
        } else {
          u64 c = std::min<u64>(left / 8 / share, h.below(5));
          k = 8 * share * c;
          auto got = nw.RecvShares((unsigned)j, c);
          auto e = to_shares(some(j, i, el, el + share * c), share);
          ok = got.size() == e.size();
          for (std::size_t q = 0; ok && q < e.size(); q++)
            ok = static_cast<const std::vector<Field>&>(got[q]) == static_cast<const std::vector<Field>&>(e[q]);
        }
        mon::eval();
        mon::count(kind == 0 ? "receives_elements" : kind == 1 ? "receives_bytes" : "receives_shares");
        if (!ok) {
          if (!c23) fail("typed", mon::cat(id, ": from ", j, " to ", i, " at byte ", 8 * done[j][i] + at[j], " kind ", kind));
          return;
        }
        at[j] += k;
        ps[i].received[j] += k;
        mon::count("bytes", k);
        if (at[j] == 8 * cnt[j][i]) live.erase(live.begin() + (long)x);
      }
    });
    for (auto& e : es)
      if (!e.empty()) {
        fail("typed", id + ": " + e);
        return;
      }
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++) done[i][j] += cnt[i][j];
    if (c23) {
      std::vector<std::vector<Cell>> all(n);
      std::string why;
      for (std::size_t i = 0; i < n; i++) {
        judge_summary(ps[i], n, (unsigned)i, mon::cat(id, " after phase ", ph));
        if (!parse_summary(summary_text(*ps[i].net), n, (unsigned)i, &all[i], &why)) all[i].assign(n, Cell());
      }
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++) {
          mon::eval();
          if (all[i][j].sent != all[j][i].received)
            fail("ends-disagree", mon::cat(id, ": ", i, " sent ", all[i][j].sent, " to ", j, ", which received ", all[j][i].received));
        }
    }
    mon::distinct(mon::mix(seed, 3));
  }
  mon::sample(id);
  bool lost = c23 && g.chance(1, 2);
  if (lost) {  // what did not arrive was not received
    std::size_t a = g.below(n), b = (a + 1 + g.below(n - 1)) % n;
    Bytes some_bytes(g.below(50));
    ps[b].net->SendBytes((unsigned)a, some_bytes);
    ps[b].sent[a] += some_bytes.size();
    ps[b].net->Close();
    if (some_bytes.size() && g.chance(1, 2)) {
      ps[a].net->RecvBytes((unsigned)b, some_bytes.size());
      ps[a].received[b] += some_bytes.size();
      some_bytes.clear();
    }
    std::size_t more = some_bytes.size() + 1 + g.below(100);
    bool t = g.chance(1, 2) ? mon::throws([&] { ps[a].net->RecvBytes((unsigned)b, more); })
                            : mon::throws([&] { ps[a].net->Recv((unsigned)b, more); });
    if (t) {
      mon::count("failed_receives");
      judge_summary(ps[a], n, (unsigned)a, id + " after a failed receive");
    }
    for (std::size_t i = 0; i < n; i++)
      if (i != b) mon::throws([&] { ps[i].net->Close(); });
    return;
  }
  parallel(n, [&](std::size_t i) { ps[i].net->Close(); });
  if (c23)
    for (std::size_t i = 0; i < n; i++) judge_summary(ps[i], n, (unsigned)i, id + " closed");
}

// Lists of more than a million elements and of several hundred thousand shares, as such and
// as bytes.
static void long_lists(mon::Rng& g, unsigned base) {
  bool c23 = mon::args().prop == "C23";
  const std::size_t n = 4;
  u64 key = g.u64();
  std::vector<Counted> ps(n);
  for (std::size_t i = 0; i < n; i++) {
    ps[i].net = TcpNetwork::CreateWithLocalParties((unsigned)i, n, base, false);
    ps[i].sent.assign(n, 0);
    ps[i].received.assign(n, 0);
  }
  std::size_t share = frn::lib::secret_sharing::Replicator<Field>(n, 1).ShareSize();
  parallel(n, [&](std::size_t i) { ps[i].net->Connect(); });
  auto some = [&](u64 k, int r) {
    std::vector<Field> v;
    v.reserve(k);
    for (u64 i = 0; i < k; i++) {
      u64 x = mon::mix(key + (u64)r, i) % ref::P61;
      unsigned char t[8];
      std::memcpy(t, &x, 8);
      v.push_back(Field::FromBytes(t));
    }
    return v;
  };
  std::vector<u64> sizes;
  for (int r = 0; r < 5; r++) sizes.push_back((r == 4 ? 140000 : 1050000 + g.below(60000)) / share * share);
  auto es = parallel(n, [&](std::size_t i) {
    if (i != 2 && i != 3) return;
    for (int r = 0; r < 5; r++) {
      auto v = some(sizes[(std::size_t)r], r);
      Bytes b(8 * v.size());
      for (std::size_t k = 0; k < v.size(); k++) v[k].ToBytes(b.data() + 8 * k);
      auto& nw = *ps[i].net;
      const std::string id = mon::cat("long lists ", v.size(), " elements, way ", r, " key=", key);
      if (i == 2) {
        if (r == 0 || r == 1)
          nw.Send(3, v);
        else if (r == 2)
          nw.SendBytes(3, b);
        else
          nw.SendShares(3, to_shares(v, share));
        ps[i].sent[3] += b.size();
      } else {
        bool ok;
        if (r == 0 || r == 2) {
          ok = nw.Recv(2, v.size()) == v;
        } else if (r == 1) {
          ok = nw.RecvBytes(2, b.size()) == b;
        } else {
          auto got = nw.RecvShares(2, v.size() / share);
          ok = got.size() == v.size() / share;
          for (std::size_t k = 0; ok && k < v.size(); k++) ok = static_cast<const std::vector<Field>&>(got[k / share]).at(k % share) == v[k];
        }
        ps[i].received[2] += b.size();
        if (!ok && !c23) fail("typed", id);
      }
      mon::eval();
    }
  });
  for (auto& e : es)
    if (!e.empty()) fail("typed", mon::cat("long lists key=", key, ": ", e));
  mon::count("long_lists");
  if (c23)
    for (std::size_t i = 2; i < n; i++) judge_summary(ps[i], n, (unsigned)i, "long lists");
  parallel(n, [&](std::size_t i) { ps[i].net->Close(); });
}

// More than 2^32 bytes.
static void much(unsigned base) {
  std::size_t n = 4;
  Counted c;
  c.net = TcpNetwork::CreateWithLocalParties(0, n, base, false);
  std::vector<std::shared_ptr<TcpNetwork>> rest;
  for (unsigned i = 1; i < n; i++) rest.push_back(TcpNetwork::CreateWithLocalParties(i, n, base, false));
  c.sent.assign(n, 0);
  c.received.assign(n, 0);
  parallel(n, [&](std::size_t i) { i ? rest[i - 1]->Connect() : c.net->Connect(); });
  // (reusing the memory makes this several times faster)
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  mallopt(M_TRIM_THRESHOLD, 1 << 30);
  Bytes m(64u << 20, 0x5A);
  for (int k = 0; k < 67; k++) {
    c.net->SendBytes(0, m);
    c.sent[0] += m.size();
    if (c.net->RecvBytes(0, m.size()).size() != m.size()) return;
    c.received[0] += m.size();
    mon::eval();
  }
  judge_summary(c, n, 0, "more than 4 GB");
  mon::count("beyond_4GB");
  mon::sample(mon::cat("self link with ", c.sent[0], " bytes"));
  parallel(n, [&](std::size_t i) { i ? rest[i - 1]->Close() : c.net->Close(); });
}

// Records where transfers take place, without touching the memory.
struct Ledger : net::SystemInterface {
  std::size_t most;
  const unsigned char* next = nullptr;  // where the transfer has to go on
  u64 done = 0;
  bool bad = false;
  mon::Rng g{3};
  explicit Ledger(std::size_t m) : most(m) {}
  ssize_t move(const void* p, std::size_t n) {
    auto b = static_cast<const unsigned char*>(p);
    bad = bad || b != next;
    std::size_t k = std::min<std::size_t>(n, most - g.below(100));
    next = b + k;
    done += k;
    mon::eval();
    return (ssize_t)k;
  }
  ssize_t write(int, const void* p, std::size_t n) override { return move(p, n); }
  ssize_t read(int, void* p, std::size_t n) override { return move(p, n); }
  int close(int) override { return 0; }
  int get_errno() override { return 0; }
};
struct Lone : net::TCPConnector {
  explicit Lone(std::shared_ptr<net::SystemInterface> s) : TCPConnector(s) {}
  void EstablishConnection() override {}
  std::string ToString() const override { return "lone"; }
};

// Transfers of gigabytes through connector and channel, on memory that is never there.
static void gigabytes(mon::Rng& g) {
  constexpr std::size_t room = (std::size_t)10 << 30;
  void* m = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) {
    mon::count("no_address_space");
    return;
  }
  auto p = static_cast<unsigned char*>(m);
  for (int k = 0; k < 40; k++) {
    std::size_t n = ((std::size_t)1 << (29 + g.below(5))) + (g.chance(1, 3) ? g.below(1u << 29) : g.below(9)) - 4;
    std::size_t most = (std::size_t)1 << (24 + g.below(10));
    bool send = g.chance(1, 2), chan = g.chance(1, 2);
    const std::string id = mon::cat(chan ? "channel" : "connector", send ? " sends " : " receives ", n, " in parts of about ", most);
    mon::where() = id;
    auto s = std::make_shared<Ledger>(most);
    s->next = p;
    std::unique_ptr<net::Connector> c = std::make_unique<Lone>(s);
    if (chan) {
      net::Channel ch(c);
      ch.Open();
      send ? ch.Send(p, n) : ch.Recv(p, n);
    } else {
      c->Connect();
      std::int64_t r = send ? c->Send(p, n) : c->Recv(p, n);
      if (r != (std::int64_t)n) fail("gigabytes", mon::cat(id, " returned ", r));
    }
    mon::eval();
    if (s->bad || s->done != n) fail("gigabytes", mon::cat(id, ": ", s->done, s->bad ? " bytes, not in order" : " bytes"));
    mon::count("transfers_of_gigabytes");
  }
  munmap(m, room);
}

// One message beyond 2 GB on the way from a party to itself, all of it compared.
static void one_long_message(unsigned base) {
  std::ifstream f("/proc/meminfo");
  for (std::string l; std::getline(f, l);)
    if (l.rfind("MemAvailable:", 0) == 0 && std::stoull(l.substr(13)) < (16ull << 20)) {
      mon::count("not_enough_memory");
      return;
    }
  const std::size_t size = ((std::size_t)1 << 31) + 12345;
  Counted c;
  std::size_t n = 4;
  std::vector<std::shared_ptr<TcpNetwork>> nets;
  for (unsigned i = 0; i < n; i++) nets.push_back(TcpNetwork::CreateWithLocalParties(i, n, base, false));
  parallel(n, [&](std::size_t i) { nets[i]->Connect(); });
  c.net = nets[0];
  c.sent.assign(n, 0);
  c.received.assign(n, 0);
  const std::string id = mon::cat("one message of ", size, " bytes");
  mon::where() = id;
  // every word differs from those before it; cheap to make and to check
  auto word = [](std::size_t k) { return (u64)k * 0x9E3779B97F4A7C15ull + 77; };
  {
    Bytes m(size);
    for (std::size_t k = 0; k < size / 8; k++) {
      u64 w = word(k);
      std::memcpy(&m[k * 8], &w, 8);
    }
    mon::eval();
    nets[0]->SendBytes(0, m);
  }
  std::atomic<bool> arrived{false};
  std::thread beat([&] {  // the transfer is one step
    for (int k = 0; k < 600 && !arrived; k++) {
      usleep(200000);
      mon::eval();
    }
  });
  {
    Bytes r = nets[0]->RecvBytes(0, size);
    arrived = true;
    bool ok = r.size() == size;
    for (std::size_t k = 0; ok && k < size / 8; k++) {
      u64 w;
      std::memcpy(&w, &r[k * 8], 8);
      ok = w == word(k);
    }
    mon::eval();
    if (!ok) fail("long-message", id);
  }
  beat.join();
  c.sent[0] = c.received[0] = size;
  judge_summary(c, n, 0, id);
  mon::count("messages_beyond_2GB");
  mon::sample(id);
  parallel(n, [&](std::size_t i) { nets[i]->Close(); });
}

// --- C18 -------------------------------------------------------------------------------

static void close_after_send(mon::Rng& g, unsigned base, bool big) {
  std::size_t n = 2 + (g.chance(1, 8) ? g.below(11) : g.below(3));
  u64 key = g.u64();
  std::size_t late = g.below(n);
  ChaosScope cs(g.chance(1, 2), g.chance(1, 4), buffers(g), slow::some(g, 4));
  if (slow::on()) mon::count("rounds_with_slow_parties");
  std::string id = mon::cat("close n=", n, " key=", key, " late=", late, big ? " big" : "");
  mon::where() = id;
  std::vector<NetPtr> nets;
  for (std::size_t i = 0; i < n; i++) nets.push_back(make_net((int)i, n, (int)base));
  parallel(n, [&](std::size_t i) { nets[i]->Connect(); });
  std::vector<std::vector<std::size_t>> total(n, std::vector<std::size_t>(n, 0));
  for (auto& r : total)
    for (auto& t : r) t = g.chance(1, 6) ? 0 : g.below(g.chance(1, 4) ? 300000 : 5000);
  if (big)
    for (std::size_t i = 0; i < n; i++) total[i][late] = 3000000 + g.below(9000000);
  u64 seed = g.u64();
  auto es = parallel(n, [&](std::size_t i) {
    mon::Rng h(mon::mix(seed, i));
    std::string why;
    for (std::size_t j = 0; j < n; j++) {
      u64 off = 0;
      for (auto k : cut(h, total[i][j])) {
        Bytes m = stream(link_key(key, (unsigned)i, (unsigned)j), off, k);
        nets[i]->SendTo((int)j, m.data(), k);
        off += k;
      }
    }
    if (i == late) usleep((useconds_t)h.below(60000));
    if (i == late) slow::pause(h);
    std::vector<std::size_t> from(n);
    for (std::size_t j = 0; j < n; j++) from[j] = j;
    h.shuffle(from);
    for (auto j : from) {
      u64 off = 0;
      for (auto k : cut(h, total[j][i])) {
        if (i == late && h.chance(1, 50)) usleep((useconds_t)h.below(3000));
        if (!recv_check(*nets[i], (int)j, link_key(key, (unsigned)j, (unsigned)i), off, k, &why))
          throw std::runtime_error(mon::cat("from ", j, " to ", i, ": ", why));
        off += k;
        mon::eval();
      }
    }
    if (i == late) {
      for (std::size_t j : from) {
        if (j == i) continue;
        Bytes b(1 + h.below(5000));
        mon::eval();
        if (!mon::throws([&] { nets[i]->RecvFrom((int)j, b.data(), b.size()); }))
          throw std::runtime_error(mon::cat("receive past the end from ", j, " returned"));
        mon::count("receives_past_end");
      }
      mon::throws([&] { nets[i]->Close(); });
    } else if (h.chance(1, 2)) {
      nets[i]->Close();
    } else {
      nets[i].reset();
    }
    if (nets[i]) {
      // nothing can be received through a closed network
      std::size_t j = (i + 1) % n;
      Bytes b(1 + h.below(20));
      mon::eval();
      if (!mon::throws([&] { nets[i]->RecvFrom((int)j, b.data(), b.size()); }))
        throw std::runtime_error("receive on a closed network returned");
    }
    mon::eval();
  });
  for (auto& e : es)
    if (!e.empty()) fail("close", id + ": " + e);
  for (auto& r : total)
    for (auto t : r) mon::count("bytes", t);
  mon::count("closings", n);
  mon::distinct(key);
  mon::sample(id);
}

// A peer (a plain socket) that goes away in many ways.
static void lost_peer(mon::Rng& g, unsigned base) {
  int me = (int)g.below(2);  // 0 listens, 1 connects
  int how = (int)g.below(6);
  bool early = g.chance(1, 3);  // gone before we receive
  long slowness = slow::some(g);
  std::size_t sends = g.chance(1, 5) ? 0 : g.below(g.chance(1, 3) ? 300000 : 3000);
  std::size_t wesend = g.chance(1, 2) ? 0 : g.below(g.chance(1, 3) ? 4000000 : 3000);
  u64 key = g.u64();
  ChaosScope cs(g.chance(1, 2), false, buffers(g), slowness);
  std::string id = mon::cat("lost peer me=", me, " how=", how, " early=", early, " sends=", sends, " wesend=", wesend, " key=", key);
  mon::where() = id;
  unsigned port = base + 1;  // server 0, client 1, n = 2
  std::atomic<bool> gone{false};
  int lfd = me == 1 ? raw_listen(port) : -1;
  std::thread peer([&, seed = g.u64()] {
    chaos::off() = true;
    slow::outside() = true;
    mon::Rng h(seed);
    int fd = me == 1 ? raw_accept(lfd) : raw_connect(port);
    slow::pause(h);
    Bytes m = stream(key, 0, sends);
    raw_send(fd, m.data(), m.size());
    if (!early) usleep((useconds_t)h.below(15000));
    // what it reads of what we send
    Bytes in(wesend);
    std::size_t reads = how >= 3 ? h.below(wesend + 1) : wesend;
    if (how < 3 || h.chance(1, 2)) raw_recv(fd, in.data(), how < 3 ? wesend : reads);
    switch (how) {
      case 0:  // orderly
        __real_close(fd);
        break;
      case 1:  // half closed for a while
        shutdown(fd, SHUT_WR);
        gone = true;
        usleep((useconds_t)h.below(20000));
        __real_close(fd);
        break;
      case 2:
        shutdown(fd, SHUT_RDWR);
        gone = true;
        __real_close(fd);
        break;
      case 3:
      case 4:  // reset
        raw_reset(fd);
        break;
      default:  // with unread data
        __real_close(fd);
    }
    gone = true;
  });
  // Orderly: everything arrives. Otherwise it may be cut short, but is never wrong.
  bool orderly = how < 3;
  auto nw = make_net(me, 2, (int)base);
  nw->Connect();
  for (u64 off = 0; off < wesend;) {
    std::size_t k = std::min<u64>(wesend - off, 1 + length(g));
    Bytes m = stream(key + 1, off, k);
    nw->SendTo(1 - me, m.data(), k);
    off += k;
  }
  if (early)
    while (!gone) usleep(200);
  u64 off = 0;
  bool raised = false;
  std::string why;
  std::size_t ask_beyond = 1 + g.below(4000);
  bool whole = g.chance(1, 4);
  while (!raised) {
    std::size_t k = whole ? sends + ask_beyond : off < sends ? std::min<u64>(sends - off, length(g)) : ask_beyond;
    if (!whole && off < sends && g.chance(1, 20)) k = sends - off + ask_beyond;
    Bytes b(k);
    raised = mon::throws([&] { nw->RecvFrom(1 - me, b.data(), k); });
    mon::eval();
    if (raised) break;
    if (off + k > sends) {
      fail("made-up", mon::cat(id, ": receive of ", k, " bytes at ", off, " returned"));
      break;
    }
    if (b != stream(key, off, k)) {
      fail("wrong-data", mon::cat(id, ": receive of ", k, " bytes at ", off));
      break;
    }
    off += k;
    mon::count("bytes", k);
    if (raised && orderly && !whole && off + k <= sends) break;
  }
  if (raised && orderly && !whole && off < sends) {
    // only a receive that asked for more than there was may fail
    mon::count("receives_cut");
  }
  if (raised) {
    for (int k = 0; k < 2; k++) {
      Bytes b(1 + g.below(100));
      mon::eval();
      if (!mon::throws([&] { nw->RecvFrom(1 - me, b.data(), b.size()); })) {
        // what was left over may still be read
        if (off + b.size() > sends) fail("made-up", id + ": a receive after the error returned");
        break;
      }
    }
  }
  mon::count(orderly ? "orderly_ends" : "resets");
  peer.join();
  if (lfd >= 0) __real_close(lfd);
  if (g.chance(1, 2)) mon::throws([&] { nw->Close(); });
  nw.reset();
  mon::eval();
  mon::distinct(mon::mix(key, how));
  mon::sample(id);
}

// With an orderly end every byte arrives, in pieces that fit.
static void orderly_peer(mon::Rng& g, unsigned base) {
  int me = (int)g.below(2);
  std::size_t sends = g.below(g.chance(1, 3) ? 2000000 : 5000);
  u64 key = g.u64();
  ChaosScope cs(g.chance(1, 2), false, buffers(g), slow::some(g));
  u64 seed = g.u64();
  std::string id = mon::cat("orderly peer me=", me, " sends=", sends, " key=", key);
  mon::where() = id;
  unsigned port = base + 1;
  int lfd = me == 1 ? raw_listen(port) : -1;
  std::thread peer([&] {
    chaos::off() = slow::outside() = true;
    mon::Rng h(seed);
    int fd = me == 1 ? raw_accept(lfd) : raw_connect(port);
    Bytes m = stream(key, 0, sends);
    slow::pause(h);
    std::size_t k = h.below(sends + 1);
    raw_send(fd, m.data(), k);
    slow::pause(h);
    raw_send(fd, m.data() + k, m.size() - k);
    __real_close(fd);
  });
  auto nw = make_net(me, 2, (int)base);
  nw->Connect();
  std::string why;
  u64 off = 0;
  bool ok = true;
  try {
    for (auto k : cut(g, sends)) {
      if (!recv_check(*nw, 1 - me, key, off, k, &why)) {
        fail("wrong-data", id + ": " + why);
        ok = false;
        break;
      }
      off += k;
      mon::eval();
    }
  } catch (const std::exception& e) {
    fail("lost-data", mon::cat(id, ": at ", off, ": ", e.what()));
    ok = false;
  }
  if (ok) {
    Bytes b(1 + g.below(100));
    mon::eval();
    if (!mon::throws([&] { nw->RecvFrom(1 - me, b.data(), b.size()); })) fail("made-up", id + ": receive past the end returned");
  }
  peer.join();
  if (lfd >= 0) __real_close(lfd);
  mon::count("bytes", off);
  mon::distinct(key);
}

// --- C19 -------------------------------------------------------------------------------

enum class Down { kClose, kDestroy, kPeerLost, kPending };

static bool tags(std::vector<NetPtr>& nets, u64 key, std::string* why) {
  std::size_t n = nets.size();
  auto es = parallel(n, [&](std::size_t i) {
    for (std::size_t j = 0; j < n; j++) {
      Bytes m = stream(link_key(key, (unsigned)i, (unsigned)j), 0, 24);
      nets[i]->SendTo((int)j, m.data(), m.size());
    }
    std::string w;
    for (std::size_t j = 0; j < n; j++) {
      mon::eval();
      if (!recv_check(*nets[i], (int)j, link_key(key, (unsigned)j, (unsigned)i), 0, 24, &w)) {
        throw std::runtime_error(mon::cat("the link of ", i, " and ", j, " does not join them"));
      }
    }
  });
  for (auto& e : es)
    if (!e.empty()) {
      *why = e;
      return false;
    }
  return true;
}

// One life of a network: starts in the given order, is used, goes down.
static void life(mon::Rng& g, unsigned base, std::size_t n, const std::vector<int>& delays, const std::string& order) {
  u64 key = g.u64();
  Down down = (Down)g.below(4);
  bool shared_thread = g.chance(1, 3);  // all are torn down by one thread
  bool churn = g.chance(1, 2);
  bool tcpnet = n >= 4 && n <= 16 && g.chance(1, 3);  // the tables of more parties are huge
  std::string id = mon::cat("life n=", n, " order=", order, " down=", (int)down, " churn=", churn, " one=", shared_thread, " tcpnet=", tcpnet, " key=", key);
  mon::where() = id;
  Sentinels outer;
  outer.open(2);
  Baseline before;
  std::string why;
  ChaosScope cs(false, g.chance(1, 2), 0, slow::some(g));
  std::size_t sleeper = g.below(n);
  if (slow::on()) mon::count("lives_with_slow_parties");
  {
    std::vector<NetPtr> nets;
    std::vector<std::shared_ptr<TcpNetwork>> tnets;
    if (tcpnet)
      for (std::size_t i = 0; i < n; i++) tnets.push_back(TcpNetwork::CreateWithLocalParties((unsigned)i, n, base, false));
    else
      for (std::size_t i = 0; i < n; i++) nets.push_back(make_net((int)i, n, (int)base));
    u64 seed = g.u64();
    auto es = parallel(n, [&](std::size_t i) {
      if (delays[i]) usleep((useconds_t)delays[i]);
      mon::Rng h(mon::mix(seed, 5000 + i));
      if (i == sleeper) slow::pause(h);
      tcpnet ? tnets[i]->Connect() : nets[i]->Connect();
    });
    for (auto& e : es)
      if (!e.empty()) fail("connect", id + ": " + e);
    mon::count("networks", n);
    bool up = true;
    for (auto& e : es) up = up && e.empty();
    if (up && tcpnet) {
      auto es2 = parallel(n, [&](std::size_t i) {
        for (unsigned j = 0; j < n; j++) tnets[i]->SendBytes(j, stream(link_key(key, (unsigned)i, j), 0, 24));
        for (unsigned j = 0; j < n; j++) {
          mon::eval();
          if (tnets[i]->RecvBytes(j, 24) != stream(link_key(key, j, (unsigned)i), 0, 24))
            throw std::runtime_error(mon::cat("the link of ", i, " and ", j, " does not join them"));
        }
      });
      for (auto& e : es2)
        if (!e.empty()) fail("links", id + ": " + e);
      auto bring_down = [&](std::size_t i) {
        if (down == Down::kClose) tnets[i]->Close();
        if (down != Down::kClose || churn) tnets[i].reset();
        mon::eval();
      };
      if (shared_thread)
        for (std::size_t i = 0; i < n; i++) bring_down(i);
      else
        parallel(n, bring_down);
      if (down == Down::kClose && !churn) {
        mon::eval();
        if (!before.restored(&why)) fail("left-behind", id + ": after closing:" + why);
      }
    } else if (up) {
      if (!tags(nets, key, &why)) fail("links", id + ": " + why);
      if (down == Down::kPending) {  // with messages on their way that nobody reads
        for (std::size_t i = 0; i < n; i++)
          for (std::size_t j = 0; j < n; j++) {
            Bytes m(1 + g.below(2000));
            nets[i]->SendTo((int)j, m.data(), m.size());
          }
      }
      if (down == Down::kPeerLost && n > 1) {  // one leaves; others notice, then go
        std::size_t q = g.below(n);
        nets[q].reset();
        for (std::size_t i = 0; i < n; i++) {
          if (i == q) continue;
          unsigned char c;
          mon::throws([&] { nets[i]->RecvFrom((int)q, &c, 1); });
          Bytes m(1 + g.below(100000));
          nets[i]->SendTo((int)q, m.data(), m.size());
          if (g.chance(1, 2)) nets[i]->SendTo((int)q, m.data(), m.size());
        }
      }
      Sentinels inner;
      std::mutex im;
      bool closing = !churn && (down == Down::kClose || (key & 1));
      std::atomic<bool> raised{false};
      auto bring_down = [&](std::size_t i) {
        mon::Rng h(mon::mix(seed, i));
        if (!nets[i]) return;
        if (i == sleeper) slow::pause(h);
        bool close = down == Down::kClose || closing || h.chance(1, 3);
        if (close) {
          if (mon::throws([&] { nets[i]->Close(); })) raised = true;
          mon::eval();
          if (churn) {
            // others may get the numbers of descriptors that were closed
            std::lock_guard<std::mutex> l(im);
            inner.open((int)n);
          }
        }
        if (!closing) nets[i].reset();
        mon::eval();
      };
      if (shared_thread)
        for (std::size_t i = 0; i < n; i++) bring_down(i);
      else
        for (auto& e : parallel(n, bring_down))
          if (!e.empty()) fail("down", id + ": " + e);
      if (closing) {  // is enough
        mon::eval();
        if (raised) mon::count("closings_that_raised");
        if (!raised && !before.restored(&why)) fail("left-behind", id + ": after closing:" + why);
        nets.clear();
      }
      mon::eval();
      if (!inner.intact(&why)) fail("foreign-descriptor", id + ": " + why);
    }
  }
  mon::eval();
  if (!before.restored(&why)) fail("left-behind", id + ":" + why);
  if (!outer.intact(&why)) fail("foreign-descriptor", id + ": " + why);
  mon::count(mon::cat("down_", down == Down::kClose ? "closed" : down == Down::kDestroy ? "destroyed" : down == Down::kPeerLost ? "after_peer_lost" : "with_pending"));
  mon::distinct(mon::mix(mon::hash_str(order), n * 16 + (std::size_t)down));
  mon::sample(id);
}

static void never_opened(mon::Rng& g, unsigned base) {
  std::size_t n = 1 + g.below(8);
  std::string id = mon::cat("never opened n=", n);
  mon::where() = id;
  Sentinels s;
  s.open(3);
  Baseline before;
  std::string why;
  {
    std::vector<NetPtr> nets;
    for (std::size_t i = 0; i < n; i++) nets.push_back(make_net((int)i, n, (int)base));
    if (g.chance(1, 2)) {
      Bytes m(10);
      for (std::size_t i = 0; i < n; i++) nets[i]->SendTo((int)g.below(n), m.data(), m.size());
    }
    if (g.chance(1, 3)) mon::throws([&] { nets[0]->Close(); });
  }
  mon::eval();
  if (!before.restored(&why)) fail("left-behind", id + ":" + why);
  if (!s.intact(&why)) fail("foreign-descriptor", id + ": " + why);
  mon::count("down_never_opened");
}

// Party `me` of three with plain sockets for the others, one call failing.
struct RawWorld {
  std::size_t n;
  int me;
  unsigned base;
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  std::mutex m;
  std::vector<int> fds;
  std::vector<int> listeners;

  RawWorld(std::size_t n, int me, unsigned base) : n(n), me(me), base(base) {
    for (int j = 0; j < (int)n; j++) {
      if (j == me) continue;
      if (j < me) {
        int l = raw_listen(base + (unsigned)(j * (int)n + me));
        listeners.push_back(l);
        ts.emplace_back([this, l] {
          chaos::off() = true;
          while (!stop) {
            int fd = raw_accept(l, &stop);
            if (fd >= 0) keep(fd);
          }
        });
      } else {
        ts.emplace_back([this, j] {
          chaos::off() = true;
          int fd = raw_connect(this->base + (unsigned)(this->me * (int)this->n + j), &stop);
          if (fd >= 0) keep(fd);
        });
      }
    }
  }
  void keep(int fd) {
    std::lock_guard<std::mutex> l(m);
    fds.push_back(fd);
  }
  void finish() {
    stop = true;
    for (auto& t : ts) t.join();
    ts.clear();
    for (int f : fds) __real_close(f);
    for (int f : listeners) __real_close(f);
    fds.clear();
    listeners.clear();
  }
  ~RawWorld() { finish(); }
};

static void failed_connect(mon::Rng& g, unsigned base) {
  std::size_t n = 2 + g.below(3);
  int me = (int)g.below(n - 1);  // somebody who listens
  int at = me + 1 + (int)g.below(n - 1 - (std::size_t)me);
  std::string id = mon::cat("occupied port n=", n, " me=", me, " at=", at);
  mon::where() = id;
  // somebody else has the port, and does not share it
  int lfd = __real_socket(AF_INET, SOCK_STREAM, 0);
  int one = 1;
  __real_setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_ANY);
  // a range of ports for this case only: nothing must ever have been connected there
  base += 800 + 16 * (unsigned)(n == 2 ? 0 : n == 3 ? 1 + me + at - 1 : 4 + me * 2 + at - 1);
  unsigned port = base + (unsigned)(me * (int)n + at);
  a.sin_port = htons((unsigned short)port);
  if (__real_bind(lfd, (sockaddr*)&a, sizeof a) || __real_listen(lfd, 4)) {
    __real_close(lfd);
    mon::count("port_not_available");
    return;
  }
  Sentinels s;
  s.open(2);
  Baseline before;
  std::string why, what;
  {
    RawWorld w(n, me, base);
    auto nw = make_net(me, n, (int)base);
    mon::eval();
    bool t = mon::throws([&] { nw->Connect(); }, &what);
    if (!t) fail("occupied", id + ": connected although the port is taken");
    if (g.chance(1, 2)) mon::throws([&] { nw->Close(); });
    nw.reset();
    w.finish();
  }
  mon::eval();
  if (!before.restored(&why)) fail("left-behind", id + ":" + why);
  if (!s.intact(&why)) fail("foreign-descriptor", id + ": " + why);
  __real_close(lfd);
  mon::count("down_after_failed_connect");
  mon::distinct(mon::hash_str(id));
}

static void c19(mon::Rng& g, unsigned base) {
  auto& a = mon::args();
  std::size_t k = 0;
  auto mine = [&] { return (int)(k++ % (std::size_t)a.shards) == a.shard; };
  // every order in which up to four parties can start
  for (std::size_t n = 1; n <= 4; n++) {
    std::vector<int> p(n);
    for (std::size_t i = 0; i < n; i++) p[i] = (int)i;
    do {
      int reps = a.thorough ? 6 : 2;
      for (int r = 0; r < reps; r++) {
        if (!mine()) continue;
        std::vector<int> d(n);
        std::string o;
        int step = (int)(g.below(3) == 0 ? 0 : 1000 + g.below(9000)), t = 0;
        for (int x : p) {
          d[(std::size_t)x] = t;
          t += step;
          o += (char)('0' + x);
        }
        life(g, base, n, d, mon::cat(o, "/", step));
        mon::count("start_orders");
      }
    } while (std::next_permutation(p.begin(), p.end()));
  }
  std::size_t r = mon::rounds(250, 4000);
  for (std::size_t i = 0; i < r; i++) {
    // up to 28 parties: 784 ports
    std::size_t n = 2 + g.below(7);
    if (i % 10 == 4) n = 9 + g.below(8);
    if (i % 25 == 9) n = a.flavor == "o2" ? 17 + g.below(12) : 17;
    std::vector<int> d(n);
    std::string o = "random";
    for (auto& x : d) x = g.chance(1, 3) ? 0 : (int)g.below(20000);
    for (auto x : d) o += mon::cat(",", x);
    life(g, base, n, d, o);
    never_opened(g, base);
    failed_connect(g, base);
  }
}

// --- C20 -------------------------------------------------------------------------------

// System calls on sockets that do not exist, with failures at chosen places.
struct FakeSystem : net::SystemInterface {
  enum Call { kSocket, kOptions, kBind, kListen, kAccept, kWrite, kRead, kClose, kInet, kCalls };
  static const char* name(int c) {
    static const char* n[] = {"socket", "setsockopt", "bind", "listen", "accept", "write", "read", "close", "inet_pton"};
    return n[c];
  }
  std::atomic<int> fail_call{-1}, fail_after{0}, fail_errno{0};
  std::atomic<bool> close_fails{false};  // every close reports an error of its own
  bool clobber = false;      // successful calls change errno
  bool partial = false;
  bool zero = false;  // a transfer may complete nothing at all
  bool real_sockets = false;
  int calls[kCalls] = {};
  int delivered = 0;  // failures so far
  int err = 0;
  int next_fd = 5000;
  std::set<int> open;
  std::string bad;
  Bytes written;
  u64 read_key = 0, read_off = 0, read_end = ~0ull;
  mon::Rng g{1};
  std::mutex m;

  int set(int e) {
    err = e;
    errno = e;
    return -1;
  }
  bool hit(Call c) {
    calls[c]++;
    if (fail_call != c) return false;
    if (fail_after-- > 0) return false;
    fail_after = 0;
    delivered++;
    return true;
  }
  void ok() {
    if (clobber) set(0);
  }
  void check(int fd, const char* what) {
    if (!open.count(fd)) bad += mon::cat(" ", what, " on descriptor ", fd);
  }
  int fresh() {
    int fd = real_sockets ? __real_socket(AF_INET, SOCK_STREAM, 0) : next_fd++;
    open.insert(fd);
    return fd;
  }
  int get_errno() override {
    std::lock_guard<std::mutex> l(m);
    return err;
  }
  int close(int fd) override {
    std::lock_guard<std::mutex> l(m);
    calls[kClose]++;
    if (fd != -1) check(fd, "close");  // there is no such descriptor, so nothing happens
    open.erase(fd);
    if (real_sockets) __real_close(fd);
    if (close_fails) return set(EIO);
    if (fail_call == kClose) {
      calls[kClose]--;
      if (hit(kClose)) return set(fail_errno);
    }
    ok();
    return 0;
  }
  int inet_to_int(int af, const char* s, void* d) override {
    std::lock_guard<std::mutex> l(m);
    if (hit(kInet)) return set(fail_errno);
    return ::inet_pton(af, s, d);
  }
  int create_socket(int, int, int) override {
    std::lock_guard<std::mutex> l(m);
    if (hit(kSocket)) return set(fail_errno);
    ok();
    return fresh();
  }
  ssize_t write(int fd, const void* b, std::size_t n) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "write");
    if (hit(kWrite)) return set(fail_errno);
    if (zero && g.chance(1, 4)) return 0;
    std::size_t k = partial && n ? 1 + g.below(g.chance(1, 2) ? n : std::min<std::size_t>(n, 9)) : n;
    auto p = static_cast<const unsigned char*>(b);
    written.insert(written.end(), p, p + k);
    return (ssize_t)k;
  }
  ssize_t read(int fd, void* b, std::size_t n) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "read");
    if (hit(kRead)) return set(fail_errno);
    std::size_t k = partial && n ? 1 + g.below(g.chance(1, 2) ? n : std::min<std::size_t>(n, 9)) : n;
    k = (std::size_t)std::min<u64>(k, read_end - read_off);
    kit::stream(read_key, read_off, static_cast<unsigned char*>(b), k);
    read_off += k;
    return (ssize_t)k;
  }
  int set_socket_options(int fd, int, int, const void*, socklen_t) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "setsockopt");
    if (hit(kOptions)) return set(fail_errno);
    ok();
    return 0;
  }
  int bind(int fd, const sockaddr*, socklen_t) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "bind");
    if (hit(kBind)) return set(fail_errno);
    ok();
    return 0;
  }
  int listen(int fd, int) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "listen");
    if (hit(kListen)) return set(fail_errno);
    ok();
    return 0;
  }
  int accept(int fd, sockaddr*, socklen_t*) override {
    std::lock_guard<std::mutex> l(m);
    check(fd, "accept");
    if (hit(kAccept)) return set(fail_errno);
    ok();
    return fresh();
  }
};

static const std::vector<int>& errnos() {  // every one there is
  static const std::vector<int> v = [] {
    std::vector<int> w;
    for (int e = 1; e <= EHWPOISON; e++)
      if (e != 41 && e != 58) w.push_back(e);  // not assigned
    return w;
  }();
  return v;
}

// Runs op, which has to raise the injected error.
template <typename F>
static bool raises(const std::string& id, int err, F op) {
  mon::eval();
  mon::count("failures_injected");
  try {
    op();
  } catch (const std::system_error& e) {
    if (e.code().value() != err) {
      fail("cause", mon::cat(id, ": raised with cause ", e.code().value(), " instead of ", err, " (", e.what(), ")"));
      return false;
    }
    return true;
  } catch (const std::exception& e) {
    fail("cause", mon::cat(id, ": raised without the cause: ", e.what()));
    return false;
  }
  fail("not-raised", id + ": returned as if nothing had failed");
  return false;
}

static void expect_state(const std::string& id, CState got, CState want) {
  mon::eval();
  if (got != want) fail("state", mon::cat(id, ": state is ", (int)got, " instead of ", (int)want));
}

static void expect_closed(const std::string& id, FakeSystem& s, std::size_t want = 0) {
  mon::eval();
  if (s.open.size() != want) fail("leak", mon::cat(id, ": ", s.open.size(), " descriptors open instead of ", want));
  if (!s.bad.empty()) fail("descriptor", id + ":" + s.bad);
}

static void server_setup_faults() {
  for (int call : {FakeSystem::kSocket, FakeSystem::kOptions, FakeSystem::kBind, FakeSystem::kListen, FakeSystem::kAccept})
    for (int err : errnos())
      for (int v = 0; v < 4; v++) {
        auto s = std::make_shared<FakeSystem>();
        s->fail_call = call;
        s->fail_errno = err;
        s->close_fails = v & 1;
        s->clobber = v & 2;
        std::string id = mon::cat("server ", FakeSystem::name(call), " fails with ", err, " variant ", v);
        mon::where() = id;
        {
          net::TCPServerConnector c(s, 4000);
          expect_state(id, c.State(), CState::eIdle);
          raises(id, err, [&] { c.Connect(); });
          expect_state(id, c.State(), CState::eError);
          expect_closed(id, *s);
        }
        // the same through a channel, plain or not
        auto t = std::make_shared<FakeSystem>();
        t->fail_call = call;
        t->fail_errno = err;
        std::unique_ptr<net::Connector> c = std::make_unique<net::TCPServerConnector>(t, 4000);
        std::unique_ptr<net::Channel> ch;
        if (v & 1)
          ch = std::make_unique<net::AsyncSenderChannel>(c);
        else
          ch = std::make_unique<net::Channel>(c);
        raises("channel " + id, err, [&] { ch->Open(); });
        expect_state("channel " + id, ch->State(), CState::eError);
        ch.reset();
        expect_closed("channel " + id, *t);
        mon::distinct(mon::mix((u64)call * 1000 + (u64)err, (u64)v));
      }
}

static void client_setup_faults(unsigned base) {
  for (int err : errnos())
    for (int v = 0; v < 2; v++) {
      {
        auto s = std::make_shared<FakeSystem>();
        s->fail_call = FakeSystem::kInet;
        s->fail_errno = err;
        s->close_fails = v;
        std::string id = mon::cat("client address fails with ", err, " when constructed");
        raises(id, err, [&] { net::TCPClientConnector c(s, 4000, "127.0.0.1"); });
        expect_closed(id, *s);
      }
      {
        auto s = std::make_shared<FakeSystem>();
        s->close_fails = v;
        net::TCPClientConnector c(s, (int)base, "127.0.0.1");
        s->fail_call = FakeSystem::kInet;
        s->fail_errno = err;
        std::string id = mon::cat("client address fails with ", err, " when connecting");
        raises(id, err, [&] { c.Connect(); });
        expect_state(id, c.State(), CState::eError);
        expect_closed(id, *s);
      }
      {
        auto s = std::make_shared<FakeSystem>();
        s->fail_call = FakeSystem::kSocket;
        s->fail_errno = err;
        s->close_fails = v;
        net::TCPClientConnector c(s, (int)base, "127.0.0.1");
        std::string id = mon::cat("client socket fails with ", err);
        raises(id, err, [&] { c.Connect(); });
        expect_state(id, c.State(), CState::eError);
        expect_closed(id, *s);
      }
      mon::distinct(mon::mix((u64)err, 5000 + (u64)v));
    }
  for (const char* host : {"", "localhost", "1.2.3", "256.1.1.1", "::1", "1.2.3.4.5", " 1.2.3.4", "nonsense"}) {
    auto s = std::make_shared<FakeSystem>();
    mon::eval();
    if (!mon::throws([&] { net::TCPClientConnector c(s, 4000, host); })) fail("not-raised", mon::cat("host '", host, "' accepted"));
    expect_closed(host, *s);
  }
  for (int port : {-1, 0, 1, 80, 1024, 65536, 70000, 1 << 30}) {
    auto s = std::make_shared<FakeSystem>();
    mon::eval(2);
    if (!mon::throws([&] { net::TCPClientConnector c(s, port, "127.0.0.1"); }) || !mon::throws([&] { net::TCPServerConnector c(s, port); }))
      fail("not-raised", mon::cat("port ", port, " accepted"));
  }
}

// A server connector with fake sockets, or a client connector with real ones, up.
struct Up {
  std::shared_ptr<FakeSystem> s = std::make_shared<FakeSystem>();
  std::unique_ptr<net::Connector> c;
  int lfd = -1, pfd = -1;
  Up(bool client, unsigned base) {
    if (client) {
      s->real_sockets = true;
      lfd = raw_listen(base);
      c = std::make_unique<net::TCPClientConnector>(s, (int)base, "127.0.0.1");
    } else {
      c = std::make_unique<net::TCPServerConnector>(s, 4000);
    }
  }
  ~Up() {
    if (lfd >= 0) __real_close(lfd);
    for (int fd : s->open)
      if (s->real_sockets) __real_close(fd);
  }
};

static void transfer_faults(mon::Rng& g, unsigned base) {
  bool client = g.chance(1, 4);
  int err = g.pick(errnos());
  int what = (int)g.below(5);
  std::size_t n = 1 + length(g);
  int after = (int)g.below(4);
  bool variant = g.chance(1, 2);
  u64 key = g.u64();
  std::string id = mon::cat(client ? "client" : "server", " transfer what=", what, " errno=", err, " n=", n, " after=", after, " variant=", variant);
  mon::where() = id;
  Up u(client, base);
  auto& s = *u.s;
  s.g = mon::Rng(key);
  s.partial = g.chance(3, 4);
  s.zero = s.partial && g.chance(1, 2);
  s.read_key = key;
  s.clobber = g.chance(1, 2);
  mon::distinct(mon::hash_str(id));
  if (what == 4) {  // nothing fails: all of it is transferred
    bool chan = g.chance(1, 2);
    std::unique_ptr<net::Channel> ch;
    u64 off = 0, roff = 0;
    net::Connector* c = u.c.get();
    if (chan) {
      ch = std::make_unique<net::Channel>(u.c);
      ch->Open();
    } else {
      c->Connect();
    }
    for (int k = 0; k < 6; k++) {
      std::size_t l = length(g);
      mon::eval();
      if (g.chance(1, 2)) {
        Bytes m = stream(key + 1, off, l);
        if (chan)
          ch->Send(m.data(), l);
        else {
          auto r = c->Send(m.data(), l);
          if (r != (std::int64_t)l) fail("partial", mon::cat(id, ": sending ", l, " bytes returned ", r));
        }
        off += l;
      } else {
        Bytes m(l);
        if (chan)
          ch->Recv(m.data(), l);
        else {
          auto r = c->Recv(m.data(), l);
          if (r != (std::int64_t)l) fail("partial", mon::cat(id, ": receiving ", l, " bytes returned ", r));
        }
        if (m != stream(key, roff, l)) fail("partial", mon::cat(id, ": receiving ", l, " bytes in parts"));
        roff += l;
      }
    }
    if (s.written != stream(key + 1, 0, off)) fail("partial", mon::cat(id, ": sending ", off, " bytes in parts"));
    mon::count("partial_transfers");
    expect_state(id, chan ? ch->State() : c->State(), CState::eActive);
    chan ? ch->Close() : c->Close();
    expect_state(id, chan ? ch->State() : c->State(), CState::eClosed);
    expect_closed(id, s);
    return;
  }
  int call = what == 0 ? FakeSystem::kWrite : what == 1 ? FakeSystem::kRead : FakeSystem::kClose;
  if (what == 3) {  // the sender of an asynchronous channel
    net::AsyncSenderChannel ch(u.c);
    s.fail_call = FakeSystem::kWrite;
    s.fail_errno = err;
    s.fail_after = after;
    ch.Open();
    Bytes m = stream(key, 0, n);
    int k = 0;
    while (ch.State() != CState::eError && k++ < 40000) {
      if (k < 300) ch.Send(m.data(), m.size());
      usleep(k < 100 ? 20 : 200);
    }
    mon::eval();
    mon::count("failures_injected");
    expect_state(id, ch.State(), CState::eError);
    mon::throws([&] { ch.Close(); });
    mon::eval();
    std::lock_guard<std::mutex> l(s.m);
    if (!s.bad.empty()) fail("descriptor", id + ":" + s.bad);
    if (s.open.size()) fail("leak", id + ": descriptor not released by Close after an error");
    return;
  }
  bool chan = g.chance(1, 2);
  net::Connector* c = u.c.get();
  std::unique_ptr<net::Channel> ch;
  if (chan) {
    if (what == 2 && variant)
      ch = std::make_unique<net::AsyncSenderChannel>(u.c);
    else
      ch = std::make_unique<net::Channel>(u.c);
    ch->Open();
    if (what == 2 && g.chance(1, 2)) {
      Bytes m = stream(key, 0, n);
      ch->Send(m.data(), n);
    }
  } else {
    c->Connect();
  }
  s.fail_call = call;
  s.fail_errno = err;
  s.fail_after = what == 2 ? 0 : s.partial ? after : 0;
  // with fewer bytes than calls the failure may never be reached
  if (what < 2 && s.partial) n = std::max<std::size_t>(n, 20000);
  Bytes m = stream(key, 0, n);
  auto op = [&] {
    if (what == 0) chan ? ch->Send(m.data(), n) : (void)c->Send(m.data(), n);
    if (what == 1) chan ? ch->Recv(m.data(), n) : (void)c->Recv(m.data(), n);
    if (what == 2) chan ? ch->Close() : c->Close();
  };
  if (what < 2 && s.partial) {
    // may need several operations until the call is reached
    int k = 0;
    bool reached = false;
    while (k++ < 50 && !reached) {
      int before = s.delivered;
      {
        try {
          op();
        } catch (const std::system_error& e) {
          reached = true;
          mon::eval();
          mon::count("failures_injected");
          if (e.code().value() != err) fail("cause", mon::cat(id, ": cause ", e.code().value(), " instead of ", err));
        } catch (const std::exception& e) {
          reached = true;
          fail("cause", mon::cat(id, ": raised without the cause: ", e.what()));
        }
      }
      if (!reached && s.delivered > before) {
        fail("not-raised", id + ": returned as if nothing had failed");
        return;
      }
    }
    if (!reached) {
      mon::count("failure_not_reached");
      return;
    }
  } else {
    if (!raises(id, err, op)) return;
  }
  expect_state(id, chan ? ch->State() : c->State(), CState::eError);
  if (what < 2) {
    // closing releases the descriptor all the same
    s.fail_call = -1;
    mon::throws([&] { chan ? ch->Close() : c->Close(); });
  }
  expect_closed(id, s);
}

// The whole stack on real sockets, with the system failing underneath.
static void network_faults(mon::Rng& g, unsigned base) {
  std::size_t n = 2 + g.below(3);
  int me = (int)g.below(n);
  int err = g.pick(errnos());
  std::vector<int> calls = {chaos::kSocket, chaos::kConnect};
  if (me + 1 < (int)n)
    for (int c : {chaos::kSetsockopt, chaos::kBind, chaos::kListen, chaos::kAccept}) calls.push_back(c);
  int call = g.pick(calls);
  // how many of these calls there are
  int have = call == chaos::kSocket ? (int)n - 1 : call == chaos::kConnect ? me : (int)n - 1 - me;
  if (have <= 0) {
    call = chaos::kSocket;
    have = (int)n - 1;
  }
  int after = (int)g.below((std::size_t)have);
  std::string id = mon::cat("network n=", n, " me=", me, " ", chaos::name(call), " number ", after, " fails with ", err);
  mon::where() = id;
  Baseline before;
  std::string why;
  {
    RawWorld w(n, me, base);
    auto nw = make_net(me, n, (int)base);
    chaos::arm(call, after, err);
    if (call == chaos::kConnect) {
      // not an error: the peer may not be there yet
      mon::eval();
      mon::count("refused_connects");
      if (mon::throws([&] { nw->Connect(); }, &why)) fail("retry", id + ": " + why);
    } else {
      raises(id, err, [&] { nw->Connect(); });
    }
    chaos::disarm();
    if (g.chance(1, 2)) mon::throws([&] { nw->Close(); });
    nw.reset();
    w.finish();
  }
  mon::eval();
  if (!before.restored(&why)) fail("leak", id + ":" + why);
  mon::distinct(mon::hash_str(id));
  mon::sample(id);
}

// A transfer or a close fails in a running network.
static void running_faults(mon::Rng& g, unsigned base) {
  int err = g.pick(errnos());
  int call = g.chance(1, 3) ? chaos::kClose : g.chance(1, 2) ? chaos::kRead : chaos::kSend;
  std::string id = mon::cat("running network: ", chaos::name(call), " fails with ", err);
  mon::where() = id;
  Baseline before;
  std::string why;
  {
    int me = (int)g.below(2);
    RawWorld w(2, me, base);
    auto nw = make_net(me, 2, (int)base);
    nw->Connect();
    while (true) {
      usleep(200);
      std::lock_guard<std::mutex> l(w.m);
      if (!w.fds.empty()) break;
    }
    int fd = w.fds[0];
    if (call == chaos::kRead) {
      unsigned char c[64] = {};
      raw_send(fd, c, sizeof c);
      chaos::arm(call, 0, err);
      raises(id, err, [&] { nw->RecvFrom(1 - me, c, 40); });
      chaos::disarm();
    } else if (call == chaos::kSend) {
      unsigned char c[64] = {};
      chaos::arm(call, 0, err);
      nw->SendTo(1 - me, c, sizeof c);
      for (int k = 0; k < 4000 && chaos::state().fail_call == chaos::kSend; k++) usleep(500);
      mon::eval();
      mon::count("failures_injected");
      chaos::disarm();
    } else {
      chaos::arm(call, 0, err);
      raises(id, err, [&] { nw->Close(); });
      chaos::disarm();
    }
    nw.reset();
    w.finish();
  }
  mon::eval();
  if (!before.restored(&why)) fail("leak", id + ":" + why);
  mon::distinct(mon::hash_str(id));
}

static void body() {
  auto& a = mon::args();
  mon::watchdog(a.flavor == "tsan" || a.flavor == "vg" ? 90 : 40);
  mon::Rng g(mon::base_seed());
  unsigned base = ports::base();
  if (a.prop == "C17") {
    if (a.shard == 0) gigabytes(g);
    if (a.shard == 1 && a.flavor == "o2" && a.tag.empty()) one_long_message(base + 700);
    if (a.shard == 2 && a.flavor == "o2" && a.tag.empty()) long_lists(g, base + 740);
    std::size_t r = mon::rounds(200, 2500);
    for (std::size_t i = 0; i < r; i++) {
      links(g, base, i % 12 == 7 ? 7 + g.below(8) : 1 + g.below(6), i % 20 == 3);
      local_links(g);
      if (i % 3 == 0) typed(g, base + 200, i % 18 == 6 ? 8 + g.below(9) : 4 + g.below(4));
    }
  } else if (a.prop == "C18") {
    std::size_t r = mon::rounds(70, 2000);
    for (std::size_t i = 0; i < r; i++) {
      close_after_send(g, base, i % 8 == 1);
      for (int k = 0; k < 6; k++) lost_peer(g, base + 200);
      for (int k = 0; k < 3; k++) orderly_peer(g, base + 200);
    }
  } else if (a.prop == "C19") {
    c19(g, base);
  } else if (a.prop == "C20") {
    if (a.shard == 0) server_setup_faults();
    if (a.shard == 2) gigabytes(g);
    if (a.shard == 1 % a.shards) client_setup_faults(base + 200);
    std::size_t r = mon::rounds(4000, 100000);
    for (std::size_t i = 0; i < r; i++) {
      transfer_faults(g, base + 300);
      if (i % 12 == 0) network_faults(g, base);
      if (i % 12 == 6) running_faults(g, base + 100);
    }
  } else if (a.prop == "C23") {
    std::size_t r = mon::rounds(30, 700);
    for (std::size_t i = 0; i < r; i++) typed(g, base, 4 + (i % 10 == 7 ? 7 + g.below(10) : g.below(i % 5 == 0 ? 7 : 3)));
    if (a.shard == 2 && a.flavor == "o2") long_lists(g, base + 740);
    if (a.shard == 0 && a.flavor == "o2") much(base + 700);
    if (a.shard == 1 && a.flavor == "o2") one_long_message(base + 720);
  } else {
    mon::broken("unknown property");
  }
  mon::count("transfers_shortened", chaos::state().shortened);
  mon::count("transfers", chaos::state().transfers);
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
