// Networks of parties that run as threads of this process, raw peers, and
// bookkeeping of descriptors and threads.
#ifndef VERIF_NETKIT_H
#define VERIF_NETKIT_H

#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/stat.h>

#include <condition_variable>
#include <optional>

#include "chaos.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/net/connector.h"
#include "frn/lib/net/network.h"
#include "mon.h"
#include "ports.h"

namespace kit {

namespace net = frn::lib::net;
using u64 = std::uint64_t;
using Bytes = std::vector<unsigned char>;
using NetPtr = std::shared_ptr<net::Network>;

// --- content ---------------------------------------------------------------------

// Byte `off` of the endless stream `key`.
inline unsigned char stream_byte(u64 key, u64 off) {
  return (unsigned char)(mon::mix(key, off >> 3) >> (8 * (off & 7)));
}
inline void stream(u64 key, u64 off, unsigned char* p, std::size_t n) {
  while (n && (off & 7)) {
    *p++ = stream_byte(key, off++);
    n--;
  }
  while (n >= 8) {
    u64 w = mon::mix(key, off >> 3);
    std::memcpy(p, &w, 8);
    p += 8;
    off += 8;
    n -= 8;
  }
  while (n--) *p++ = stream_byte(key, off++);
}
inline Bytes stream(u64 key, u64 off, std::size_t n) {
  Bytes b(n);
  stream(key, off, b.data(), n);
  return b;
}

// Lengths as messages have them.
inline std::size_t length(mon::Rng& g) {
  switch (g.below(13)) {
    case 12:
      return mon::near_constant(g, 1, 300000, 1 + g.below(600), 1, 1);
    case 0:
      return 0;
    case 1:
      return 1;
    case 2:
    case 3:
      return 1 + g.below(16);
    case 4:
    case 5:
      return 8 * g.below(40);
    case 6:
      return 1400 + g.below(120);
    case 7:
      return 4094 + g.below(5);
    case 8:
      return 65533 + g.below(7);
    case 9:
      return g.below(200000);
    default:
      return 1 + g.below(600);
  }
}

// --- descriptors and threads -------------------------------------------------------

inline std::vector<int> descriptors() {
  std::vector<int> v;
  DIR* d = opendir("/proc/self/fd");
  if (!d) mon::broken("/proc/self/fd");
  int self = dirfd(d);
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    int fd = atoi(e->d_name);
    if (fd != self) v.push_back(fd);
  }
  closedir(d);
  std::sort(v.begin(), v.end());
  return v;
}

inline std::size_t threads() {
  std::size_t n = 0;
  DIR* d = opendir("/proc/self/task");
  if (!d) mon::broken("/proc/self/task");
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}

// What each descriptor refers to.
inline std::map<int, u64> inodes() {
  std::map<int, u64> m;
  for (int fd : descriptors()) {
    struct stat s;
    if (fstat(fd, &s) == 0) m[fd] = mon::mix((u64)s.st_dev, (u64)s.st_ino);
  }
  return m;
}

struct Baseline {
  std::map<int, u64> fds = inodes();
  std::size_t tasks = threads();

  // True if descriptors and threads are as before; waits a little for threads to end.
  bool restored(std::string* why) const {
    for (int k = 0;; k++) {
      auto now = inodes();
      std::size_t t = threads();
      if (now == fds && t <= tasks) return true;
      if (k == 400) {
        std::string s;
        for (auto& f : now)
          if (!fds.count(f.first))
            s += mon::cat(" +fd", f.first);
          else if (fds.at(f.first) != f.second)
            s += mon::cat(" changed fd", f.first);
        for (auto& f : fds)
          if (!now.count(f.first)) s += mon::cat(" -fd", f.first);
        if (t > tasks) s += mon::cat(" +", t - tasks, " threads");
        *why = s;
        return false;
      }
      usleep(k < 50 ? 200 : 5000);
    }
  }
};

// Pipes of our own that nobody else may touch.
struct Sentinels {
  std::vector<std::pair<int, u64>> fds;
  void open(int pairs) {
    for (int i = 0; i < pairs; i++) {
      int p[2];
      if (pipe(p)) mon::broken("pipe");
      for (int fd : p) {
        struct stat s;
        if (fstat(fd, &s)) mon::broken("fstat");
        fds.push_back({fd, mon::mix((u64)s.st_dev, (u64)s.st_ino)});
      }
    }
  }
  bool intact(std::string* why) const {
    for (auto& f : fds) {
      struct stat s;
      if (fstat(f.first, &s) || mon::mix((u64)s.st_dev, (u64)s.st_ino) != f.second) {
        *why = mon::cat("descriptor ", f.first, " of somebody else was closed or replaced");
        return false;
      }
    }
    return true;
  }
  ~Sentinels() {
    for (auto& f : fds) __real_close(f.first);
  }
};

// --- networks ------------------------------------------------------------------------

inline NetPtr make_net(int id, std::size_t n, int base) {
  return net::Network::Builder()
      .LocalPeerId(id)
      .Size(n)
      .TransportType(net::Network::TransportType::eTcp)
      .BasePort(base)
      .AllPartiesLocal()
      .BuildShared();
}

// Runs f(0..n-1) in threads of their own; collects what was thrown.
template <typename F>
std::vector<std::string> parallel(std::size_t n, F f) {
  std::vector<std::string> errors(n);
  std::vector<std::thread> ts;
  for (std::size_t i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      try {
        f(i);
      } catch (const std::exception& e) {
        errors[i] = std::string("exception: ") + e.what();
      }
    });
  for (auto& t : ts) t.join();
  return errors;
}

struct Barrier {
  explicit Barrier(std::size_t n) : n(n) {}
  void wait() {
    std::unique_lock<std::mutex> l(m);
    auto g = gen;
    if (++in == n) {
      in = 0;
      gen++;
      c.notify_all();
    } else {
      c.wait(l, [&] { return g != gen; });
    }
  }
  std::mutex m;
  std::condition_variable c;
  std::size_t n, in = 0, gen = 0;
};

// --- raw peers ------------------------------------------------------------------------

inline int raw_listen(unsigned port) {
  int fd = __real_socket(AF_INET, SOCK_STREAM, 0);
  int one = 1;
  __real_setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  __real_setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons((unsigned short)port);
  if (__real_bind(fd, (sockaddr*)&a, sizeof a) || __real_listen(fd, 8)) mon::broken("raw_listen: " + std::to_string(errno));
  return fd;
}

// Accepts one connection, or gives up when *stop is set.
inline int raw_accept(int lfd, const std::atomic<bool>* stop = nullptr) {
  while (true) {
    pollfd p{lfd, POLLIN, 0};
    if (__real_poll(&p, 1, 5) == 1) return __real_accept(lfd, nullptr, nullptr);
    if (stop && *stop) return -1;
  }
}

// Connects to a port of this machine, trying until it works or *stop is set.
inline int raw_connect(unsigned port, const std::atomic<bool>* stop = nullptr) {
  while (true) {
    int fd = __real_socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons((unsigned short)port);
    if (__real_connect(fd, (sockaddr*)&a, sizeof a) == 0) return fd;
    __real_close(fd);
    if (stop && *stop) return -1;
    usleep(1000);
  }
}

inline bool raw_send(int fd, const unsigned char* p, std::size_t n) {
  while (n) {
    ssize_t k = __real_send(fd, p, n, MSG_NOSIGNAL);
    if (k <= 0) return false;
    p += k;
    n -= (std::size_t)k;
  }
  return true;
}

// Reads up to n bytes, fewer only at the end of the stream.
inline std::size_t raw_recv(int fd, unsigned char* p, std::size_t n) {
  std::size_t got = 0;
  while (got < n) {
    ssize_t k = __real_read(fd, p + got, n - got);
    if (k <= 0) break;
    got += (std::size_t)k;
  }
  return got;
}

inline void raw_reset(int fd) {
  linger l{1, 0};
  __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  __real_close(fd);
}

}  // namespace kit

#endif
