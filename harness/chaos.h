// Stands between the library and libc (linked with --wrap): shortens transfers,
// delays calls, and makes a chosen call fail. Off by default.
#ifndef VERIF_CHAOS_H
#define VERIF_CHAOS_H

#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>

#include "mon.h"
#include "slow.h"

extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
int __real_socket(int, int, int);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_bind(int, const sockaddr*, socklen_t);
int __real_listen(int, int);
int __real_accept(int, sockaddr*, socklen_t*);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_close(int);
}

namespace chaos {

enum Call { kSend, kRead, kSocket, kSetsockopt, kBind, kListen, kAccept, kConnect, kClose, kCalls };
inline const char* name(int c) {
  static const char* n[] = {"send", "read", "socket", "setsockopt", "bind", "listen", "accept", "connect", "close"};
  return n[c];
}

struct State {
  std::atomic<bool> shorten{false};
  std::atomic<bool> delay{false};
  std::atomic<int> buffers{0};  // socket buffers of about that many bytes, if not 0
  std::atomic<std::uint64_t> seed{1};
  std::atomic<int> fail_call{-1};
  std::atomic<int> fail_after{0};  // that many calls succeed first
  std::atomic<int> fail_errno{0};
  std::atomic<std::uint64_t> shortened{0}, failed{0}, transfers{0};
};
inline State& state() {
  static State s;
  return s;
}

// Threads that play the other side use the real calls.
inline bool& off() {
  static thread_local bool o = false;
  return o;
}

inline std::uint64_t next() {
  static thread_local std::uint64_t s = 0;
  if (!s) s = mon::mix(state().seed++, 77);
  return mon::splitmix(s);
}

inline bool fails(int call) {
  State& s = state();
  if (off() || s.fail_call != call) return false;
  if (s.fail_after-- > 0) return false;
  s.fail_call = -1;
  s.failed++;
  errno = s.fail_errno;
  return true;
}

inline void arm(int call, int after, int err) {
  State& s = state();
  s.fail_after = after;
  s.fail_errno = err;
  s.fail_call = call;
}
inline void disarm() { state().fail_call = -1; }

inline std::size_t cut(std::size_t n) {
  State& s = state();
  s.transfers++;
  if (off()) return n;
  if (s.delay && next() % 64 == 0) usleep((useconds_t)(next() % 300));
  if (!s.shorten || n < 2) return n;
  std::size_t k;
  switch (next() % 4) {
    case 0:
      k = 1 + next() % 7;
      break;
    case 1:
      k = n - 1;
      break;
    case 2:
      k = 1 + next() % n;
      break;
    default:
      k = n;
  }
  if (k > n) k = n;
  // not byte by byte through megabytes
  if (n > 20000 && k < 4096) k = 4096 + k;
  if (k != n) s.shortened++;
  return k;
}

}  // namespace chaos

#ifdef VERIF_CHAOS_IMPL
extern "C" {
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  if (chaos::fails(chaos::kSend)) return -1;
  return __real_send(fd, b, chaos::cut(n), f);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd <= 2) return __real_write(fd, b, n);
  if (chaos::fails(chaos::kSend)) return -1;
  return __real_write(fd, b, chaos::cut(n));
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (chaos::fails(chaos::kRead)) return -1;
  return __real_read(fd, b, chaos::cut(n));
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  if (chaos::fails(chaos::kRead)) return -1;
  return __real_recv(fd, b, f & MSG_WAITALL ? n : chaos::cut(n), f);
}
int __wrap_socket(int a, int b, int c) {
  if (chaos::fails(chaos::kSocket)) return -1;
  int fd = __real_socket(a, b, c);
  int size = chaos::state().buffers;
  if (fd >= 0 && size && !chaos::off()) {
    __real_setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &size, sizeof size);
    size = std::max(size, 65536);  // smaller ones make TCP wait for timers
    __real_setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
  }
  return fd;
}
int __wrap_setsockopt(int a, int b, int c, const void* d, socklen_t e) {
  if (chaos::fails(chaos::kSetsockopt)) return -1;
  if (slow::on() && !chaos::off() && b == SOL_SOCKET && (c == SO_RCVTIMEO || c == SO_SNDTIMEO) && d && e == sizeof(timeval)) {
    timeval t = *(const timeval*)d;
    std::int64_t n = slow::scaled((std::int64_t)t.tv_sec * 1000000000 + (std::int64_t)t.tv_usec * 1000);
    if (n) n = std::max<std::int64_t>(n, 1000000);
    t.tv_sec = n / 1000000000;
    t.tv_usec = n % 1000000000 / 1000;
    return __real_setsockopt(a, b, c, &t, e);
  }
  if (slow::on() && !chaos::off() && b == IPPROTO_TCP && c == TCP_USER_TIMEOUT && d && e == sizeof(int) && *(const int*)d > 0) {
    int ms = (int)std::max<std::int64_t>(slow::scaled((std::int64_t)*(const int*)d * 1000000) / 1000000, 1);
    return __real_setsockopt(a, b, c, &ms, e);
  }
  return __real_setsockopt(a, b, c, d, e);
}
int __wrap_bind(int a, const sockaddr* b, socklen_t c) {
  if (chaos::fails(chaos::kBind)) return -1;
  return __real_bind(a, b, c);
}
int __wrap_listen(int a, int b) {
  if (chaos::fails(chaos::kListen)) return -1;
  if (chaos::state().delay && !chaos::off()) usleep((useconds_t)(chaos::next() % 2000));
  return __real_listen(a, b);
}
int __wrap_accept(int a, sockaddr* b, socklen_t* c) {
  if (chaos::fails(chaos::kAccept)) return -1;
  if (chaos::state().delay && !chaos::off()) usleep((useconds_t)(chaos::next() % 2000));
  return __real_accept(a, b, c);
}
int __wrap_connect(int a, const sockaddr* b, socklen_t c) {
  if (chaos::fails(chaos::kConnect)) return -1;
  return __real_connect(a, b, c);
}
int __wrap_close(int fd) {
  if (chaos::fails(chaos::kClose)) {
    int e = errno;
    __real_close(fd);  // like EINTR and EIO on Linux: gone anyway
    errno = e;
    return -1;
  }
  return __real_close(fd);
}
}
#endif

#endif
