// Time as seen by the code under test (linked with --wrap): in slow mode every
// timed wait and every timeout it asks for passes `factor` times faster, and the
// clocks it reads agree with that. To it, everybody else seems that much slower:
// a peer that pauses for 0.1 s was away for minutes.
#ifndef VERIF_SLOW_H
#define VERIF_SLOW_H

#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>

#include "mon.h"

namespace slow {

inline std::atomic<long>& factor() {
  static std::atomic<long> f{1};
  return f;
}
// Threads that play the other side live in real time.
inline bool& outside() {
  static thread_local bool o = false;
  return o;
}
// How far the clock of this thread is ahead, in ns.
inline std::int64_t& skew() {
  static thread_local std::int64_t s = 0;
  return s;
}
inline bool on() { return factor() > 1 && !outside(); }
inline std::atomic<std::uint64_t>& waits() {
  static std::atomic<std::uint64_t> w{0};
  return w;
}

inline std::int64_t ns(const timespec& t) { return (std::int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
inline timespec ts(std::int64_t n) {
  if (n < 0) n = 0;
  return timespec{(time_t)(n / 1000000000), (long)(n % 1000000000)};
}
inline std::int64_t real(clockid_t c) {
  timespec t;
  clock_gettime(c, &t);
  return ns(t);
}
// What is left of a wait of n ns.
inline std::int64_t scaled(std::int64_t n) {
  waits()++;
  return n <= 0 ? n : std::max<std::int64_t>(n / factor(), 1000);
}
inline void passed(std::int64_t n, std::int64_t s) {
  if (n > s) skew() += n - s;
}
// A sleep may take longer than was asked for: connectors are built with short ones.
inline void slept(std::int64_t n, std::int64_t s) { passed(60 * n, s); }

struct Scope {
  explicit Scope(long f) { factor() = f; }
  ~Scope() { factor() = 1; }
};
// Mostly off.
inline long some(mon::Rng& g, unsigned one_in = 8) { return g.chance(1, one_in) ? (g.chance(1, 2) ? 1000 : 20000) : 1; }
// A pause that is long in slow mode.
inline void pause(mon::Rng& g) {
  if (factor() > 1) usleep((useconds_t)(20000 + g.below(130000)));
}

}  // namespace slow

#ifdef VERIF_CHAOS_IMPL
extern "C" {
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_poll(pollfd*, nfds_t, int);
int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
std::int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
std::int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
bool __real__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned*, unsigned, bool, std::int64_t, std::int64_t);
bool __real__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned*, unsigned, bool, std::int64_t, std::int64_t);

int __wrap_nanosleep(const timespec* t, timespec* rem) {
  if (!slow::on()) return __real_nanosleep(t, rem);
  std::int64_t n = slow::ns(*t), s = slow::scaled(n);
  timespec u = slow::ts(s);
  __real_nanosleep(&u, nullptr);
  slow::slept(n, s);
  if (rem) *rem = timespec{0, 0};
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rem) {
  if (!slow::on()) return __real_clock_nanosleep(c, flags, t, rem);
  std::int64_t n = slow::ns(*t) - (flags & TIMER_ABSTIME ? slow::real(c) + slow::skew() : 0), s = slow::scaled(n);
  timespec u = slow::ts(s);
  __real_clock_nanosleep(c, 0, &u, nullptr);
  slow::slept(n, s);
  if (rem) *rem = timespec{0, 0};
  return 0;
}
int __wrap_poll(pollfd* p, nfds_t n, int ms) {
  if (!slow::on() || ms <= 0) return __real_poll(p, n, ms);
  int s = (int)std::max<std::int64_t>(slow::scaled((std::int64_t)ms * 1000000) / 1000000, 1);
  int r = __real_poll(p, n, s);
  if (r == 0) slow::passed((std::int64_t)ms * 1000000, (std::int64_t)s * 1000000);
  return r;
}
int __wrap_select(int n, fd_set* a, fd_set* b, fd_set* c, timeval* t) {
  if (!slow::on() || !t) return __real_select(n, a, b, c, t);
  std::int64_t want = (std::int64_t)t->tv_sec * 1000000000 + (std::int64_t)t->tv_usec * 1000, s = slow::scaled(want);
  timeval u{(time_t)(s / 1000000000), (suseconds_t)(s % 1000000000 / 1000)};
  int r = __real_select(n, a, b, c, &u);
  if (r == 0) slow::passed(want, s);
  return r;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!slow::on()) return __real_pthread_cond_timedwait(c, m, t);
  std::int64_t now = slow::real(CLOCK_REALTIME), n = slow::ns(*t) - now - slow::skew(), s = slow::scaled(n);
  timespec u = slow::ts(now + s);
  int r = __real_pthread_cond_timedwait(c, m, &u);
  if (r == ETIMEDOUT) slow::passed(n, s);
  return r;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  if (!slow::on()) return __real_pthread_cond_clockwait(c, m, k, t);
  std::int64_t now = slow::real(k), n = slow::ns(*t) - now - slow::skew(), s = slow::scaled(n);
  timespec u = slow::ts(now + s);
  int r = __real_pthread_cond_clockwait(c, m, k, &u);
  if (r == ETIMEDOUT) slow::passed(n, s);
  return r;
}
std::int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  return __real__ZNSt6chrono3_V212steady_clock3nowEv() + (slow::on() ? slow::skew() : 0);
}
std::int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  return __real__ZNSt6chrono3_V212system_clock3nowEv() + (slow::on() ? slow::skew() : 0);
}
#define VERIF_FUTEX(name, clock)                                                                             \
  bool __wrap_##name(void* self, unsigned* a, unsigned v, bool has, std::int64_t sec, std::int64_t nsec) {   \
    if (!slow::on() || !has) return __real_##name(self, a, v, has, sec, nsec);                               \
    std::int64_t now = slow::real(clock), n = sec * 1000000000 + nsec - now - slow::skew();                  \
    std::int64_t s = slow::scaled(n), until = now + s;                                                       \
    bool r = __real_##name(self, a, v, true, until / 1000000000, until % 1000000000);                        \
    if (!r) slow::passed(n, s);                                                                              \
    return r;                                                                                                \
  }
VERIF_FUTEX(_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE,
            CLOCK_MONOTONIC)
VERIF_FUTEX(_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE,
            CLOCK_REALTIME)
#undef VERIF_FUTEX
}
#endif

#endif
