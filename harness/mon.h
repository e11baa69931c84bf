// Common part of all monitors: arguments, random choices, counters, verdicts.
//
// A harness drives the real code of /repo/src and reports what its oracles saw:
//  - mon::eval()      one more judged execution
//  - mon::distinct(h) a hash of a non-trivial case (for counting distinct ones)
//  - mon::count(k,n)  named observation counter
//  - mon::sample(s)   a case written out (a few are kept)
//  - mon::violation() the oracle was contradicted
// Exit code: 0 held, 1 violated, 3 the harness itself is broken, 77 no progress.
#ifndef VERIF_MON_H
#define VERIF_MON_H

#include <fcntl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace mon {

struct Args {
  std::string prop = "?";
  std::string tag, flavor = "?";
  std::string out;
  std::string mode;
  std::uint64_t seed = 1;
  bool thorough = false;
  int shard = 0;
  int shards = 1;
  double scale = 1.0;
  // integers that occur in the sources
  std::vector<unsigned __int128> dict;
};

inline Args& args() {
  static Args a;
  return a;
}

inline std::uint64_t splitmix(std::uint64_t& s) {
  std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

inline std::uint64_t mix(std::uint64_t a, std::uint64_t b = 0) {
  std::uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15D1B54A32ull);
  splitmix(s);
  return splitmix(s);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n,
                                std::uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return mix(h, n);
}

inline std::uint64_t hash_str(const std::string& s) {
  return hash_bytes(s.data(), s.size());
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed) {}
  std::uint64_t u64() { return splitmix(s); }
  // uniform in [0, n)
  std::uint64_t below(std::uint64_t n) { return n ? u64() % n : 0; }
  // uniform in [a, b]
  std::int64_t range(std::int64_t a, std::int64_t b) {
    return a + (std::int64_t)below((std::uint64_t)(b - a + 1));
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
};

struct State {
  std::mutex m;
  std::map<std::string, std::uint64_t> counters;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, std::uint64_t> violations;
  std::atomic<std::uint64_t> evals{0};
  std::atomic<std::uint64_t> progress{0};
  FILE* out = nullptr;
};

inline State& state() {
  static State* s = new State;
  return *s;
}

inline std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}

inline void eval(std::uint64_t n = 1) {
  state().evals += n;
  state().progress += 1;
}

inline void count(const std::string& k, std::uint64_t n = 1) {
  std::lock_guard<std::mutex> l(state().m);
  state().counters[k] += n;
}

constexpr std::size_t kMaxDistinct = 200000;

inline void distinct(std::uint64_t h) {
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  if (s.distinct.size() < kMaxDistinct) s.distinct.insert(h);
}

inline void sample(const std::string& text, std::size_t keep = 3) {
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  if (s.samples.size() < keep) s.samples.push_back(text);
}

inline std::uint64_t violation_count() {
  std::lock_guard<std::mutex> l(state().m);
  std::uint64_t n = 0;
  for (auto& v : state().violations) n += v.second;
  return n;
}

inline void finish_locked(State& s);

// Real time, whatever the code under test is made to see.
inline std::int64_t seconds_now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec;
}

// Report that the oracle was contradicted. `key` names what failed, `detail`
// is the witness. A process that has found a lot, or that has found something
// and been running for long, need not go on.
inline void violation(const std::string& key, const std::string& detail) {
  static const std::int64_t start = seconds_now();
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  auto n = s.violations[key]++;
  if (n < 3 && s.out) {
    std::fprintf(s.out, "{\"violation\":%s,\"detail\":%s}\n", json(key).c_str(),
                 json(detail).c_str());
    std::fflush(s.out);
  }
  static std::uint64_t total = 0;
  if (++total >= 400 || seconds_now() - start > 60) {
    finish_locked(s);
    std::fflush(nullptr);
    _exit(1);
  }
}

inline void finish_locked(State& s) {
  if (!s.out) return;
  std::string r = "{\"done\":true,\"evaluations\":" + std::to_string(s.evals.load());
  r += ",\"counters\":{";
  bool first = true;
  for (auto& c : s.counters) {
    if (!first) r += ",";
    first = false;
    r += json(c.first) + ":" + std::to_string(c.second);
  }
  r += "},\"samples\":[";
  first = true;
  for (auto& c : s.samples) {
    if (!first) r += ",";
    first = false;
    r += json(c);
  }
  r += "],\"violations\":{";
  first = true;
  for (auto& c : s.violations) {
    if (!first) r += ",";
    first = false;
    r += json(c.first) + ":" + std::to_string(c.second);
  }
  r += "}}\n";
  std::fputs(r.c_str(), s.out);
  std::fclose(s.out);
  s.out = nullptr;
  FILE* f = std::fopen((args().out + ".distinct").c_str(), "wb");
  if (f) {
    for (auto h : s.distinct) std::fwrite(&h, 8, 1, f);
    std::fclose(f);
  }
}

inline void finish() {
  State& s = state();
  std::lock_guard<std::mutex> l(s.m);
  finish_locked(s);
}

// The harness cannot do its job (its own reference is wrong, no ports, ...).
[[noreturn]] inline void broken(const std::string& why) {
  std::fprintf(stderr, "HARNESS-ERROR: %s\n", why.c_str());
  std::fflush(stderr);
  _exit(3);
}

// A stream buffer that any number of threads may write to, and that keeps
// nothing.
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

// A stream buffer that any number of threads may write to, and that keeps
// everything.
struct CaptureBuf : std::streambuf {
  std::mutex m;
  std::string text;
  int overflow(int c) override {
    std::lock_guard<std::mutex> l(m);
    if (c != EOF) text += (char)c;
    return c == EOF ? 0 : c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    std::lock_guard<std::mutex> l(m);
    text.append(p, (std::size_t)n);
    return n;
  }
  std::string take() {
    std::lock_guard<std::mutex> l(m);
    return std::move(text);
  }
};

inline NullBuf& null_buf() {
  static NullBuf* b = new NullBuf;
  return *b;
}

// Exit with 77 if no judged execution completes for `seconds`. The driver runs
// the harness again before it believes it.
inline void watchdog(unsigned seconds) {
  std::thread([seconds] {
    std::uint64_t last = state().progress;
    std::int64_t since = seconds_now();
    while (true) {
      usleep(200000);
      std::uint64_t now = state().progress;
      std::int64_t t = seconds_now();
      if (now != last) {
        last = now;
        since = t;
      } else if (t - since > (std::int64_t)seconds) {
        std::fprintf(stderr, "STALLED: no progress for %u s\n", seconds);
        std::fflush(stderr);
        _exit(77);
      }
    }
  }).detach();
}

// Whether that much memory may be used (large cases are left out otherwise).
inline bool memory_for(std::uint64_t gb) {
  std::ifstream f("/proc/meminfo");
  for (std::string l; std::getline(f, l);)
    if (l.rfind("MemAvailable:", 0) == 0) return std::stoull(l.substr(13)) >= (gb + 4) << 20;
  return false;
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
// Memory that nothing refers to any more at the end of the work. Where the leak
// sanitizer cannot run (it stops the threads by tracing them), a child finds out.
inline void leaks() {
  if (!std::getenv("VERIF_LEAKS")) return;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) dup2(fd, 2);
    __lsan_do_recoverable_leak_check();
    _exit(0);
  }
  int status = 1;
  if (pid < 0 || waitpid(pid, &status, 0) != pid || status != 0) {
    count("leak check not possible");
    return;
  }
  std::fflush(stderr);
  FILE* report = std::tmpfile();
  int err = dup(2);
  if (report) dup2(fileno(report), 2);
  int found = __lsan_do_recoverable_leak_check();
  dup2(err, 2);
  count("leak checks");
  eval();
  if (!found) return;
  std::string text, line;
  if (report) {
    std::rewind(report);
    for (int c; (c = std::fgetc(report)) != EOF && text.size() < 3000;) text += (char)c;
  }
  std::fputs(text.c_str(), stderr);
  violation("mem.leak", text.substr(0, 1200));
}
#else
inline void leaks() {}
#endif

inline std::string& where() {
  static thread_local std::string w;
  return w;
}

inline int run_main(int argc, char** argv, const std::function<void()>& body) {
  Args& a = args();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") a.prop = v;
    if (k == "--flavor") a.flavor = v;
    if (k == "--tag") a.tag = v;
    if (k == "--out") a.out = v;
    if (k == "--mode") a.mode = v;
    if (k == "--dict") {
      unsigned __int128 n = 0;
      for (char c : v + ",") {
        if (c == ',') {
          a.dict.push_back(n);
          n = 0;
        } else {
          n = 10 * n + (unsigned)(c - '0');
        }
      }
    }
    if (k == "--seed") a.seed = std::stoull(v);
    if (k == "--tier") a.thorough = v == "thorough";
    if (k == "--shard") a.shard = std::stoi(v);
    if (k == "--shards") a.shards = std::stoi(v);
    if (k == "--scale") a.scale = std::stod(v);
  }
  if (!a.out.empty()) {
    state().out = std::fopen(a.out.c_str(), "w");
    if (!state().out) broken("cannot write " + a.out);
  }
  std::cout.rdbuf(&null_buf());
  try {
    body();
  } catch (const std::exception& e) {
    violation(a.prop + ".unexpected-exception",
              std::string("uncaught: ") + e.what() + " at " + where());
  }
  leaks();
  bool bad = violation_count() > 0;
  finish();
  std::fflush(nullptr);
  _exit(bad ? 1 : 0);
}

// A stream of seeds that differs per seed, property, flavor and shard.
inline std::uint64_t base_seed() {
  Args& a = args();
  return mix(mix(a.seed, hash_str(a.prop + a.mode)),
             mix(hash_str(a.flavor + a.tag), (std::uint64_t)a.shard));
}

// A number in [lo, hi] at or near an integer that occurs in the sources, with the
// given chance and if there is one; `otherwise` if not. Thresholds in the code are
// where behaviour changes.
inline std::uint64_t near_constant(Rng& g, std::uint64_t lo, std::uint64_t hi, std::uint64_t otherwise,
                                   unsigned num = 1, unsigned den = 6) {
  if (!g.chance(num, den)) return otherwise;
  const auto& d = args().dict;
  auto a = std::lower_bound(d.begin(), d.end(), lo > 20 ? lo : 20);
  auto b = std::upper_bound(a, d.end(), (unsigned __int128)hi);
  if (a == b) return otherwise;
  std::uint64_t v = (std::uint64_t)*(a + (long)g.below((std::uint64_t)(b - a)));
  switch (g.below(8)) {
    case 0:
      v--;
      break;
    case 1:
    case 2:
      v++;
      break;
    case 3:
      v += g.below(16);
      break;
    case 4:
      v *= 1 + g.below(3);
      break;
    case 5:
      v += 1 + v / 2 + g.below(v / 2 + 1);
      break;
  }
  return v < lo || v > hi ? otherwise : v;
}

// Any integer of the sources, or next to one.
inline unsigned __int128 constant(Rng& g) {
  const auto& d = args().dict;
  if (d.empty()) return g.u64();
  return d[g.below(d.size())] + (unsigned __int128)(std::int64_t)g.range(-1, 1);
}

// Number of rounds: `quick` or `thorough` times the scale.
inline std::size_t rounds(double quick, double thorough) {
  double r = (args().thorough ? thorough : quick) * args().scale;
  return r < 1 ? 1 : (std::size_t)r;
}

// Run f and tell if it threw a std::exception (text in *what).
template <typename F>
bool throws(F&& f, std::string* what = nullptr) {
  try {
    f();
  } catch (const std::exception& e) {
    if (what) *what = e.what();
    return true;
  }
  return false;
}

template <typename... Ts>
std::string cat(const Ts&... ts) {
  std::ostringstream ss;
  (ss << ... << ts);
  return ss.str();
}

inline std::string dec(__uint128_t v) {
  if (!v) return "0";
  std::string r;
  while (v) {
    r.insert(r.begin(), (char)('0' + (int)(v % 10)));
    v /= 10;
  }
  return r;
}

inline std::string hex(const void* p, std::size_t n) {
  static const char* d = "0123456789abcdef";
  const unsigned char* c = static_cast<const unsigned char*>(p);
  std::string r;
  for (std::size_t i = 0; i < n; i++) {
    r += d[c[i] >> 4];
    r += d[c[i] & 15];
  }
  return r;
}

}  // namespace mon

#endif
