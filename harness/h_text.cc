// C25: log messages and text forms.
#include "frn/lib/logging/logger.h"
#include "frn/lib/logging/nowhere.h"
#include "frn/lib/logging/stdout.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/math/p.h"
#include "frn/lib/tools.h"
#include "mon.h"
#include "ref.h"

#include <array>
#include <ctime>
#include <iterator>
#include <list>
#include <locale>

using namespace frn::lib;
using logging::Logger;
using ref::u128;
using ref::u64;

static void fail(const std::string& what, const std::string& d) { mon::violation("C25." + what, d); }

// --- log messages ---------------------------------------------------------------

struct Event {
  char kind;  // B, L, E
  int level;
  std::string text;
};

class Recorder : public Logger {
 public:
  std::vector<Event> events;
  std::string ToString() const override { return "Recorder"; }

 protected:
  void LogBegin(Level l) override { events.push_back({'B', (int)l, ""}); }
  void Log(const std::string& t) override { events.push_back({'L', -1, t}); }
  void LogEnd(Level l) override { events.push_back({'E', (int)l, ""}); }
};

// Counts how often it is printed.
struct Counted {
  std::string text;
  int* n;
};
static std::ostream& operator<<(std::ostream& os, const Counted& c) {
  ++*c.n;
  return os << c.text;
}

// What the message must be: walk over the format once.
static std::string expected(const std::string& fmt, const std::vector<std::string>& args) {
  std::string r;
  std::size_t k = 0;
  for (char c : fmt)
    if (c == '%' && k < args.size())
      r += args[k++];
    else
      r += c;
  return r;
}

static std::string random_text(mon::Rng& g, bool percent) {
  static const char* alphabet = " abcXYZ0129.,:;-+\\\"'{}()[]$#@!~\t";
  std::string s;
  std::size_t n = mon::near_constant(g, 1, 9000, g.chance(1, 40) ? g.below(3000) : g.below(14), 1, 40);
  for (std::size_t i = 0; i < n; i++) {
    if (percent && g.chance(1, 4))
      s += '%';
    else if (g.chance(1, 40))
      s += (char)(1 + g.below(255));
    else
      s += alphabet[g.below(33)];
  }
  return s;
}

static bool time_ok(const std::string& t, std::time_t a, std::time_t b) {
  for (std::time_t x = a - 1; x <= b + 1; x++) {  // the clocks differ a little
    std::tm l;
    localtime_r(&x, &l);
    char buf[16];
    std::snprintf(buf, sizeof buf, "%02d:%02d:%02d", l.tm_hour, l.tm_min, l.tm_sec);
    if (t == buf) return true;
  }
  return false;
}

struct Sinks {
  std::shared_ptr<Recorder> rec = std::make_shared<Recorder>();
  std::shared_ptr<logging::StdoutLogger> out = logging::create_logger<logging::StdoutLogger>();
  std::shared_ptr<logging::StdoutLogger> stamped = logging::create_logger<logging::StdoutLogger>(true);
  std::shared_ptr<logging::VoidLogger> silent = logging::create_logger<logging::VoidLogger>();
  mon::CaptureBuf cap, err;
};

static Sinks& sinks() {
  static Sinks* s = new Sinks;
  return *s;
}

template <typename... Ts>
static void emit_with(Logger& l, int level, const char* fmt, Ts&&... ts) {
  if (level == 0)
    l.Info(fmt, std::forward<Ts>(ts)...);
  else if (level == 1)
    l.Warn(fmt, std::forward<Ts>(ts)...);
  else
    l.Error(fmt, std::forward<Ts>(ts)...);
}

// Sends one message to all loggers and judges what they made of it.
using Emit = std::function<void(Logger&, int, const char*)>;
static void judge(mon::Rng& g, const std::string& fmt, const std::vector<std::string>& texts, const Emit& emit) {
  Sinks& s = sinks();
  int level = (int)g.below(3);
  std::string want = expected(fmt, texts);
  std::string id = mon::cat("level ", level, " format \"", fmt, "\" with ", texts.size(), " arguments");
  for (auto& t : texts) id += " <" + t.substr(0, 60) + ">";
  mon::where() = id;
  // a copy of the format in a block of exactly its size
  std::unique_ptr<char[]> f(new char[fmt.size() + 1]);
  std::memcpy(f.get(), fmt.c_str(), fmt.size() + 1);
  s.rec->events.clear();
  s.cap.take();
  s.err.take();
  auto* was_out = std::cout.rdbuf(&s.cap);
  auto* was_err = std::cerr.rdbuf(&s.err);
  auto* was_log = std::clog.rdbuf(&s.err);
  emit(*s.rec, level, f.get());
  std::string rec_out = s.cap.take();
  emit(*s.silent, level, f.get());
  std::string silent = s.cap.take();
  emit(*s.out, level, f.get());
  std::string plain = s.cap.take();
  std::time_t a = std::time(nullptr);
  emit(*s.stamped, level, f.get());
  std::time_t b = std::time(nullptr);
  std::string stamped = s.cap.take();
  std::string err = s.err.take();
  std::cout.rdbuf(was_out);
  std::cerr.rdbuf(was_err);
  std::clog.rdbuf(was_log);

  mon::eval(4);
  auto& e = s.rec->events;
  if (!(e.size() == 3 && e[0].kind == 'B' && e[0].level == level && e[1].kind == 'L' && e[2].kind == 'E' && e[2].level == level)) {
    std::string t;
    for (auto& x : e) t += mon::cat(" ", x.kind, x.level);
    fail("marks", id + " events" + t);
  } else if (e[1].text != want)
    fail("message", id + " got \"" + e[1].text + "\"");
  if (!rec_out.empty() || !err.empty()) fail("elsewhere", id + " wrote \"" + rec_out + err + "\"");
  if (!silent.empty()) fail("silent", id + " wrote \"" + silent + "\"");
  const char* marks[3] = {"[ ] ", "[W] ", "[E] "};
  if (plain != marks[level] + want + "\n") fail("stdout", id + " got \"" + plain + "\"");
  std::string m = marks[level];
  // mark, time stamp, message
  bool ok = stamped.size() == m.size() + 11 + want.size() + 1 && stamped.compare(0, m.size() + 1, m + "[") == 0 &&
            stamped.substr(m.size() + 9) == "] " + want + "\n" && time_ok(stamped.substr(m.size() + 1, 8), a, b);
  if (!ok) fail("stdout-time", id + " got \"" + stamped + "\"");
  mon::distinct(mon::hash_str(id));
  mon::count("messages");
  if (g.chance(1, 2000)) mon::sample(id);
}

// Builds argument lists of every mixture of types by recursion.
template <int Left, typename... Ts>
static void grow(mon::Rng& g, const std::string& fmt, std::vector<std::string> texts, std::size_t more, Ts&&... ts) {
  if constexpr (Left == 0) {
    judge(g, fmt, texts, [&](Logger& l, int level, const char* f) { emit_with(l, level, f, ts...); });
  } else {
    if (!more) return judge(g, fmt, texts, [&](Logger& l, int level, const char* f) { emit_with(l, level, f, ts...); });
    auto next = [&](const std::string& t, auto&& v) {
      texts.push_back(t);
      grow<Left - 1>(g, fmt, texts, more - 1, ts..., v);
    };
    if constexpr (Left == 3) switch (g.below(6)) {
      case 0: {
        char v = g.chance(1, 3) ? '%' : (char)(32 + g.below(90));
        return next(std::string(1, v), v);
      }
      case 1: {
        auto v = (math::Mp127::ValueType)(ref::rand_bits(g) % ref::P127);
        return next(mon::dec(v), math::FpElement<math::Mp127>(v));
      }
      case 2: {
        std::uint16_t v = (std::uint16_t)g.u64();
        return next(std::to_string(v), v);
      }
      default:
        break;
    }
    switch (g.below(4)) {
      case 0: {
        std::string v = random_text(g, true);
        return next(v, v);
      }
      case 1: {
        std::string v = random_text(g, true);
        return next(v.c_str(), v.c_str());
      }
      case 2: {
        int v = (int)g.u64();
        if (g.chance(1, 3)) v = (int)g.range(-3, 3);
        return next(std::to_string(v), v);
      }
      default: {
        u64 v = g.chance(1, 3) ? ~(u64)0 : g.u64() >> g.below(64);
        return next(mon::dec(v), v);
      }
    }
  }
}

static std::string random_format(mon::Rng& g, std::size_t args) {
  std::string f;
  std::size_t holes = g.chance(1, 2) ? args : g.below(args + 4);
  if (g.chance(1, 12)) return f;
  f = random_text(g, false);
  for (std::size_t i = 0; i < holes; i++) {
    f += '%';
    if (g.chance(2, 3)) f += random_text(g, false);
  }
  // a format ends at its first null
  for (auto& c : f)
    if (!c) c = 'z';
  return f;
}

static void messages(mon::Rng& g) {
  std::size_t n = g.below(4);
  std::string f = random_format(g, n);
  grow<3>(g, f, {}, n);
}

// Long argument lists; every argument is printed once if it is used.
static void long_message(mon::Rng& g) {
  int used[9] = {};
  std::vector<std::string> t;
  std::vector<Counted> c;
  for (int i = 0; i < 9; i++) {
    t.push_back(random_text(g, true));
    c.push_back({t.back(), &used[i]});
  }
  std::string f = random_format(g, 9);
  std::size_t holes = (std::size_t)std::count(f.begin(), f.end(), '%');
  judge(g, f, t, [&](Logger& l, int level, const char* fm) {
    emit_with(l, level, fm, c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]);
  });
  // four loggers; the silent one may or may not print it
  mon::eval();
  for (std::size_t i = 0; i < 9; i++) {
    if (i < holes ? used[i] < 3 || used[i] > 4 : used[i] > 1) fail("argument-use", mon::cat("argument ", i, " printed ", used[i], " times, format ", f));
  }
}

static void logger_facts() {
  Sinks& s = sinks();
  mon::eval(4);
  if (s.silent->ToString() != "VoidLogger") fail("name", s.silent->ToString());
  if (s.out->ToString() != "StdoutLogger") fail("name", s.out->ToString());
  if (s.stamped->ToString() != "StdoutLogger(with timestamps)") fail("name", s.stamped->ToString());
  std::shared_ptr<Logger> l = s.rec;
  s.rec->events.clear();
  LOG_INFO(l, "a % b", 1);
  LOG_WARN(l, "c % d", "x");
  LOG_ERROR(l, "e");
  auto& e = s.rec->events;
  bool ok = e.size() == 9;
  const char* w[3] = {"a 1 b", "c x d", "e"};
  for (int i = 0; ok && i < 3; i++) ok = e[3 * i].level == i && e[3 * i + 1].text == w[i] && e[3 * i + 2].level == i;
  if (!ok) fail("macros", mon::cat(e.size(), " events"));
}

// --- text forms -----------------------------------------------------------------

static void numbers(mon::Rng& g) {
  u128 v = g.chance(1, 2) ? ref::shaped(g, 128, ref::P127) : ref::rand_bits(g);
  if (g.chance(1, 3)) {  // around powers of ten
    v = 1;
    for (u64 k = g.below(39); k-- > 0;) v *= 10;
    v = v + g.below(3) - 1;
  }
  mon::where() = mon::dec(v);
  mon::eval(2);
  std::string t = utils::to_string<__uint128_t>(v);
  if (t != mon::dec(v)) fail("to_string-128", mon::dec(v) + " gives \"" + t + "\"");
  std::uint64_t w = (u64)(v >> g.below(100));
  if (g.chance(1, 10)) w = ~(u64)0 - g.below(3);
  t = utils::to_string<std::uint64_t>(w);
  if (t != mon::dec(w)) fail("to_string-64", mon::dec(w) + " gives \"" + t + "\"");
  // parsing
  auto zeros = std::string(g.chance(1, 4) ? g.below(60) : 0, '0');
  auto parse = [&](const char* what, auto zero, u128 x) {
    using T = decltype(zero);
    std::string s = zeros + mon::dec(x);
    mon::eval();
    T r = utils::from_string<T>(s);
    if ((u128)r != x) fail(mon::cat("from_string-", what), s + " gives " + mon::dec((u128)r));
  };
  parse("128", (u128)0, v);
  parse("64", (std::uint64_t)0, w);
  parse("32", (std::uint32_t)0, (std::uint32_t)w);
  parse("int", (int)0, (u128)((w >> 3) & 0x7fffffff));
  parse("long", (std::int64_t)0, (u128)(w >> 1));
  mon::distinct(mon::mix((u64)v, (u64)(v >> 64)));
}

// An iterator that can be read once, and that knows what it may read.
struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = int;
  using difference_type = std::ptrdiff_t;
  using pointer = const int*;
  using reference = int;
  std::shared_ptr<std::pair<std::size_t, bool>> at;  // position, beyond
  std::size_t limit;
  struct Proxy {
    int v;
    int operator*() const { return v; }
  };
  int operator*() const {
    if (at->first >= limit) at->second = true;
    return (int)at->first * 7 - 3;
  }
  Once& operator++() {
    at->first++;
    return *this;
  }
  Proxy operator++(int) {
    Proxy p{**this};
    at->first++;
    return p;
  }
};

static std::string list_text(const std::vector<std::string>& items, std::size_t size) {
  std::string r = "#[";
  for (std::size_t i = 0; i < size && i < 5; i++) r += (i ? ", " : "") + items[i];
  if (size > 5) r += mon::cat(", ... (", size - 5, " more element", size == 6 ? "" : "s", ")");
  return r + "]";
}

template <typename T, typename Make>
static void lists(mon::Rng& g, const char* what, Make make) {
  std::size_t n = mon::near_constant(g, 1, 9000, g.chance(1, 20) ? g.below(5000) : g.below(13), 1, 20);
  std::vector<std::string> t;
  std::vector<T> v;
  v.reserve(n);
  for (std::size_t i = 0; i < n; i++) {
    auto p = make();
    v.push_back(p.first);
    t.push_back(p.second);
  }
  mon::eval(3);
  std::string id = mon::cat(what, " list of ", n);
  mon::where() = id;
  std::string got = utils::to_string(v);
  if (got != list_text(t, n)) fail("list", id + " gives " + got);
  std::size_t k = g.below(n + 1);
  got = utils::to_string(v.begin(), k);
  if (got != list_text(t, k)) fail("list-front", id + mon::cat(" first ", k, " gives ") + got);
  std::list<T> l(v.begin(), v.end());
  std::size_t skip = g.below(n + 1);
  got = utils::to_string(std::next(l.begin(), (std::ptrdiff_t)skip), n - skip);
  if (got != list_text(std::vector<std::string>(t.begin() + (std::ptrdiff_t)skip, t.end()), n - skip))
    fail("list-back", id + mon::cat(" without the first ", skip, " gives ") + got);
  mon::distinct(mon::mix(mon::hash_str(list_text(t, n)), k * 131 + skip));
}

template <std::size_t K>
static void array(mon::Rng& g) {
  std::array<std::uint32_t, K> a;
  std::vector<std::string> t;
  for (auto& x : a) {
    x = (std::uint32_t)g.u64();
    t.push_back(std::to_string(x));
  }
  mon::eval();
  std::string got = utils::to_string(a);
  if (got != list_text(t, K)) fail("array", mon::cat(K, " items give ") + got);
}

static void once_list(mon::Rng& g) {
  std::size_t n = g.chance(1, 4) ? ((std::size_t)1 << g.below(63)) + g.below(7) : mon::near_constant(g, 1, 1ull << 62, g.below(12));
  Once it{std::make_shared<std::pair<std::size_t, bool>>(0, false), n};
  auto at = it.at;
  std::vector<std::string> t;
  for (std::size_t i = 0; i < n && i < 5; i++) t.push_back(std::to_string((int)i * 7 - 3));
  mon::eval();
  std::string got = utils::to_string(it, n);
  if (got != list_text(t, n)) fail("list-once", mon::cat(n, " items give ") + got);
  if (at->second) fail("list-beyond", mon::cat("read beyond ", n, " items"));
}

static void hex(mon::Rng& g) {
  static const char* d = "0123456789ABCDEF";
  std::size_t n = mon::near_constant(g, 1, 20000, g.chance(1, 30) ? g.below(20000) : g.below(40), 1, 30);
  std::unique_ptr<unsigned char[]> b(new unsigned char[n]);
  int style = (int)g.below(5);
  std::string want;
  for (std::size_t i = 0; i < n; i++) {
    b[i] = (unsigned char)(style == 0 ? g.below(16) : style == 1 ? 0xff - g.below(4) : style == 2 ? i : g.u64());
    if (i) want += ' ';
    want += d[b[i] >> 4];
    want += d[b[i] & 15];
  }
  mon::eval();
  mon::where() = mon::cat("hex of ", n);
  std::string got = utils::bytes2hex(b.get(), n);
  if (got != want) fail("hex", mon::hex(b.get(), n < 64 ? n : 64) + " gives " + got.substr(0, 200));
  mon::distinct(mon::hash_str(want));
}

static void body() {
  mon::watchdog(30);
  ref::self_check();
  mon::Rng g(mon::base_seed());
  logger_facts();
  std::size_t r = mon::rounds(12000, 400000);
  for (std::size_t i = 0; i < r; i++) {
    messages(g);
    if (i % 4 == 0) long_message(g);
    numbers(g);
    hex(g);
    once_list(g);
    switch (g.below(4)) {
      case 0:
        lists<int>(g, "int", [&] {
          int v = (int)g.u64();
          return std::make_pair(v, std::to_string(v));
        });
        break;
      case 1:
        lists<std::string>(g, "string", [&] {
          std::string v = random_text(g, true);
          return std::make_pair(v, v);
        });
        break;
      case 2:
        lists<math::FpElement<math::Mp61>>(g, "mp61", [&] {
          u64 v = g.u64() % ref::P61;
          return std::make_pair(math::FpElement<math::Mp61>(v), mon::dec(v));
        });
        break;
      default:
        lists<char>(g, "char", [&] {
          char v = (char)(33 + g.below(90));
          return std::make_pair(v, std::string(1, v));
        });
    }
    if (i % 8 == 0) {
      array<0>(g), array<1>(g), array<2>(g), array<4>(g), array<5>(g), array<6>(g), array<7>(g), array<100>(g);
    }
  }
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
