// C28: the shared queue.
#define VERIF_CHAOS_IMPL
#include <sched.h>

#include "frn/lib/net/shared_deque.h"
#include "mon.h"
#include "slow.h"

using u64 = std::uint64_t;
template <typename T>
using Q = frn::lib::net::SharedDeque<T>;

static void fail(const std::string& what, const std::string& d) { mon::violation(mon::args().prop + "." + what, d); }

// Something between two steps, so that steps of different threads meet in many ways.
static void pause(mon::Rng& g) {
  switch (g.below(10)) {
    case 0:
      sched_yield();
      break;
    case 1:
      for (volatile int i = (int)g.below(300); i > 0; i = i - 1) {
      }
      break;
    case 2:
      if (g.chance(1, 8)) usleep((useconds_t)g.below(60));
      break;
  }
}

// --- many producers, one consumer that looks and takes -----------------------------

struct Item {
  unsigned who = 0;
  u64 seq = 0;
  std::vector<unsigned char> payload;  // a function of who and seq
};
static std::vector<unsigned char> payload(u64 key, unsigned who, u64 seq) {
  u64 h = mon::mix(key ^ who, seq);
  std::vector<unsigned char> v(h % 4 == 0 ? 0 : h % 48);
  for (std::size_t i = 0; i < v.size(); i++) v[i] = (unsigned char)(mon::mix(h, i / 8) >> (8 * (i % 8)));
  return v;
}

static void stream(mon::Rng& g) {
  unsigned P = 1 + (unsigned)g.below(6);
  u64 per = mon::near_constant(g, 1, 9000, 1 + g.below(g.chance(1, 5) ? 3000 : 300), 1, 12);
  u64 key = g.u64(), seed = g.u64();
  bool eager = g.chance(1, 3), observers = g.chance(1, 2);
  std::string id = mon::cat("stream producers=", P, " items=", per, " key=", key);
  mon::where() = id;
  Q<Item> q;
  std::atomic<u64> clock{1};
  std::atomic<u64> started{0}, done{0}, pops_started{0}, pops_done{0};
  std::vector<std::vector<u64>> inv(P, std::vector<u64>(per, 0)), res(P, std::vector<u64>(per, 0));
  std::vector<std::vector<std::atomic<char>>> begun(P);
  for (auto& b : begun) b = std::vector<std::atomic<char>>(per);
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  for (unsigned p = 0; p < P; p++)
    ts.emplace_back([&, p] {
      mon::Rng h(mon::mix(seed, p));
      for (u64 k = 0; k < per; k++) {
        Item it;
        it.who = p;
        it.seq = k;
        it.payload = payload(key, p, k);
        if (!eager) pause(h);
        begun[p][k].store(1, std::memory_order_relaxed);
        started++;
        inv[p][k] = clock++;
        if (h.chance(1, 2)) {
          q.PushBack(it);
          // it is still ours
          if (it.payload != payload(key, p, k) || it.seq != k) fail("argument-changed", id);
          it.payload.assign(9, 0xEE);
        } else {
          q.PushBack(std::move(it));
        }
        res[p][k] = clock++;
        done++;
      }
    });
  std::thread watch([&] {
    if (!observers) return;
    mon::Rng h(mon::mix(seed, 99));
    while (!stop) {
      u64 d0 = done, o0 = pops_done;
      u64 s = q.Size();
      u64 i1 = pops_started, s1 = started;
      mon::eval();
      if (s + i1 < d0 || s + o0 > s1)
        fail("size", mon::cat(id, ": size ", s, " while at least ", (long long)(d0 - i1), " and at most ", s1 - o0, " items were there"));
      pause(h);
      if (!eager) usleep(5);
    }
  });
  // the consumer
  mon::Rng h(mon::mix(seed, 1000));
  std::vector<u64> next(P, 0);
  std::vector<std::pair<unsigned, u64>> order;
  for (u64 k = 0; k < P * per; k++) {
    if (!eager) pause(h);
    const Item& f = q.Front();
    Item a = f;
    if (h.chance(1, 4)) {  // looking does not take
      pause(h);
      const Item& f2 = q.Front();
      if (f2.who != a.who || f2.seq != a.seq || f2.payload != a.payload) fail("front", id + ": the first item changed");
    }
    mon::eval();
    if (a.who >= P || a.seq >= per || a.payload != payload(key, a.who, a.seq)) {
      fail("item", mon::cat(id, ": took an item that nobody pushed, number ", k));
      break;
    }
    if (!begun[a.who][a.seq]) fail("early", mon::cat(id, ": item seen before it was pushed"));
    if (a.seq != next[a.who]) {
      fail("order", mon::cat(id, ": item ", a.seq, " of producer ", a.who, " taken instead of ", next[a.who]));
      break;
    }
    next[a.who]++;
    order.push_back({a.who, a.seq});
    pops_started++;
    q.PopFront();
    pops_done++;
  }
  for (auto& t : ts) t.join();
  stop = true;
  watch.join();
  if (order.size() == P * per) {
    if (q.Size() != 0) fail("left", mon::cat(id, ": ", q.Size(), " items left"));
    // an item whose push was over before another one's began comes first
    u64 latest = 0;
    for (auto& o : order) {
      if (res[o.first][o.second] < latest) {
        fail("real-time-order", id + ": an item was overtaken by one that was pushed later");
        break;
      }
      latest = std::max(latest, inv[o.first][o.second]);
    }
    u64 hsh = key;
    for (std::size_t i = 0; i < order.size(); i++) hsh = mon::mix(hsh, order[i].first);
    mon::distinct(hsh);
    unsigned switches = 0;
    for (std::size_t i = 1; i < order.size(); i++) switches += order[i].first != order[i - 1].first;
    mon::count("producer_switches", switches);
  } else {
    mon::finish();
    _exit(1);  // nothing sensible can follow
  }
  mon::count("items", P * per);
  mon::sample(id);
}

// --- many producers and consumers that just take ------------------------------------

static void crowd(mon::Rng& g) {
  unsigned P = 1 + (unsigned)g.below(5), C = 1 + (unsigned)g.below(5), F = (unsigned)g.below(3);
  u64 total = mon::near_constant(g, 1, 6000, 1 + g.below(g.chance(1, 4) ? 2000 : 60), 1, 12);
  u64 seed = g.u64();
  std::string id = mon::cat("crowd producers=", P, " consumers=", C, " lookers=", F, " items=", total, " seed=", seed);
  mon::where() = id;
  Q<u64> q;
  // Consumers (and lookers, which look at the first item that ever comes) wait first.
  std::atomic<u64> taken{0}, looked{0}, started{0}, done{0}, pops_started{0}, pops_done{0};
  u64 left = g.below(4);  // that many more items are pushed than taken
  std::vector<std::thread> ts;
  std::atomic<bool> stop{false};
  for (unsigned c = 0; c < C; c++)
    ts.emplace_back([&, c] {
      mon::Rng h(mon::mix(seed, c));
      u64 mine = total / C + (c < total % C);
      for (u64 k = 0; k < mine; k++) {
        pause(h);
        pops_started++;
        q.PopFront();
        pops_done++;
        taken++;
        mon::eval();
      }
    });
  std::thread watch([&] {
    mon::Rng h(mon::mix(seed, 77));
    while (!stop) {
      u64 d0 = done, o0 = pops_done;
      u64 s = q.Size();
      u64 i1 = pops_started, s1 = started;
      mon::eval();
      if (s + i1 < d0 || s + o0 > s1)
        fail("size", mon::cat(id, ": size ", s, " while at least ", (long long)(d0 - i1), " and at most ", s1 - o0, " items were there"));
      pause(h);
      usleep(3);
    }
  });
  if (g.chance(1, 2)) usleep((useconds_t)g.below(300));
  for (unsigned p = 0; p < P; p++)
    ts.emplace_back([&, p] {
      mon::Rng h(mon::mix(seed, 100 + p));
      u64 mine = (total + left) / P + (p < (total + left) % P);
      for (u64 k = 0; k < mine; k++) {
        pause(h);
        started++;
        q.PushBack(p * 1000000 + k);
        done++;
      }
    });
  for (auto& t : ts) t.join();
  stop = true;
  watch.join();
  mon::eval();
  if (q.Size() != left) fail("left", mon::cat(id, ": ", q.Size(), " items left instead of ", left));
  // of what is left, the items of one producer are its last ones, in order
  std::map<u64, u64> last;
  for (u64 k = 0; k < left && q.Size(); k++) {
    u64 v = q.Front();
    u64 p = v / 1000000, s = v % 1000000, mine = p < P ? (total + left) / P + (p < (total + left) % P) : 0;
    if (p >= P || s >= mine || (last.count(p) && s != last[p] + 1)) fail("order", mon::cat(id, ": left is ", v));
    last[p] = s;
    q.PopFront();
  }
  for (auto& l : last)
    if (l.second + 1 != (total + left) / P + (l.first < (total + left) % P)) fail("order", mon::cat(id, ": a last item is missing"));
  mon::count("items", total);
  mon::count("crowds");
  mon::distinct(seed);
}

// Threads wait on an empty queue; some only look. As soon as there are items for all, all
// go on.
static void wake(mon::Rng& g) {
  unsigned takers = (unsigned)g.below(4), lookers = (unsigned)g.below(4);
  if (!takers && !lookers) takers = 1;
  u64 seed = g.u64();
  slow::Scope sc(slow::some(g, 24));
  if (slow::on()) mon::count("slow_wake_ups");
  std::string id = mon::cat("wake takers=", takers, " lookers=", lookers, " seed=", seed);
  mon::where() = id;
  Q<u64> q;
  std::atomic<unsigned> ready{0}, looked{0}, took{0};
  std::vector<std::thread> ts;
  std::vector<int> kinds;
  for (unsigned i = 0; i < takers; i++) kinds.push_back(0);
  for (unsigned i = 0; i < lookers; i++) kinds.push_back(1);
  g.shuffle(kinds);
  // there is one item more than takers when somebody looks, so that what a looker sees stays there
  unsigned items = takers + (lookers ? 1 : 0);
  for (int k : kinds)
    ts.emplace_back([&, k] {
      ready++;
      if (k) {
        (void)&q.Front();
        looked++;
      } else {
        q.PopFront();
        took++;
      }
    });
  while (ready < kinds.size()) sched_yield();
  if (g.chance(2, 3)) usleep((useconds_t)(50 + g.below(250)));
  slow::pause(g);
  bool burst = g.chance(1, 2);
  std::vector<std::thread> ps;
  for (unsigned i = 0; i < items; i++) {
    if (burst)
      ps.emplace_back([&, i] { q.PushBack((u64)i); });
    else {
      u64 v = i;
      g.chance(1, 2) ? q.PushBack(v) : q.PushBack(std::move(v));
      if (g.chance(1, 3)) usleep((useconds_t)g.below(100));
    }
  }
  for (auto& t : ps) t.join();
  for (auto& t : ts) t.join();  // the watchdog knows when one does not come back
  mon::eval();
  if (took != takers || looked != lookers || q.Size() != items - takers)
    fail("wake", mon::cat(id, ": ", q.Size(), " left"));
  mon::count("waiters_woken", kinds.size());
  mon::distinct(seed);
}

// --- short histories, checked for linearizability ------------------------------------------

struct Op {
  int kind;  // 0 push v, 1 pop, 2 size -> v, 3 front -> v
  u64 v = 0;
  u64 inv = 0, res = 0;
};

static bool explain(const std::vector<Op>& ops, u64 mask, std::vector<u64>& q, std::set<std::pair<u64, std::vector<u64>>>& seen) {
  if (mask == (1ull << ops.size()) - 1) return true;
  if (!seen.insert({mask, q}).second) return false;
  u64 first = ~0ull;  // no operation may be put after one that was over before it began
  for (std::size_t i = 0; i < ops.size(); i++)
    if (!(mask >> i & 1)) first = std::min(first, ops[i].res);
  for (std::size_t i = 0; i < ops.size(); i++) {
    if ((mask >> i & 1) || ops[i].inv > first) continue;
    const Op& o = ops[i];
    if (o.kind == 0) {
      q.push_back(o.v);
      if (explain(ops, mask | 1ull << i, q, seen)) return true;
      q.pop_back();
    } else if (o.kind == 1) {
      if (q.empty()) continue;
      u64 f = q.front();
      q.erase(q.begin());
      if (explain(ops, mask | 1ull << i, q, seen)) return true;
      q.insert(q.begin(), f);
    } else if (o.kind == 2) {
      if (q.size() != o.v) continue;
      if (explain(ops, mask | 1ull << i, q, seen)) return true;
    } else {
      if (q.empty() || q.front() != o.v) continue;
      if (explain(ops, mask | 1ull << i, q, seen)) return true;
    }
  }
  return false;
}

static void history(mon::Rng& g) {
  u64 seed = g.u64();
  unsigned T = 2 + (unsigned)g.below(3);
  bool one_consumer = g.chance(1, 2);  // then it may look, too
  std::vector<std::vector<Op>> plan(T);
  unsigned pushes = 0, pops = 0;
  std::vector<Op> all;
  for (unsigned t = 0; t < T; t++) {
    unsigned k = 2 + (unsigned)g.below(T == 2 ? 5 : 3);
    for (unsigned i = 0; i < k; i++) {
      Op o;
      u64 c = g.below(10);
      if (one_consumer)
        o.kind = t == 0 ? (c < 5 ? 1 : c < 9 ? 3 : 2) : (c < 7 ? 0 : 2);
      else
        o.kind = c < 4 ? 0 : c < 7 ? 1 : 2;
      if (o.kind == 0) o.v = 100 * (t + 1) + i, pushes++;
      if (o.kind == 1) pops++;
      plan[t].push_back(o);
    }
  }
  // enough items at the start that nobody waits for ever
  unsigned pre = pops + (one_consumer ? 1 : 0) - std::min(pops, (unsigned)g.below(pushes + 1));
  if (!one_consumer) pre = std::max(pre, pops > pushes ? pops - pushes : 0u);
  // with items still to come from the consumers themselves, waiting could be for ever
  if (!one_consumer) pre = pops;
  if (one_consumer) pre = std::max(pre, pops + 1 > pushes ? pops + 1 - pushes : 0u);
  Q<u64> q;
  std::atomic<u64> clock{1};
  for (unsigned i = 0; i < pre; i++) {
    Op o{0, i};
    o.inv = clock++;
    q.PushBack((u64)i);
    o.res = clock++;
    all.push_back(o);
  }
  std::atomic<unsigned> ready{0};
  std::vector<std::thread> ts;
  for (unsigned t = 0; t < T; t++)
    ts.emplace_back([&, t] {
      mon::Rng h(mon::mix(seed, t));
      ready++;
      while (ready < T) {
      }
      for (auto& o : plan[t]) {
        pause(h);
        o.inv = clock++;
        if (o.kind == 0) q.PushBack(o.v);
        if (o.kind == 1) q.PopFront();
        if (o.kind == 2) o.v = q.Size();
        if (o.kind == 3) o.v = q.Front();
        o.res = clock++;
      }
    });
  for (auto& t : ts) t.join();
  for (auto& p : plan)
    for (auto& o : p) all.push_back(o);
  // what is left tells what was taken
  u64 rest = q.Size();
  Op so{2, rest};
  so.inv = clock++;
  so.res = clock++;
  all.push_back(so);
  if (rest != pre + pushes - pops) {
    fail("left", mon::cat("history: ", rest, " items left instead of ", pre + pushes - pops));
    return;
  }
  for (u64 k = 0; k < rest; k++) {
    Op f{3, q.Front()};
    f.inv = clock++;
    f.res = clock++;
    all.push_back(f);
    Op p{1};
    p.inv = clock++;
    q.PopFront();
    p.res = clock++;
    all.push_back(p);
  }
  // the last part is sequential, and so may be long; more than 63 operations do not occur
  if (all.size() > 60) return;
  std::vector<u64> model;
  std::set<std::pair<u64, std::vector<u64>>> seen;
  mon::eval();
  bool ok = explain(all, 0, model, seen);
  std::string text;
  u64 overlap = 0, hsh = 0;
  std::vector<std::pair<u64, std::size_t>> ev;
  for (std::size_t i = 0; i < all.size(); i++) {
    text += mon::cat(" ", "pP#^"[all[i].kind], all[i].v, "[", all[i].inv, ",", all[i].res, "]");
    for (std::size_t j = 0; j < i; j++) overlap += all[i].inv < all[j].res && all[j].inv < all[i].res;
    ev.push_back({all[i].inv, i});
    ev.push_back({all[i].res, i + 1000});
  }
  std::sort(ev.begin(), ev.end());
  for (auto& e : ev) hsh = mon::mix(hsh, e.second * 8 + (u64)all[e.second % 1000].kind);
  if (!ok) fail("linearizability", "no order explains" + text);
  mon::count("histories");
  mon::count("overlapping_pairs", overlap);
  mon::distinct(hsh);
  mon::sample(text);
}

// --- one thread ---------------------------------------------------------------------------

struct Fragile {  // a copy of it may fail
  u64 v = 0;
  bool breaks = false;
  Fragile() = default;
  Fragile(u64 v, bool b) : v(v), breaks(b) {}
  Fragile(const Fragile& o) : v(o.v), breaks(o.breaks) {
    if (breaks) throw std::runtime_error("copy");
  }
};

static void sequential(mon::Rng& g) {
  std::string id = "sequential";
  mon::where() = id;
  Q<std::string> q;
  std::deque<std::string> model;
  std::size_t steps = 20 + g.below(2000);
  // now and then grows to a given length and shrinks again
  std::size_t target = g.chance(1, 3) ? mon::near_constant(g, 20, 20000, 100, 1, 1) : 0;
  bool growing = target > 0;
  if (target) steps = 4 * target + 100;
  for (std::size_t k = 0; k < steps; k++) {
    mon::eval();
    if (target && (growing ? model.size() >= target : model.empty())) growing = !growing;
    switch (!target ? g.below(5) : growing ? g.below(20) : 2 + g.below(6)) {
      case 5:
      case 6:
      case 7:
        if (!growing) {
          q.PopFront();
          model.pop_front();
          break;
        }
        [[fallthrough]];
      case 8:
      case 9:
      case 10:
      case 11:
      case 0:
      case 1: {
        std::string s(g.below(60), (char)('a' + g.below(26)));
        s += std::to_string(k);
        model.push_back(s);
        g.chance(1, 2) ? q.PushBack(s) : q.PushBack(std::string(s));
        break;
      }
      case 2:
        if (!model.empty()) {
          q.PopFront();
          model.pop_front();
        }
        break;
      case 3:
        if (!model.empty() && q.Front() != model.front()) {
          fail("front", id);
          return;
        }
        break;
      default:
        if (!model.empty() && g.chance(1, 4)) {
          q.Front() += "+";
          model.front() += "+";
        }
    }
    if (q.Size() != model.size()) {
      fail("size", mon::cat(id, ": ", q.Size(), " instead of ", model.size()));
      return;
    }
  }
  mon::distinct(g.u64());
  Q<Fragile> f;
  f.PushBack(Fragile(1, false));
  mon::eval(2);
  if (!mon::throws([&] {
        Fragile x(2, true);
        f.PushBack(x);
      }))
    fail("exception", "a failing copy was not reported");
  if (f.Size() != 1 || f.Front().v != 1) fail("exception", "after a failing copy");
  f.PopFront();
  Q<std::unique_ptr<int>> u;
  u.PushBack(std::make_unique<int>(5));
  if (*u.Front() != 5) fail("front", "move-only items");
  u.PopFront();
}

// A queue takes as many items as there are.
static void deep(mon::Rng& g, u64 n) {
  std::string id = mon::cat("deep items=", n);
  mon::where() = id;
  u64 key = g.u64();
  Q<u64> q;
  for (u64 i = 0; i < n; i++) {
    u64 v = mon::mix(key, i);
    (v & 256) ? q.PushBack(v) : q.PushBack(std::move(v));
  }
  u64 left = n;
  for (u64 i = 0; i < n; i++, left--) {
    if (i % 1000 == 0) mon::eval();
    u64 v = q.Front();
    if (v != mon::mix(key, i)) {
      fail("order", mon::cat(id, ": item ", i, " of a long queue is not there"));
      return;
    }
    if (i % 64 == 0 && q.Size() != left) {
      fail("size", mon::cat(id, ": ", q.Size(), " instead of ", left));
      return;
    }
    q.PopFront();
  }
  mon::eval();
  if (q.Size()) fail("left", mon::cat(id, ": ", q.Size(), " items left"));
  mon::count("items_of_long_queues", n);
}

static void body() {
  auto& a = mon::args();
  mon::watchdog(a.flavor == "vg" ? 90 : 30);
  mon::Rng g(mon::base_seed());
  if (a.prop == "C28" && a.flavor == "o2") {
    u64 len[] = {70000, 300000, 1100000, 4300000};
    for (int i = 0; i < 4; i++) deep(g, len[i] + g.below(1000));
    if (a.thorough) deep(g, 70000000);
    for (int i = 0; i < 4; i++) deep(g, mon::near_constant(g, 20000, 4000000, 30000, 1, 1));
  }
  std::size_t r = mon::rounds(400, 8000);
  for (std::size_t i = 0; i < r; i++) {
    stream(g);
    for (int k = 0; k < 2; k++) crowd(g);
    for (int k = 0; k < 4; k++) wake(g);
    for (int k = 0; k < 10; k++) history(g);
    if (i % 4 == 0) sequential(g);
  }
}

int main(int argc, char** argv) { return mon::run_main(argc, argv, body); }
