// Concurrent result cache under chosen interleavings of its threads.
// link: -lpthread
#include <algorithm>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include "common.h"
#include "util/Cache.h"
#include "util/Exception.h"
#include "util/HashMap.h"
#include "util/Log.h"
#include "interleave.h"
// From here on mutexes and condition variables are those of interleave.h.
#include "util/ConcurrentCache.h"
#include "util/Synchronized.h"
using namespace vh;

// The functions of a key are points where another thread may go on.
struct Key {
  int k = 0;
  bool operator==(const Key& o) const {
    vhs::yield();
    return k == o.k;
  }
  template <typename H>
  friend H AbslHashValue(H h, const Key& x) {
    vhs::yield();
    return H::combine(std::move(h), x.k);
  }
};
struct Val {
  int key = -1, serial = -1;
  size_t size() const { return 1; }
};
using Cache = ad_utility::ConcurrentCache<ad_utility::LRUCache<Key, Val>>;
struct OwnFailure : std::exception {
  int serial;
  explicit OwnFailure(int s) : serial(s) {}
  const char* what() const noexcept override { return "computation failed"; }
};

struct Action {
  enum Kind { REQUEST, CLEAR_ALL, CLEAR_UNPINNED, COUNT } kind = REQUEST;
  int key = 0;
  bool pinned = false, fails = false;
  int pauses = 0;  // points in the computation where others may go on
};
using Plan = std::vector<std::vector<Action>>;
struct Computation {
  int key, serial, thread;
  long start, end = -1, returned = -1;
  bool ok = false;
  std::vector<int> waiting;  // threads waiting at its end
};
struct Request {
  int thread, key;
  bool pinned;
  long start = 0, end = 0;
  int own = -1;  // computation done by this request
  enum { VALUE, NULLPTR, WAITED, OWN, OTHER } outcome = OTHER;
  Val v;
  bool cached = false;
};
struct Clear {
  long start, end;
};
static const char* outcomes[] = {"value", "null pointer", "failure of another thread", "own failure", "other exception"};

struct Run {
  Cache cache;
  std::mutex own;
  std::vector<Computation> comps;
  std::vector<Request> reqs;
  std::vector<Clear> clears;
  std::atomic<long> clock{0};
  explicit Run(size_t capacity) : cache(capacity) {}
  void request(int thread, const Action& a) {
    Request q{thread, a.key, a.pinned};
    q.start = ++clock;
    auto compute = [&]() -> Val {
      size_t at;
      {
        std::lock_guard l(own);
        at = comps.size();
        comps.push_back({a.key, (int)at, thread, ++clock});
      }
      q.own = at;
      for (int i = 0; i < a.pauses; i++) vhs::yield();
      auto w = vhs::waiting();
      std::lock_guard l(own);
      comps[at].end = ++clock;
      comps[at].ok = !a.fails;
      comps[at].waiting = w;
      if (a.fails) throw OwnFailure((int)at);
      return Val{a.key, (int)at};
    };
    try {
      auto r = a.pinned ? cache.computeOncePinned(Key{a.key}, compute) : cache.computeOnce(Key{a.key}, compute);
      q.cached = r._wasCached;
      q.outcome = r._resultPointer ? Request::VALUE : Request::NULLPTR;
      if (r._resultPointer) q.v = *r._resultPointer;
    } catch (const OwnFailure& e) {
      q.outcome = q.own >= 0 && e.serial == q.own ? Request::OWN : Request::OTHER;
    } catch (const ad_utility::WaitedForResultWhichThenFailedException&) {
      q.outcome = Request::WAITED;
    } catch (const vhs::Abandoned&) {
      throw;
    } catch (...) {
      q.outcome = Request::OTHER;
    }
    std::lock_guard l(own);
    q.end = ++clock;
    if (q.own >= 0) comps[q.own].returned = q.end;
    reqs.push_back(q);
  }
  void act(int thread, const Action& a) {
    if (a.kind == Action::REQUEST) return request(thread, a);
    long start = ++clock;
    if (a.kind == Action::CLEAR_ALL) cache.clearAll();
    if (a.kind == Action::CLEAR_UNPINNED) cache.clearUnpinnedOnly();
    if (a.kind == Action::COUNT) (void)cache.numNonPinnedEntries();
    std::lock_guard l(own);
    if (a.kind != Action::COUNT) clears.push_back({start, ++clock});
  }
};
static std::string showPlan(const Plan& p) {
  std::string s;
  for (size_t t = 0; t < p.size(); t++) {
    s += "thread " + std::to_string(t) + ":";
    for (auto& a : p[t]) {
      if (a.kind == Action::REQUEST) {
        s += std::string(" request") + (a.pinned ? " pinned" : "") + " key " + std::to_string(a.key) +
             (a.fails ? " failing" : "") + ";";
      } else {
        s += a.kind == Action::COUNT ? " count;" : a.kind == Action::CLEAR_ALL ? " clear all;" : " clear unpinned;";
      }
    }
    s += "\n";
  }
  return s;
}
static void execute(Case& c, const Plan& plan, vhs::Sched& s, size_t capacity) {
  int keys = 0;
  for (auto& t : plan)
    for (auto& a : t) keys = std::max(keys, a.key + 1);
  auto run = std::make_unique<Run>(capacity);
  std::vector<std::function<void()>> fs;
  std::string order;
  auto pick = s.pick;
  uint64_t h = 5;
  s.pick = [&, pick](const std::vector<int>& can, int cur) {
    int n = pick(can, cur);
    h = mix(h, n + 1);
    if (c.verbose && n != cur) order += " " + std::to_string(s.steps) + ":" + std::to_string(n);
    return n;
  };
  for (size_t t = 0; t < plan.size(); t++) {
    fs.push_back([&, t] {
      for (auto& a : plan[t]) run->act(t, a);
    });
  }
  c.log(showPlan(plan));
  bool finished = vhs::run(s, fs);
  c.log("step:thread" + order + "\n");
  c.key(h);
  if (!finished) {
    c.fail("the threads wait for each other forever");
    run.release();  // locks may still be held
    return;
  }
  auto& comps = run->comps;
  bool evicts = capacity < (size_t)keys;
  auto cleared = [&](long from, long to) {
    if (evicts) return true;
    for (auto& x : run->clears)
      if (x.end >= from && x.start <= to) return true;
    return false;
  };
  auto name = [](const Computation& x) { return "computation " + std::to_string(x.serial) + " of key " + std::to_string(x.key); };
  for (auto& a : comps) {
    for (auto& b : comps) {
      if (a.key != b.key || b.start <= a.start) continue;
      c.check(b.start > a.end, name(b) + " was started during " + name(a));
      if (a.ok && !cleared(a.end, b.start)) c.fail(name(b) + " was started although " + name(a) + " had succeeded");
    }
  }
  for (auto& q : run->reqs) {
    std::string who = "request of key " + std::to_string(q.key) + " by thread " + std::to_string(q.thread) + ": ";
    c.log(who + outcomes[q.outcome] + (q.cached ? ", cached" : "") + "\n");
    c.check(q.outcome != Request::OTHER && q.outcome != Request::NULLPTR, who + outcomes[q.outcome]);
    if (q.own >= 0) {
      c.check(q.outcome == (comps[q.own].ok ? Request::VALUE : Request::OWN), who + "wrong outcome after own computation");
    }
    if (q.outcome == Request::VALUE) {
      bool known = q.v.serial >= 0 && q.v.serial < (int)comps.size();
      if (!known || q.v.key != q.key || comps[q.v.serial].key != q.key || !comps[q.v.serial].ok) {
        c.fail(who + "value that was not computed for this key");
        continue;
      }
      auto& from = comps[q.v.serial];
      if (q.own >= 0) c.check(q.own == q.v.serial && !q.cached, who + "not the own value, or announced as cached");
      if (q.own < 0 && from.returned < q.start) c.check(q.cached, who + "value of the cache not announced as cached");
    }
    if (q.outcome == Request::WAITED) {
      bool reason = false;
      for (auto& x : comps) reason |= x.key == q.key && !x.ok && x.returned >= q.start && x.start <= q.end;
      c.check(reason, who + "failure reported, but no computation failed meanwhile");
    }
    // Those who wait for a computation learn its outcome.
    if (q.own < 0) {
      for (auto& x : comps) {
        bool waits = std::find(x.waiting.begin(), x.waiting.end(), q.thread) != x.waiting.end();
        if (x.key != q.key || !waits || q.start > x.end || q.end < x.end) continue;
        bool earlier = false;  // it may wait for the end of an earlier computation
        for (auto& y : comps) earlier |= y.key == q.key && y.start < x.start && y.returned >= q.start;
        if (earlier) continue;
        if (x.ok) c.check(q.outcome == Request::VALUE && q.v.serial == x.serial, who + "did not get the value it waited for");
        else c.check(q.outcome == Request::WAITED, who + "was not told of the failure it waited for");
      }
    }
  }
  auto& cache = run->cache;
  std::map<int, int> good;
  std::map<int, bool> pinned;
  for (auto& x : comps)
    if (x.ok) good[x.key] = x.serial;
  for (auto& q : run->reqs)
    if (q.pinned && q.outcome == Request::VALUE) pinned[q.key] = true;
  for (int k = 0; k < keys; k++) {
    std::string what = "key " + std::to_string(k);
    auto at = cache.resultAt(Key{k});
    c.check(cache.cacheContains(Key{k}) == (at != nullptr), what + ": presence in the cache");
    if (at) c.check(good.count(k) && at->key == k && comps[at->serial].ok && comps[at->serial].key == k, what + ": wrong value in the cache");
    if (!good.count(k)) c.check(!at, what + ": a failed computation is cached");
    else if (run->clears.empty() && !evicts) c.check(at && at->serial == good[k], what + ": the value is not cached");
  }
  if (run->clears.empty() && !evicts) {
    cache.clearUnpinnedOnly();
    for (int k = 0; k < keys; k++) {
      c.check(cache.cacheContains(Key{k}) == pinned[k], "key " + std::to_string(k) + (pinned[k] ? ": is not pinned" : ": is pinned"));
    }
  }
  cache.clearAll();
  for (int k = 0; k < keys; k++) {
    size_t n = comps.size();
    Action a;
    a.key = k;
    run->request(99, a);
    c.check(comps.size() == n + 1, "key " + std::to_string(k) + ": not computed again after the cache was emptied");
    run->request(99, a);
    c.check(comps.size() == n + 1 && run->reqs.back().cached, "key " + std::to_string(k) + ": computed again although cached");
  }
}
struct RandomPolicy {
  vhs::Sched s;
  explicit RandomPolicy(Rng& r) {
    int change = r.chance(50) ? r.in(3, 25) : r.in(25, 100);
    s.pick = [&r, change](const std::vector<int>& can, int cur) {
      bool may = std::find(can.begin(), can.end(), cur) != can.end();
      return may && !r.chance(change) ? cur : can[r.below(can.size())];
    };
    s.spurious = r.chance(30) ? 10 : 0;
    s.chance = [&r](int p) { return r.chance(p); };
  }
};
static Plan randomPlan(Rng& r, bool clears) {
  Plan p(r.in(2, 4));
  int keys = r.in(1, 3), fail = r.chance(50) ? 0 : r.in(10, 60), pin = r.chance(50) ? 0 : r.in(10, 60);
  for (auto& t : p) {
    for (size_t i = r.in(1, 3); i > 0; i--) {
      Action a;
      a.key = r.below(keys);
      a.fails = r.chance(fail);
      a.pinned = r.chance(pin);
      a.pauses = r.below(8);
      if (clears && r.chance(25)) a.kind = Action::Kind(r.in(1, 3));
      t.push_back(a);
    }
  }
  return p;
}
static uint64_t planKey(const Plan& p) {
  uint64_t h = 3;
  for (auto& t : p) {
    h = mix(h, 1000);
    for (auto& a : t) h = mix(h, a.key * 64 + a.kind * 16 + a.pinned * 8 + a.fails * 4);
  }
  return h;
}
SUITE(requests, false, 5000, 100000, "2 to 4 threads with 1 to 3 requests each for up to 3 keys, failing and pinned ones among them, random schedules") {
  Plan p = randomPlan(c.rng, false);
  c.key(planKey(p));
  RandomPolicy s(c.rng);
  execute(c, p, s.s, 100);
}
SUITE(clearing, false, 3000, 60000, "the same while threads empty the cache") {
  Plan p = randomPlan(c.rng, true);
  c.key(planKey(p));
  RandomPolicy s(c.rng);
  execute(c, p, s.s, 100);
}
SUITE(eviction, false, 2000, 40000, "the same with room for one result only") {
  Plan p = randomPlan(c.rng, false);
  for (auto& t : p)
    for (auto& a : t) a.pinned = false;
  c.key(planKey(p));
  RandomPolicy s(c.rng);
  execute(c, p, s.s, 1);
}
// All schedules with at most two changes of thread that are not forced.
static const int STEPS = 64;
static const Plan& twoThreads(int i) {
  static std::vector<Plan> v = [] {
    std::vector<Plan> v;
    for (int m = 0; m < 9; m++) {
      Action a, b;
      a.pauses = b.pauses = 2;
      a.fails = m % 3 == 1;
      b.fails = m % 3 == 2;
      a.pinned = m / 3 == 1;
      b.pinned = m / 3 == 2;
      v.push_back({{a}, {b}});
    }
    return v;
  }();
  return v[i];
}
SUITE(twoThreads, true, 9 * 2 * STEPS * (STEPS + 1) / 2, 9 * 2 * STEPS * (STEPS + 1) / 2, "two threads requesting the same result, one of them failing or pinning, all schedules with at most two preemptions in the first 64 steps") {
  uint64_t n = c.number;
  int plan = n % 9;
  n /= 9;
  int first = n % 2;
  n /= 2;
  long i = 0;
  while (n >= (uint64_t)(STEPS - i)) n -= STEPS - i, i++;
  long j = i + n;  // i == j: one preemption
  vhs::Sched s;
  s.pick = [&](const std::vector<int>& can, int cur) {
    if (cur < 0) return first;
    bool may = std::find(can.begin(), can.end(), cur) != can.end();
    int other = 1 - cur;
    bool otherMay = std::find(can.begin(), can.end(), other) != can.end();
    if (!may) return other;
    return (s.steps == i || s.steps == j) && otherMay ? other : cur;
  };
  c.key(c.number);
  execute(c, twoThreads(plan), s, 100);
}
// Protected data: read, let others go on, write back.
template <typename S>
static void protectedData(Case& c) {
  auto& r = c.rng;
  S data{std::pair<long, long>{0, 0}};
  long writes = 0;
  bool torn = false;
  std::vector<std::function<void()>> fs;
  std::vector<std::vector<int>> plan(r.in(2, 4));
  for (auto& p : plan)
    for (size_t i = r.in(1, 4); i > 0; i--) p.push_back(r.below(4)), writes += p.back() < 2;
  std::mutex m;
  for (size_t t = 0; t < plan.size(); t++) {
    fs.push_back([&, t] {
      for (int kind : plan[t]) {
        auto write = [](std::pair<long, long>& d) {
          long x = d.first;
          vhs::yield();
          d.first = x + 1;
          vhs::yield();
          d.second++;
          return 0;
        };
        std::pair<long, long> seen{0, 0};
        auto read = [](const std::pair<long, long>& d) {
          long x = d.first;
          vhs::yield();
          return std::make_pair(x, d.second);
        };
        if (kind == 0) data.withWriteLock(write);
        if (kind == 1) {
          auto l = data.wlock();
          write(*l);
        }
        if constexpr (S::isShared) {
          if (kind == 2) seen = data.withReadLock(read);
          if (kind == 3) {
            auto l = data.rlock();
            seen = read(*l);
          }
        } else {
          const S& k = data;
          if (kind == 2) seen = k.withWriteLock(read);
          if (kind == 3) seen = read(*k.wlock());
        }
        std::lock_guard l(m);
        torn |= seen.first != seen.second;
      }
    });
  }
  for (auto& p : plan)
    for (int k : p) c.key(k), c.log(" " + std::to_string(k));
  RandomPolicy s(r);
  if (!vhs::run(s.s, fs)) {
    c.fail("deadlock");
    return;
  }
  c.key(s.s.steps);
  c.check(!torn, "a reader saw a half-finished change");
  auto end = *data.wlock();
  c.check(end.first == writes && end.second == writes, "a change was lost");
}
SUITE(exclusive, false, 2000, 20000, "data protected by an exclusive lock, 2 to 4 threads with 1 to 4 accesses") {
  protectedData<ad_utility::Synchronized<std::pair<long, long>, std::mutex>>(c);
}
SUITE(shared, false, 2000, 20000, "data protected by a lock that readers share") {
  protectedData<ad_utility::Synchronized<std::pair<long, long>, std::shared_mutex>>(c);
}
#ifdef __SANITIZE_THREAD__
SUITE(spinLock, false, 300, 3000, "data protected by a spin lock") {
  protectedData<ad_utility::Synchronized<std::pair<long, long>, ad_utility::SpinLock>>(c);
}
#endif
int main(int argc, char** argv) {
#ifdef __SANITIZE_THREAD__
  vhs::uncontrolled() = true;  // real threads, data races are found by the sanitizer
#endif
  return vh::main(argc, argv);
}
