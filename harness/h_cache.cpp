// Result cache and priority queues under random histories, against plain lists.
#include <list>
#include <numeric>
#include <optional>

#include "common.h"
#include "util/Cache.h"
// link: -lpthread
using namespace vh;

static uint64_t now = 0;  // logical time, advanced by every use
struct Tick {
  template <typename... A>
  uint64_t operator()(const A&...) const {
    return ++now;
  }
};
template <typename T>
using HeapLru = ad_utility::HeapBasedCache<int, T, uint64_t, std::less<>, Tick, Tick>;
template <typename T>
using TreeLru = ad_utility::TreeBasedCache<int, T, uint64_t, std::less<>, Tick, Tick>;

struct Item {
  int key;
  std::string value;
};
static std::string showItems(const std::list<Item>& l) {
  std::string s;
  for (auto& x : l) s += " " + std::to_string(x.key) + ":" + std::to_string(x.value.size());
  return s;
}
template <typename C>
static void history(Case& c, C& cache, size_t maxN, size_t maxSize, size_t maxSingle, const std::function<void()>& wait) {
  Rng& r = c.rng;
  std::list<Item> lru;  // least recently used first
  std::map<int, std::string> pinned;
  size_t keys = r.in(2, 8);
  auto sizes = [&](size_t& a, size_t& b) {
    a = b = 0;
    for (auto& x : lru) a += x.value.size();
    for (auto& x : pinned) b += x.second.size();
  };
  auto find = [&](int k) { return std::find_if(lru.begin(), lru.end(), [&](auto& x) { return x.key == k; }); };
  auto shrink = [&] {
    size_t a, b;
    for (sizes(a, b); !lru.empty() && (lru.size() + pinned.size() > maxN || a + b > maxSize); sizes(a, b)) lru.pop_front();
  };
  c.log("at most " + std::to_string(maxN) + " entries, size " + std::to_string(maxSize) + ", single " + std::to_string(maxSingle) + "\n");
  std::vector<std::pair<std::shared_ptr<const std::string>, std::string>> held;  // results still in use
  for (size_t steps = r.in(1, 60); steps > 0 && c.problems.empty(); steps--) {
    int op = r.below(20), k = r.below(keys);
    std::string v(r.chance(15) ? r.below(60) : r.below(12), 'a' + r.below(20));
    std::string name;
    bool present = pinned.count(k) || find(k) != lru.end();
    c.key(op * 1000 + k * 100 + v.size());
    wait();
    if (op < 8) {
      bool pin = op == 7;
      name = std::string(pin ? "pin " : "insert ") + std::to_string(k) + " of size " + std::to_string(v.size());
      c.log(name + "\n");
      bool refused = present || (pin && v.size() > maxSingle);
      try {
        auto p = pin ? cache.insertPinned(k, v) : cache.insert(k, v);
        c.check(!refused, name + " is accepted");
        if (p) held.emplace_back(p, v), c.check(*p == v, name + " returns another value");
        else c.check(!pin && v.size() > maxSingle, name + " returns nothing");
        if (pin) pinned[k] = v;
        else if (v.size() <= maxSingle) lru.push_back({k, v});
        shrink();
      } catch (const std::runtime_error&) {
        c.check(refused, name + " is refused");
      }
    } else if (op < 14) {
      name = "look up " + std::to_string(k);
      c.log(name + "\n");
      auto p = cache[k];
      c.check((p != nullptr) == present, name + ": " + (p ? "found" : "not found") + "; the cache should hold" + showItems(lru));
      if (p && present) {
        auto it = find(k);
        c.check(*p == (it != lru.end() ? it->value : pinned[k]), name + ": wrong value");
        if (it != lru.end()) lru.splice(lru.end(), lru, it);
        held.emplace_back(p, *p);
      }
    } else if (op < 16) {
      name = "look up and pin " + std::to_string(k);
      c.log(name + "\n");
      bool b = cache.containsAndMakePinnedIfExists(k);
      c.check(b == present, name + ": wrong answer");
      auto it = find(k);
      if (it != lru.end()) pinned[k] = it->value, lru.erase(it);
    } else if (op < 18) {
      name = "erase " + std::to_string(k);
      c.log(name + "\n");
      cache.erase(k);
      pinned.erase(k);
      auto it = find(k);
      if (it != lru.end()) lru.erase(it);
    } else if (op == 18 && r.chance(30)) {
      bool all = r.chance(40);
      name = all ? "clear all" : "clear";
      c.log(name + "\n");
      all ? cache.clearAll() : cache.clearUnpinnedOnly();
      lru.clear();
      if (all) pinned.clear();
    } else if (op == 19 && r.chance(30)) {
      maxN = r.below(8);
      name = "allow " + std::to_string(maxN) + " entries";
      c.log(name + "\n");
      cache.setMaxNumEntries(maxN);
      shrink();
    }
    size_t a, b;
    sizes(a, b);
    c.check(cache.numNonPinnedEntries() == lru.size() && cache.numPinnedEntries() == pinned.size(),
            "after " + name + ": " + std::to_string(cache.numNonPinnedEntries()) + "+" + std::to_string(cache.numPinnedEntries()) + " entries instead of " +
                std::to_string(lru.size()) + "+" + std::to_string(pinned.size()));
    c.check(cache.nonPinnedSize() == a && cache.pinnedSize() == b, "after " + name + ": sizes " + std::to_string(cache.nonPinnedSize()) + "+" +
                                                                       std::to_string(cache.pinnedSize()) + " instead of " + std::to_string(a) + "+" + std::to_string(b));
    for (size_t q = 0; q < keys; q++)
      c.check(cache.contains(q) == (pinned.count(q) || find(q) != lru.end()), "after " + name + ": key " + std::to_string(q) + (cache.contains(q) ? " is" : " is not") +
                                                                                  " in the cache, which should hold" + showItems(lru));
  }
  for (auto& h : held) c.check(*h.first == h.second, "a result that is still in use has changed");
}
static void limits(Rng& r, size_t& n, size_t& size, size_t& single) {
  n = r.chance(20) ? 1000 : r.below(6);
  size = r.chance(40) ? 100000 : r.below(60);
  single = r.chance(60) ? 100000 : r.below(30);
}
SUITE(heap, false, 8000, 100000, "histories of up to 60 operations on 2 to 8 keys, heap-based queue, logical time") {
  size_t n, s, e;
  limits(c.rng, n, s, e);
  now = 0;
  HeapLru<std::string> cache(n, s, e, std::less<>(), Tick{}, Tick{});
  history(c, cache, n, s, e, [] {});
}
SUITE(tree, false, 6000, 100000, "the same with the tree-based queue") {
  size_t n, s, e;
  limits(c.rng, n, s, e);
  now = 0;
  TreeLru<std::string> cache(n, s, e, std::less<>(), Tick{}, Tick{});
  history(c, cache, n, s, e, [] {});
}
SUITE(realTime, false, 1500, 20000, "the same with the cache as used by the server and real time") {
  size_t n, s, e;
  limits(c.rng, n, s, e);
  ad_utility::LRUCache<int, std::string> cache(n, s, e);
  history(c, cache, n, s, e, [] {
    for (auto t = std::chrono::steady_clock::now(); std::chrono::steady_clock::now() == t;) {
    }
  });
}
template <template <typename, typename, typename> class PQ>
static void queue(Case& c) {
  Rng& r = c.rng;
  bool desc = r.chance(30);
  auto less = [desc](int a, int b) { return desc ? b < a : a < b; };
  using Q = PQ<int, int, decltype(less)>;
  Q q(less);
  struct E {
    typename Q::Handle h;
    int score, value;
    bool in;
  };
  std::vector<E> es;
  int next = 0;
  c.key(desc);
  auto inside = [&] {
    size_t n = 0;
    for (auto& e : es) n += e.in;
    return n;
  };
  for (size_t steps = r.in(1, 50); steps > 0 && c.problems.empty(); steps--) {
    int op = r.below(10), s = r.below(5);
    std::string name;
    c.key(op * 8 + s);
    if (op < 3 || es.empty()) {
      name = "insert " + std::to_string(next) + " with " + std::to_string(s);
      c.log(name + "\n");
      es.push_back({q.insert(s, next), s, next, true});
      next++;
    } else if (op < 7) {
      auto& e = es[r.below(es.size())];
      if (!e.in) continue;
      name = "change " + std::to_string(e.value) + " from " + std::to_string(e.score) + " to " + std::to_string(s);
      c.log(name + "\n");
      q.updateKey(s, &e.h);
      e.score = s;
    } else if (op == 7) {
      auto& e = es[r.below(es.size())];
      if (!e.in) continue;
      name = "erase " + std::to_string(e.value);
      c.log(name + "\n");
      auto h = e.h;
      q.erase(std::move(h));
      e.in = false;
    } else {
      name = "pop";
      c.log(name);
      try {
        auto h = q.pop();
        int v = h.value();
        c.log(" gives " + std::to_string(v) + "\n");
        c.check(v >= 0 && v < next && es[v].in, "pop returns " + std::to_string(v) + ", which is not in the queue");
        if (!c.problems.empty()) return;
        c.check(h.score() == es[v].score, "pop: score");
        for (auto& e : es) c.check(!e.in || !less(e.score, es[v].score), "pop returns " + std::to_string(v) + " before " + std::to_string(e.value));
        es[v].in = false;
      } catch (const ad_utility::EmptyPopException&) {
        c.log("\n");
        c.check(inside() == 0, "pop says the queue is empty");
      }
    }
    c.check(q.size() == inside() && q.empty() == (inside() == 0), "after " + name + ": size " + std::to_string(q.size()) + " instead of " + std::to_string(inside()));
  }
}
SUITE(heapQueue, false, 8000, 100000, "histories of up to 50 inserts, changes, erasures and pops with scores below 5, heap-based") { queue<ad_utility::HeapBasedPQ>(c); }
SUITE(treeQueue, false, 6000, 100000, "the same with the tree-based queue") { queue<ad_utility::TreeBasedPQ>(c); }
int main(int argc, char** argv) { return vh::main(argc, argv); }
