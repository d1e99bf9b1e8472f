// Memory accounting: real allocators sharing a limit, against a ledger.
#include <atomic>
#include <thread>

#include "rows.h"
#include "util/AllocatorWithLimit.h"
using namespace vh;
using ad_utility::AllocatorWithLimit;
using Exceeds = ad_utility::detail::AllocationExceedsLimitException;

struct S3 {
  char x[3];
};
// One kind of element: an allocator and the blocks it has handed out.
struct Kind {
  virtual ~Kind() = default;
  virtual size_t size() const = 0;
  virtual void* get(size_t n) = 0;
  virtual void put(void* p, size_t n) = 0;
  virtual size_t left() const = 0;
  virtual void copyAllocator() = 0;
};
template <typename T>
struct KindOf : Kind {
  AllocatorWithLimit<T> a;
  explicit KindOf(ad_utility::detail::AllocationMemoryLeftThreadsafe m) : a{m} {}
  size_t size() const override { return sizeof(T); }
  void* get(size_t n) override { return a.allocate(n); }
  void put(void* p, size_t n) override { a.deallocate(static_cast<T*>(p), n); }
  size_t left() const override { return a.numFreeBytes(); }
  void copyAllocator() override {
    AllocatorWithLimit<T> b = a;
    a = b;
  }
};
struct Block {
  size_t kind, n;
  unsigned char* p;
  unsigned char fill;
};
SUITE(ledger, false, 8000, 100000, "histories of up to 40 requests and returns by four allocators of different element sizes sharing a limit of up to 4000 bytes") {
  Rng& r = c.rng;
  size_t limit = r.chance(20) ? 0 : r.below(4000), used = 0;
  auto m = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
  std::vector<std::unique_ptr<Kind>> kinds;
  kinds.push_back(std::make_unique<KindOf<char>>(m));
  kinds.push_back(std::make_unique<KindOf<S3>>(m));
  kinds.push_back(std::make_unique<KindOf<Id>>(m));
  kinds.push_back(std::make_unique<KindOf<std::array<Id, 5>>>(m));
  std::vector<Block> blocks;
  c.log("limit " + std::to_string(limit) + "\n");
  c.key(limit);
  for (size_t k = r.in(1, 40); k > 0 && c.problems.empty(); k--) {
    if (r.chance(60)) {
      size_t i = r.below(4), sz = kinds[i]->size(), n = r.below(limit / sz + 3);
      if (r.chance(50)) n = r.below(limit / sz / 4 + 2);
      if (r.chance(10)) n = (limit - used) / sz + r.below(3);
      if (r.chance(3)) n = (size_t)-1 / sz - r.below(3);
      bool fits = n <= (limit - used) / sz;
      c.log("request " + std::to_string(n) + " x " + std::to_string(sz) + (fits ? "\n" : " (too much)\n"));
      c.key(n * 8 + i);
      try {
        auto* p = static_cast<unsigned char*>(kinds[i]->get(n));
        c.check(fits, "request beyond the limit granted: " + std::to_string(n * sz) + " of " + std::to_string(limit - used));
        if (!fits) return;
        Block b{i, n, p, (unsigned char)r.below(256)};
        std::memset(p, b.fill, n * sz);
        blocks.push_back(b);
        used += n * sz;
      } catch (const Exceeds&) {
        c.check(!fits, "request within the limit refused: " + std::to_string(n * sz) + " of " + std::to_string(limit - used));
      }
    } else if (!blocks.empty()) {
      size_t j = r.below(blocks.size());
      Block b = blocks[j];
      size_t bytes = b.n * kinds[b.kind]->size();
      c.log("return " + std::to_string(bytes) + "\n");
      c.key(j);
      for (size_t q = 0; q < bytes; q++)
        if (b.p[q] != b.fill) return c.fail("memory handed out twice");
      kinds[b.kind]->put(b.p, b.n);
      blocks.erase(blocks.begin() + j);
      used -= bytes;
    } else {
      kinds[r.below(4)]->copyAllocator();
    }
    for (auto& x : kinds) c.check(x->left() == limit - used, "left " + std::to_string(x->left()) + " instead of " + std::to_string(limit - used));
  }
  for (auto& b : blocks) kinds[b.kind]->put(b.p, b.n), used -= b.n * kinds[b.kind]->size();
  c.check(kinds[0]->left() == limit, "after returning everything " + std::to_string(kinds[0]->left()) + " of " + std::to_string(limit) + " bytes are left");
}
SUITE(tablesWithLimit, false, 3000, 30000, "tables that grow under a limit: what they hold is taken from the limit, refused growth leaves table and limit unchanged") {
  Rng& r = c.rng;
  size_t limit = r.below(6000);
  auto m = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
  AllocatorWithLimit<Id> a{m};
  c.key(limit);
  c.log("limit " + std::to_string(limit) + "\n");
  {
    size_t w = r.in(1, 4);
    std::vector<IdTable> ts;
    std::vector<Table> want;
    for (size_t i = 0; i < 3; i++) ts.emplace_back(w, a), want.emplace_back();
    for (size_t k = r.in(1, 200); k > 0 && c.problems.empty(); k--) {
      size_t i = r.below(3), before = a.numFreeBytes(), n = ts[i].size();
      int op = r.below(20);
      c.key(op * 4 + i);
      try {
        if (op == 0) ts[i] = IdTable(w, a), want[i].clear();
        else if (op == 1) ts[i] = ts[(i + 1) % 3], want[i] = want[(i + 1) % 3];
        else if (op == 2) ts[i].reserve(n + r.below(100));
        else {
          ts[i].push_back();
          RowV v;
          for (size_t q = 0; q < w; q++) v.push_back(ts[i](n, q) = r.next());
          want[i].push_back(v);
        }
      } catch (const Exceeds&) {
        c.check(a.numFreeBytes() == before, "a refused request changed the memory left");
        if (op == 1) ts[i] = IdTable(w, a), want[i].clear();  // a table that could not be copied to is given up
        else c.check(ts[i].size() == n, "a refused request changed the table");
      }
      size_t held = 0;
      for (auto& t : ts) held += t._data._data.capacity() * sizeof(Id);
      c.check(a.numFreeBytes() + held == limit, "left " + std::to_string(a.numFreeBytes()) + " held " + std::to_string(held) + " limit " + std::to_string(limit));
      c.check(fromIdTable(ts[i]) == want[i], "rows changed");
    }
  }
  c.check(a.numFreeBytes() == limit, "after deleting everything " + std::to_string(a.numFreeBytes()) + " of " + std::to_string(limit) + " bytes are left");
}
SUITE(severalLimits, false, 3000, 30000, "containers of three limits that are copied, moved, swapped and grown: each counts towards the limit its content came from") {
  Rng& r = c.rng;
  using Vec = std::vector<int, AllocatorWithLimit<int>>;
  std::vector<size_t> limits;
  std::vector<AllocatorWithLimit<int>> as;
  for (int i = 0; i < 3; i++) {
    limits.push_back(r.in(2000, 4000));
    as.emplace_back(ad_utility::makeAllocationMemoryLeftThreadsafeObject(limits[i]));
  }
  {
    std::vector<Vec> vs;
    std::vector<std::vector<int>> want(4);
    std::vector<size_t> owner;
    for (size_t i = 0; i < 4; i++) owner.push_back(i % 3), vs.emplace_back(as[i % 3]);
    for (size_t k = r.in(1, 60); k > 0 && c.problems.empty(); k--) {
      size_t i = r.below(4), j = (i + r.in(1, 3)) % 4;
      int op = r.below(8);
      c.key(op * 16 + i * 4 + j);
      const char* names[] = {"copied to", "moved to", "swapped with", "built from"};
      if (op < 4) c.log(std::to_string(i) + " is " + names[op] + " " + std::to_string(j) + "\n");
      if (op == 0) vs[i] = vs[j], want[i] = want[j], owner[i] = owner[j];
      else if (op == 1) vs[i] = std::move(vs[j]), want[i] = want[j], owner[i] = owner[j], vs[j] = Vec(as[owner[j]]), want[j].clear();
      else if (op == 2) std::swap(vs[i], vs[j]), std::swap(want[i], want[j]), std::swap(owner[i], owner[j]);
      else if (op == 3) { Vec x(vs[j]); vs[i] = std::move(x); want[i] = want[j]; owner[i] = owner[j]; }
      else if (op == 4) vs[i] = Vec(as[owner[i]]), want[i].clear();
      else for (size_t n = r.below(20); n > 0 && want[i].size() < 60; n--) vs[i].push_back(k), want[i].push_back(k);
      for (size_t l = 0; l < 3; l++) {
        size_t held = 0;
        for (size_t q = 0; q < 4; q++) if (owner[q] == l) held += vs[q].capacity() * sizeof(int);
        c.check(as[l].numFreeBytes() + held == limits[l], "limit " + std::to_string(l) + ": left " + std::to_string(as[l].numFreeBytes()) + " held " + std::to_string(held) + " limit " + std::to_string(limits[l]));
      }
      c.check(std::equal(vs[i].begin(), vs[i].end(), want[i].begin(), want[i].end()), "content changed");
    }
  }
  for (size_t l = 0; l < 3; l++) c.check(as[l].numFreeBytes() == limits[l], "not everything was given back");
}
#ifdef PLAIN
SUITE(failedAllocation, false, 50, 500, "requests within the limit that the system cannot serve") {
  Rng& r = c.rng;
  size_t limit = (size_t)-1 / 2 - r.below(1000);
  auto m = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
  AllocatorWithLimit<Id> a{m};
  AllocatorWithLimit<char> b{m};
  c.check(a == a && !(a != a), "equality of allocators");
  size_t n = limit / sizeof(Id) - r.below(100);
  c.key(limit);
  c.log("limit " + std::to_string(limit) + " request " + std::to_string(n) + "\n");
  if (a.numFreeBytes() != limit) c.fail("memory left at the start");
  try {
    a.deallocate(a.allocate(n), n);
  } catch (const std::bad_alloc&) {
  } catch (const Exceeds&) {
    c.fail("refused although within the limit");
  }
  c.check(b.numFreeBytes() == limit, "a failed request changed the memory left by " + std::to_string(limit - b.numFreeBytes()));
}
#endif
SUITE(threads, false, 40, 400, "four threads that request and return up to 300 times under one limit") {
  Rng& r = c.rng;
  size_t limit = r.in(100, 3000);
  auto m = ad_utility::makeAllocationMemoryLeftThreadsafeObject(limit);
  c.key(limit);
  c.log("limit " + std::to_string(limit) + "\n");
  std::atomic<long> used{0};
  std::atomic<bool> over{false};
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++) {
    uint64_t seed = r.next();
    ts.emplace_back([&, seed] {
      Rng q(seed);
      AllocatorWithLimit<Id> a{m};
      std::vector<std::pair<Id*, size_t>> mine;
      for (int k = 0; k < 300; k++) {
        if (q.chance(55) || mine.empty()) {
          size_t n = q.in(1, 40);
          try {
            Id* p = a.allocate(n);
            if ((used += n * sizeof(Id)) > (long)limit) over = true;
            mine.emplace_back(p, n);
          } catch (const Exceeds&) {
          }
        } else {
          used -= mine.back().second * sizeof(Id);
          a.deallocate(mine.back().first, mine.back().second);
          mine.pop_back();
        }
      }
      for (auto& x : mine) used -= x.second * sizeof(Id), a.deallocate(x.first, x.second);
    });
  }
  for (auto& t : ts) t.join();
  c.check(!over, "more memory was handed out than the limit");
  AllocatorWithLimit<char> a{m};
  c.check(a.numFreeBytes() == limit, "after returning everything " + std::to_string(a.numFreeBytes()) + " of " + std::to_string(limit) + " bytes are left");
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
