// Arrays that live in a file or move there when they grow, against plain vectors.
#include <filesystem>
#include <memory>

#include "common.h"
#include "util/BufferedVector.h"
#include "util/MmapVector.h"
using namespace vh;
using ad_utility::AccessPattern;

struct Odd {
  uint32_t a = 0, b = 0, c = 0;
  Odd() = default;
  explicit Odd(uint64_t x) : a(x), b(x >> 32), c(x * 7) {}
  bool operator==(const Odd& o) const { return a == o.a && b == o.b && c == o.c; }
};
static std::string fileName() {
  const char* t = getenv("VH_TMP");
  static int n = 0;
  return std::string(t ? t : ".") + "/array-" + std::to_string(getpid()) + "-" + std::to_string(n++ % 4);
}
template <typename V, typename T>
static void same(Case& c, const V& v, const std::vector<T>& m, const std::string& when) {
  if (v.size() != m.size()) return c.fail(when + ": size " + std::to_string(v.size()) + " instead of " + std::to_string(m.size()));
  for (size_t i = 0; i < m.size(); i++)
    if (!(v[i] == m[i])) return c.fail(when + ": element " + std::to_string(i) + " of " + std::to_string(m.size()) + " is wrong");
  c.check((size_t)(v.end() - v.begin()) == m.size(), when + ": end() - begin()");
  if (!m.empty()) c.check(v.at(m.size() - 1) == m.back() && *(v.cend() - 1) == m.back(), when + ": last element");
  bool out = false;
  try {
    (void)v.at(m.size());
  } catch (const std::out_of_range&) {
    out = true;
  }
  c.check(out, when + ": access behind the end is not refused");
}
static uint64_t value(Rng& r) { return r.chance(20) ? r.below(3) : r.next(); }

template <typename T>
static void buffered(Case& c) {
  Rng& r = c.rng;
  size_t threshold = r.chance(50) ? r.below(8) : r.below(1500);
  std::string f = fileName();
  c.log("threshold " + std::to_string(threshold) + "\n");
  c.key(threshold);
  {
    auto v = std::make_unique<ad_utility::BufferedVector<T>>(threshold, f);
    std::vector<T> m;
    for (size_t k = r.in(1, 12); k > 0 && c.problems.empty(); k--) {
      int op = r.below(10);
      c.key(op);
      std::string name;
      if (op < 6) {
        size_t n = r.chance(50) ? r.below(6) : r.chance(70) ? r.below(threshold + 4) : r.below(3000);
        name = "append " + std::to_string(n);
        for (size_t i = 0; i < n; i++) {
          T x(value(r));
          v->push_back(x), m.push_back(x);
        }
      } else if (op < 8) {
        name = "overwrite";
        for (size_t n = r.below(6); n > 0 && !m.empty(); n--) {
          size_t i = r.below(m.size());
          T x(value(r));
          int how = r.below(3);
          if (how == 0) (*v)[i] = x;
          else if (how == 1) v->at(i) = x;
          else *(v->begin() + i) = x;
          m[i] = x;
        }
      } else if (op == 8) {
        name = "clear";
        v->clear(), m.clear();
      } else {
        name = "move";
        v = std::make_unique<ad_utility::BufferedVector<T>>(std::move(*v));
      }
      c.log(name + "\n");
      c.key(m.size());
      same(c, *v, m, name);
    }
  }
  c.check(!std::filesystem::exists(f), "file left behind");
}
SUITE(buffered64, false, 1500, 20000, "histories of up to 12 operations on arrays of 8-byte elements, thresholds up to 1500, up to 20000 elements") { buffered<uint64_t>(c); }
SUITE(bufferedOdd, false, 1500, 20000, "the same for elements of 12 bytes") { buffered<Odd>(c); }

template <typename T>
static void mapped(Case& c) {
  Rng& r = c.rng;
  std::string f = fileName(), g = fileName();
  std::filesystem::remove(f);
  std::vector<T> m;
  auto v = std::make_unique<ad_utility::MmapVector<T>>();
  AccessPattern P[] = {AccessPattern::None, AccessPattern::Random, AccessPattern::Sequential};
  switch (r.below(3)) {
    case 0:
      v->open(f, ad_utility::CreateTag(), P[r.below(3)]);
      c.log("create\n");
      break;
    case 1: {
      T x(value(r));
      m.assign(r.chance(50) ? r.below(5) : r.below(3000), x);
      v->open(m.size(), x, f, P[r.below(3)]);
      c.log("create with " + std::to_string(m.size()) + " times one value\n");
      break;
    }
    default: {
      for (size_t n = r.below(2000); n > 0; n--) m.push_back(T(value(r)));
      v->open(m.begin(), m.end(), f, P[r.below(3)]);
      c.log("create from " + std::to_string(m.size()) + " elements\n");
    }
  }
  same(c, *v, m, "new");
  for (size_t k = r.in(1, 14); k > 0 && c.problems.empty(); k--) {
    int op = r.below(12);
    std::string name;
    c.key(op);
    if (op < 4) {
      size_t n = r.chance(50) ? r.below(6) : r.below(2500);
      name = "append " + std::to_string(n);
      for (size_t i = 0; i < n; i++) {
        T x(value(r));
        if (r.chance(50)) v->push_back(x);
        else v->push_back(T(x));
        m.push_back(x);
      }
      if (!m.empty()) c.check(v->back() == m.back(), "back()");
    } else if (op < 6) {
      name = "overwrite";
      for (size_t n = r.below(6); n > 0 && !m.empty(); n--) {
        size_t i = r.below(m.size());
        T x(value(r));
        int how = r.below(3);
        if (how == 0) (*v)[i] = x;
        else if (how == 1) v->at(i) = x;
        else *(v->begin() + i) = x;
        m[i] = x;
      }
    } else if (op == 6) {
      size_t n = r.chance(50) ? r.below(m.size() + 1) : r.below(4000);
      name = "resize to " + std::to_string(n);
      size_t old = m.size();
      v->resize(n);
      m.resize(n);
      for (size_t i = old; i < n; i++) m[i] = T(value(r)), (*v)[i] = m[i];
    } else if (op == 7) {
      size_t n = r.below(5000);
      name = "reserve " + std::to_string(n);
      v->reserve(n);
      c.check(v->capacity() >= n && v->capacity() >= m.size(), "capacity after reserve");
    } else if (op == 8) {
      name = "clear";
      if (r.chance(40)) v->clear(), m.clear();
    } else if (op == 9) {
      name = "close and open again";
      v->close();
      if (r.chance(50)) {
        ad_utility::MmapVectorView<T> view(f);
        same(c, view, m, "read-only view");
        ad_utility::MmapVectorView<T> other(std::move(view));
        same(c, other, m, "moved view");
      }
      v->open(f, ad_utility::ReuseTag(), P[r.below(3)]);
    } else if (op == 10) {
      name = "move";
      if (r.chance(50)) {
        v = std::make_unique<ad_utility::MmapVector<T>>(std::move(*v));
      } else {
        auto w = std::make_unique<ad_utility::MmapVector<T>>();
        if (r.chance(50)) w->open(r.below(300), T(value(r)), g);
        *w = std::move(*v);
        v = std::move(w);
      }
      c.check(v->getFilename() == f, "file name after a move");
    } else {
      name = "pattern";
      v->setAccessPattern(P[r.below(3)]);
    }
    c.log(name + "\n");
    c.key(m.size());
    same(c, *v, m, name);
  }
  v.reset();
  if (c.problems.empty()) {
    ad_utility::MmapVectorView<T> view(f);
    same(c, view, m, "view after the array is gone");
  }
  std::filesystem::remove(f);
  std::filesystem::remove(g);
}
SUITE(mapped64, false, 1500, 20000, "histories of up to 14 operations on file-backed arrays of 8-byte elements with closing and reopening") { mapped<uint64_t>(c); }
SUITE(mappedOdd, false, 1000, 20000, "the same for elements of 12 bytes") { mapped<Odd>(c); }
SUITE(mappedBytes, false, 600, 10000, "the same for single bytes") { mapped<uint8_t>(c); }
int main(int argc, char** argv) { return vh::main(argc, argv); }
