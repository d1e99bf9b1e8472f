// Rows as plain lists, comparison of tables; needs nothing but the table class.
#pragma once
#include <algorithm>
#include <map>

#include "common.h"
#include "engine/IdTable.h"

namespace vh {
using RowV = std::vector<Id>;
using Table = std::vector<RowV>;

inline ad_utility::AllocatorWithLimit<Id>& alloc() {
  static ad_utility::AllocatorWithLimit<Id> a{
      ad_utility::makeAllocationMemoryLeftThreadsafeObject(std::numeric_limits<size_t>::max())};
  return a;
}

inline IdTable toIdTable(const Table& t, size_t cols) {
  IdTable r(cols, alloc());
  for (const auto& row : t) {
    r.push_back();
    for (size_t c = 0; c < cols; c++) r(r.size() - 1, c) = row[c];
  }
  return r;
}

inline Table fromIdTable(const IdTable& t) {
  Table r;
  for (size_t i = 0; i < t.size(); i++) {
    RowV row;
    for (size_t c = 0; c < t.cols(); c++) row.push_back(t(i, c));
    r.push_back(row);
  }
  return r;
}

inline std::string show(const RowV& r) {
  std::string s = "(";
  for (size_t i = 0; i < r.size(); i++) {
    if (i) s += ",";
    s += r[i] == ID_NO_VALUE ? std::string("-") : std::to_string(r[i]);
  }
  return s + ")";
}
inline std::string show(const Table& t, size_t limit = 120) {
  std::string s = "[" + std::to_string(t.size()) + " rows:";
  for (size_t i = 0; i < t.size() && i < limit; i++) s += " " + show(t[i]);
  if (t.size() > limit) s += " ...";
  return s + "]";
}
template <typename V>
inline std::string showv(const V& v) {
  std::string s = "{";
  bool f = true;
  for (const auto& x : v) {
    if (!f) s += ",";
    f = false;
    s += std::to_string(x);
  }
  return s + "}";
}

inline void keyTable(Case& c, const Table& t) {
  c.key(t.size());
  for (const auto& r : t)
    for (auto x : r) c.key(x);
}

// now and then replace all values by larger ones that differ in the high bits only, keeping their order
inline void spread(Rng& r, std::initializer_list<Table*> ts) {
  unsigned k = r.below(10);
  if (k > 2) return;
  for (Table* t : ts)
    for (auto& row : *t)
      for (auto& x : row)
        if (x < (1u << 20)) x = k == 0 ? x << 32 : k == 1 ? x << 40 | 7 : x + (1ull << 63) - 2;
}
// sort lexicographically by the given columns, stable
inline void sortBy(Table& t, const std::vector<size_t>& cols) {
  std::stable_sort(t.begin(), t.end(), [&](const RowV& a, const RowV& b) {
    for (size_t c : cols) {
      if (a[c] != b[c]) return a[c] < b[c];
    }
    return false;
  });
}
inline bool isSortedBy(const Table& t, const std::vector<size_t>& cols) {
  for (size_t i = 1; i < t.size(); i++) {
    for (size_t c : cols) {
      if (t[i - 1][c] < t[i][c]) break;
      if (t[i - 1][c] > t[i][c]) return false;
    }
  }
  return true;
}

// compare as multisets
inline void expectBag(Case& c, const std::string& what, const Table& got, const Table& want) {
  Table g = got, w = want;
  std::sort(g.begin(), g.end());
  std::sort(w.begin(), w.end());
  if (g == w) return;
  Table extra, missing;
  std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(extra));
  std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(missing));
  c.fail(what + ": wrong rows; missing " + show(missing, 10) + " extra " + show(extra, 10) + " (got " +
         std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) + ")");
}
inline void expectSeq(Case& c, const std::string& what, const Table& got, const Table& want) {
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  c.fail(what + ": rows differ from position " + std::to_string(i) + "; got " +
         (i < got.size() ? show(got[i]) : std::string("end")) + " expected " +
         (i < want.size() ? show(want[i]) : std::string("end")) + " (sizes " + std::to_string(got.size()) + "/" +
         std::to_string(want.size()) + ")");
}

}  // namespace vh
