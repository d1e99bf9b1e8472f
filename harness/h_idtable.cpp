// Result tables under random histories of operations, against a list of rows.
#include "rows.h"
using namespace vh;

template <typename T>
static void compare(Case& c, T& t, const Table& want, size_t w, const std::string& after) {
  const T& k = t;
  c.check(k.size() == want.size() && k.rows() == want.size() && k.cols() == w,
          "after " + after + ": " + std::to_string(k.size()) + " rows and " + std::to_string(k.cols()) + " columns instead of " +
              std::to_string(want.size()) + " and " + std::to_string(w));
  if (!c.problems.empty()) return;
  Table cells, rows, its, cits, raw;
  for (size_t i = 0; i < k.size(); i++) {
    RowV a, b, d;
    for (size_t j = 0; j < w; j++) a.push_back(k(i, j)), b.push_back(k[i][j]), d.push_back(k.data()[i * w + j]);
    cells.push_back(a), rows.push_back(b), raw.push_back(d);
  }
  for (auto it = t.begin(); it != t.end(); ++it) {
    RowV a;
    for (size_t j = 0; j < w; j++) a.push_back((*it)[j]);
    its.push_back(a);
  }
  for (auto it = k.end(); it > k.begin();) {
    it--;
    RowV a;
    for (size_t j = 0; j < w; j++) a.push_back((*it)[j]);
    cits.insert(cits.begin(), a);
  }
  c.check(cells == want, "after " + after + " the cells are " + show(cells) + " instead of " + show(want));
  c.check(rows == want, "after " + after + " the rows are " + show(rows) + " instead of " + show(want));
  c.check(raw == want, "after " + after + " the stored values are " + show(raw) + " instead of " + show(want));
  c.check(its == want, "after " + after + " iterating gives " + show(its) + " instead of " + show(want));
  c.check(cits == want, "after " + after + " iterating backwards gives " + show(cits) + " instead of " + show(want));
  c.check((size_t)(k.end() - k.begin()) == want.size(), "after " + after + " the distance of the iterators is wrong");
  if (!want.empty()) {
    RowV b;
    for (size_t j = 0; j < w; j++) b.push_back(k.back()[j]);
    c.check(b == want.back(), "after " + after + " the last row is " + show(b));
  }
}
static RowV randomRow(Rng& r, size_t w) {
  RowV v;
  for (size_t i = 0; i < w; i++) v.push_back(r.chance(30) ? r.next() : r.below(5));
  return v;
}
template <typename T>
static void fillRow(T& t, size_t i, const RowV& v) {
  for (size_t j = 0; j < v.size(); j++) t(i, j) = v[j];
}
template <int COLS>
static void history(Case& c, size_t w) {
  Rng& r = c.rng;
  using T = IdTableStatic<COLS>;
  T t(w, alloc());
  Table want;
  size_t steps = r.in(1, 30);
  bool big = r.chance(10);
  c.key(COLS * 100 + w);
  for (size_t k = 0; k < steps && c.problems.empty(); k++) {
    int op = r.below(20);
    std::string name;
    c.key(op);
    size_t n = want.size();
    // another table to take rows from
    Table src;
    size_t m = big ? r.below(300) : r.below(6);
    for (size_t i = 0; i < m; i++) src.push_back(randomRow(r, w));
    T other(w, alloc());
    for (auto& x : src) {
      other.push_back();
      fillRow(other, other.size() - 1, x);
    }
    const T& kother = other;
    if (op <= 1) {
      name = "appending an empty row";
      op == 0 ? t.push_back() : t.emplace_back();
      want.push_back(randomRow(r, w));
      fillRow(t, n, want.back());
    } else if (op == 2 && w == 2) {
      name = "appending a list";
      want.push_back(randomRow(r, w));
      t.push_back({want.back()[0], want.back()[1]});
    } else if (op == 3 && m) {
      size_t i = r.below(m);
      name = "appending a row";
      want.push_back(src[i]);
      r.chance(50) ? t.push_back(other[i]) : t.push_back(kother[i]);
    } else if (op == 4) {
      name = "appending rows of another table";
      for (size_t i = 0; i < m; i++) t.push_back(kother, i), want.push_back(src[i]);
    } else if (op == 5) {
      name = "removing the last row";
      t.pop_back();
      if (n) want.pop_back();
    } else if (op <= 8) {
      size_t p = r.below(3) == 0 ? n : r.below(n + 1), b = r.below(m + 1), e = r.in(b, m);
      name = "inserting rows " + std::to_string(b) + ".." + std::to_string(e) + " of " + show(src) + " at " + std::to_string(p);
      t.insert(t.begin() + p, kother.begin() + b, kother.begin() + e);
      want.insert(want.begin() + p, src.begin() + b, src.begin() + e);
    } else if (op == 9) {
      size_t b = r.below(n + 1), e = r.in(b, n);
      name = "erasing " + std::to_string(b) + ".." + std::to_string(e);
      t.erase(t.begin() + b, t.begin() + e);
      want.erase(want.begin() + b, want.begin() + e);
    } else if (op == 10 && n) {
      size_t b = r.below(n);
      name = "erasing row " + std::to_string(b);
      t.erase(t.begin() + b);
      want.erase(want.begin() + b);
    } else if (op == 11 && r.chance(30)) {
      name = "clearing";
      t.clear();
      want.clear();
    } else if (op == 12) {
      size_t x = r.below(n + 1 + r.below(big ? 500 : 8));
      name = "reserving " + std::to_string(x);
      t.reserve(x);
      c.check(t._capacity >= x, "reserve does not reserve");
    } else if (op == 13) {
      size_t x = r.below(n + 1 + r.below(big ? 500 : 8));
      name = "resizing to " + std::to_string(x);
      t.resize(x);
      want.resize(x);
      for (size_t i = n; i < x; i++) want[i] = randomRow(r, w), fillRow(t, i, want[i]);
    } else if (op == 14) {
      name = "copying";
      T copy = t;
      if (r.chance(50)) {
        t = copy;
      } else {
        if (n) fillRow(t, 0, RowV(w, 77));  // must not show in the copy
        t = T(w, alloc());
        t = std::move(copy);
      }
      if (n) {
        T copy2 = t;
        fillRow(copy2, n - 1, RowV(w, 78));  // must not show in the original
      }
    } else if (op == 15) {
      name = "converting";
      auto d = t.moveToDynamic();
      compare(c, d, want, w, "moving to a table of dynamic width");
      if (w == 1) d = d.template moveToStatic<1>().moveToDynamic();
      if (w == 2) d = d.template moveToStatic<2>().moveToDynamic();
      if (w == 3) d = d.template moveToStatic<3>().moveToDynamic();
      if (w == 4) d = d.template moveToStatic<4>().moveToDynamic();
      t = d.template moveToStatic<COLS>();
    } else if (op == 16) {
      name = "taking a view";
      auto v = t.template asStaticView<COLS>();
      compare(c, v, want, w, "taking a view");
      auto e = v.clone();
      compare(c, e, want, w, "copying a view");
      if constexpr (COLS != 0) {
        auto z = t.template asStaticView<COLS>();
        c.check(z == v, "two views differ");
      } else if (w == 3) {
        auto z = t.template asStaticView<3>();
        compare(c, z, want, w, "taking a view of fixed width");
      }
      T f(w, alloc());
      for (auto& x : want) f.push_back(), fillRow(f, f.size() - 1, x);
      c.check(f == t, "a table with the same rows differs");
      if (n && w) {
        size_t i = r.below(n), j = r.below(w);
        f(i, j) ^= 1ull << r.below(64);
        c.check(!(f == t), "a table with different rows is equal");
        f.pop_back();
        c.check(!(f == t), "a shorter table is equal");
      }
    } else if (op == 17) {
      name = "sorting";
      auto less = [w](const auto& a, const auto& b) {
        for (size_t i = 0; i < w; i++)
          if (a[i] != b[i]) return a[i] < b[i];
        return false;
      };
      std::sort(t.begin(), t.end(), less);
      std::sort(want.begin(), want.end());
    } else if (op == 18 && n) {
      size_t i = r.below(n), j = r.below(n);
      name = "exchanging rows " + std::to_string(i) + " and " + std::to_string(j);
      auto x = t.begin() + i, y = t.begin();
      y += j;
      if (i != j) {
        auto tmp = *x;
        *x = *y;
        *y = tmp;
      }
      std::swap(want[i], want[j]);
    } else if (op == 19 && n) {
      name = "moving an iterator";
      size_t i = r.below(n), j = r.below(n);
      auto it = t.begin() + i;
      const auto cit = std::as_const(t).begin() + j;
      auto d = it++;
      c.check(d.row() == i && it.row() == i + 1 && it - t.begin() == (long)i + 1 && it.cols() == w, name + ": position");
      --it;
      it -= i;
      c.check(it == t.begin() && !(it != t.begin()) && it <= t.begin() && !(it < t.begin()), name + ": comparison");
      it = t.end() - (n - i);
      RowV a, b;
      for (size_t q = 0; q < w; q++) a.push_back((*it)[q]), b.push_back((*cit)[q]);
      c.check(a == want[i] && b == want[j], name + ": row");
      c.check((i < j) == (it.row() < cit.row()), name + ": order");
      RowV e;
      auto first = t.begin();
      for (size_t q = 0; q < w; q++) e.push_back(first[i][q]);
      c.check(e == want[i], name + ": row relative to an iterator");
      auto walk = [&](auto p, const std::string& kind) {
        size_t at = 0;
        for (int step = 0; step < 8; step++) {
          size_t to = r.below(n);
          long by = (long)to - (long)at;
          int how = r.below(8);
          if (how == 0) p += by;
          else if (how == 1) p -= -by;
          else if (how == 2) p = p + by;
          else if (how == 3) p = p - (-by);
          else if (how == 4 && at + 1 < n) ++p, to = at + 1;
          else if (how == 5 && at + 1 < n) p++, to = at + 1;
          else if (how == 6 && at > 0) --p, to = at - 1;
          else if (how == 7 && at > 0) p--, to = at - 1;
          else continue;
          at = to;
          RowV got;
          const auto copy = p;
          for (size_t q = 0; q < w; q++) got.push_back((*p)[q]);
          bool same = got == want[at];
          for (size_t q = 0; q < w; q++) same = same && (*copy)[q] == got[q];
          c.check(same, name + ": " + kind + " shows another row than number " + std::to_string(at) + " after step of kind " + std::to_string(how));
        }
      };
      walk(t.begin(), "iterator");
      walk(std::as_const(t).begin(), "const iterator");
    } else continue;
    c.log(name + "\n");
    if (want.size() < 3000 || k + 1 == steps) compare(c, t, want, w, name);
  }
  keyTable(c, want);
}
SUITE(histories, false, 6000, 100000, "histories of up to 30 operations on tables of 1 to 8 columns of fixed and dynamic width; occasionally hundreds of rows") {
  switch (c.number % 12) {
    case 0: return history<1>(c, 1);
    case 1: return history<2>(c, 2);
    case 2: return history<3>(c, 3);
    case 3: return history<5>(c, 5);
    default: return history<0>(c, c.number % 12 - 3);
  }
}
SUITE(appends, true, 400, 3000, "n appended rows for every n below the number of cases") {
  Rng& r = c.rng;
  IdTable t(2, alloc());
  Table want;
  c.key(c.number);
  c.log(c.number);
  for (size_t i = 0; i < c.number; i++) {
    want.push_back({i, r.next()});
    t.push_back({want[i][0], want[i][1]});
  }
  c.check(fromIdTable(t) == want, "appended rows differ");
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
