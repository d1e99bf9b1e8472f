// Generators shared by the operations that match rows on several columns.
#pragma once
#include "tables.h"
namespace vh {
struct MJ {
  Table a, b;
  size_t wa, wb;
  std::vector<std::array<Id, 2>> jc;
  std::vector<size_t> ja, jb;
};
inline bool agree(const MJ& m, const RowV& x, const RowV& y) {
  for (auto& p : m.jc)
    if (x[p[0]] != y[p[1]]) return false;
  return true;
}
inline RowV glue(const MJ& m, const RowV* x, const RowV* y) {
  RowV r(m.wa, ID_NO_VALUE);
  if (x) r = *x;
  else
    for (auto& p : m.jc) r[p[0]] = (*y)[p[1]];
  for (size_t c = 0; c < m.wb; c++) {
    if (std::count(m.jb.begin(), m.jb.end(), c)) continue;
    r.push_back(y ? (*y)[c] : ID_NO_VALUE);
  }
  return r;
}
inline void describe(Case& c, const MJ& m) {
  c.log("columns");
  for (auto& p : m.jc) c.log(" ").log(p[0]).log("=").log(p[1]);
  c.log("\nleft ").log(show(m.a)).log("\nright ").log(show(m.b)).log("\n");
  keyTable(c, m.a);
  keyTable(c, m.b);
  for (auto& p : m.jc) c.key(p[0] * 64 + p[1]);
}
inline void finish(MJ& m) {
  for (auto& p : m.jc) {
    m.ja.push_back(p[0]);
    m.jb.push_back(p[1]);
  }
  sortBy(m.a, m.ja);
  sortBy(m.b, m.jb);
}
// k-th pair of small tables: two key columns over {0,1}, at most 3 rows a side
inline std::vector<std::vector<int>> smallKeys(size_t maxLen, int keys) {
  std::vector<std::vector<int>> r{{}};
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i].size() == maxLen) continue;
    for (int k = r[i].empty() ? 0 : r[i].back(); k < keys; k++) {
      auto n = r[i];
      n.push_back(k);
      r.push_back(n);
    }
  }
  return r;
}
inline const std::vector<std::vector<int>>& smallLists() {
  static auto l = smallKeys(4, 4);
  return l;
}
inline MJ smallCase(uint64_t number) {
  const auto& l = smallLists();
  const auto& x = l[number / l.size() % l.size()];
  const auto& y = l[number % l.size()];
  MJ m;
  m.wa = 3;
  m.wb = 3;
  m.jc = {{0, 2}, {2, 0}};
  for (size_t i = 0; i < x.size(); i++) m.a.push_back({Id(x[i] / 2), 100 + i, Id(x[i] % 2)});
  for (size_t i = 0; i < y.size(); i++) m.b.push_back({Id(y[i] % 2), 200 + i, Id(y[i] / 2)});
  finish(m);
  return m;
}
inline MJ randomCase(Rng& r, size_t maxRows, size_t minJc = 1) {
  MJ m;
  m.wa = r.in(1, 6);
  m.wb = r.in(1, 6);
  size_t k = std::min(m.wa, m.wb);
  size_t n = minJc >= k ? std::min(minJc, k) : r.in(minJc, std::min<size_t>(k, 4));
  std::vector<size_t> pa, pb;
  for (size_t i = 0; i < m.wa; i++) pa.push_back(i);
  for (size_t i = 0; i < m.wb; i++) pb.push_back(i);
  for (size_t i = 0; i < n; i++) {
    size_t x = r.below(pa.size()), y = r.below(pb.size());
    m.jc.push_back({pa[x], pb[y]});
    pa.erase(pa.begin() + x);
    pb.erase(pb.begin() + y);
  }
  uint64_t keys = r.in(1, 5);
  bool big = r.chance(20);
  auto fill = [&](Table& t, size_t w, size_t side) {
    size_t rows = r.chance(8) ? 0 : r.in(0, maxRows);
    for (size_t i = 0; i < rows; i++) {
      RowV row;
      for (size_t c = 0; c < w; c++) row.push_back(r.chance(10) ? ID_NO_VALUE : 100 + r.below(900));
      for (auto& p : m.jc) {
        Id v = r.below(keys);
        if (big) v += 1ull << 62;
        row[p[side]] = v;
      }
      t.push_back(row);
    }
  };
  fill(m.a, m.wa, 0);
  fill(m.b, m.wb, 1);
  spread(r, {&m.a, &m.b});
  finish(m);
  return m;
}
struct MJTrees {
  std::shared_ptr<QueryExecutionTree> l, r;
  std::vector<std::string> vars;  // expected result columns
};
// Leaves with one variable per column; shared variables for the join columns.
// 'order' chooses which leaf is created first (operations order their children).
inline MJTrees trees(const MJ& m, bool order) {
  LeafSpec l{m.a, m.wa, m.ja, {}, {}, nullptr}, r{m.b, m.wb, m.jb, {}, {}, nullptr};
  for (size_t i = 0; i < m.wa; i++) l.vars.push_back("?a" + std::to_string(i));
  for (size_t i = 0; i < m.wb; i++) r.vars.push_back("?b" + std::to_string(i));
  for (size_t k = 0; k < m.jc.size(); k++) l.vars[m.jc[k][0]] = r.vars[m.jc[k][1]] = "?j" + std::to_string(k);
  MJTrees t;
  if (order) t.l = leafTree(l), t.r = leafTree(r);
  else t.r = leafTree(r), t.l = leafTree(l);
  t.vars = l.vars;
  for (size_t i = 0; i < m.wb; i++)
    if (!std::count(m.jb.begin(), m.jb.end(), i)) t.vars.push_back(r.vars[i]);
  return t;
}
// Rows of a result in the order of the given variables.
inline Table project(Case& c, Operation& op, const ResultTable& res, const std::vector<std::string>& vars) {
  auto cols = op.getVariableColumns();
  Table got, raw = fromIdTable(res._data);
  c.check(cols.size() == vars.size(), "operation announces " + std::to_string(cols.size()) + " variables instead of " + std::to_string(vars.size()));
  c.check(op.getResultWidth() == vars.size(), "operation: width");
  c.check(res._data.cols() == vars.size(), "operation: table width");
  for (const auto& row : raw) {
    RowV x;
    for (const auto& v : vars) x.push_back(cols.count(v) && cols[v] < row.size() ? row[cols[v]] : 987654321);
    got.push_back(x);
  }
  c.check(isSortedBy(raw, op.getResultSortedOn()), "operation: not sorted as announced");
  c.check(isSortedBy(raw, res._sortedBy), "operation: result not sorted as recorded");
  return got;
}
}  // namespace vh
