// DISTINCT and two-column intersection: real Distinct, TwoColumnJoin and Engine::filter.
#ifdef PLAIN
#include "engine/Distinct.h"
#include "engine/TwoColumnJoin.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/Distinct.cpp"
#include "@REPO@/src/engine/TwoColumnJoin.cpp"
#endif
#include "tables.h"
using namespace vh;
using RT = ResultTable::ResultType;

static Table randomTable(Rng& r, size_t w, size_t n, uint64_t vals) {
  Table t(n, RowV(w));
  for (auto& row : t)
    for (auto& x : row) x = r.below(vals);
  return t;
}
static std::vector<size_t> pick(Rng& r, size_t w, size_t k) {
  std::vector<size_t> p(w);
  for (size_t i = 0; i < w; i++) p[i] = i;
  for (size_t i = 0; i < k; i++) std::swap(p[i], p[i + r.below(w - i)]);
  p.resize(k);
  return p;
}
static std::vector<std::string> names(size_t w, const std::string& p) {
  std::vector<std::string> n;
  for (size_t i = 0; i < w; i++) n.push_back(p + std::to_string(i));
  return n;
}
SUITE(distinct, false, 6000, 120000, "tables of up to 20 rows over few values, sorted on 1 to all columns in any order, duplicates removed with respect to these") {
  auto& r = c.rng;
  size_t w = r.chance(20) ? r.in(5, 7) : r.in(1, 4);
  auto keep = pick(r, w, r.in(1, w));
  Table t = randomTable(r, w, r.chance(10) ? r.below(2) : r.below(21), r.in(1, 4));
  sortBy(t, keep);
  spread(r, {&t});
  keyTable(c, t);
  c.key(hashStr(showv(keep)));
  if (t.size() < 2) c.trivial = true;
  c.log("distinct on " + showv(keep) + " of " + show(t) + "\n");
  Table want;
  std::set<RowV> seen;
  for (const auto& row : t) {
    RowV k;
    for (size_t i : keep) k.push_back(row[i]);
    if (seen.insert(k).second) want.push_back(row);
  }
  LeafSpec s{t, w, keep, names(w, "?v"), std::vector<RT>(w, RT::VERBATIM)};
  Distinct d(&context().qec, leafTree(s), keep);
  auto res = runOp(d);
  expectSeq(c, "distinct", fromIdTable(res->_data), want);
  c.check(d.getResultWidth() == w && res->_data.cols() == w, "distinct: width");
  c.check(isSortedBy(fromIdTable(res->_data), d.resultSortedOn()), "distinct: announced order does not hold");
  for (size_t i = 0; i < w; i++) c.check(res->getResultType(i) == RT::VERBATIM, "distinct: type of a column");
}
struct FI {
  Table v, f;
  size_t w, c1, c2;
};
static FI filterInput(Case& c) {
  auto& r = c.rng;
  FI x;
  x.w = r.chance(20) ? r.in(5, 7) : r.in(2, 4);
  auto p = pick(r, x.w, 2);
  x.c1 = p[0];
  x.c2 = p[1];
  uint64_t vals = r.in(1, 5);
  x.v = randomTable(r, x.w, r.below(20), vals);
  sortBy(x.v, {x.c1, x.c2});
  x.f = randomTable(r, 2, r.below(14), vals + r.below(2));
  sortBy(x.f, {0, 1});
  x.f.erase(std::unique(x.f.begin(), x.f.end()), x.f.end());
  spread(r, {&x.v, &x.f});
  keyTable(c, x.v);
  keyTable(c, x.f);
  c.key(x.c1 * 8 + x.c2);
  if (x.v.empty() || x.f.empty()) c.trivial = true;
  c.log("columns " + std::to_string(x.c1) + "," + std::to_string(x.c2) + " of " + show(x.v) + " in " + show(x.f) + "\n");
  return x;
}
// Both sides can be the list if the table has two columns, too.
static bool couldBeList(const FI& x) { return x.w == 2 && x.c1 == 0; }
static Table filterOracle(const FI& x) {
  Table want;
  for (const auto& row : x.v)
    for (const auto& p : x.f)
      if (p[0] == row[x.c1] && p[1] == row[x.c2]) want.push_back(row);
  return want;
}
SUITE(pairs, false, 5000, 100000, "rows of a table whose two columns occur in a list of pairs, computed by the engine's kernel") {
  FI x = filterInput(c);
  IdTable v = toIdTable(x.v, x.w), f = toIdTable(x.f, 2), res(x.w, alloc());
  context().engine.filter<0, 0>(v, x.c1, x.c2, f, &res);
  expectSeq(c, "filter by pairs", fromIdTable(res), filterOracle(x));
}
static void twoColumnJoin(Case& c, const std::string& what, const FI& x) {
  auto nv = names(x.w, "?v"), nf = names(2, "?f");
  nf[0] = nv[x.c1];
  nf[1] = nv[x.c2];
  LeafSpec a{x.v, x.w, {x.c1, x.c2}, nv, std::vector<RT>(x.w, RT::KB)}, b{x.f, 2, {0, 1}, nf, std::vector<RT>(2, RT::KB)};
  bool left = c.rng.chance(50);
  auto A = leafTree(left ? b : a), B = leafTree(left ? a : b);
  std::vector<std::array<Id, 2>> jc{{x.c1, 0}, {x.c2, 1}};
  if (left) jc = {{0, x.c1}, {1, x.c2}};
  TwoColumnJoin j(&context().qec, A, B, jc);
  auto res = runOp(j);
  Table got = fromIdTable(res->_data);
  auto vc = j.getVariableColumns();
  Table proj, want;
  for (const auto& row : got) {
    RowV p;
    for (const auto& n : nv) p.push_back(vc.count(n) && vc[n] < row.size() ? row[vc[n]] : 424242);
    proj.push_back(p);
  }
  want = filterOracle(x);
  expectBag(c, what, proj, want);
  c.check(j.getResultWidth() == res->_data.cols(), what + ": width");
  c.check(isSortedBy(got, j.resultSortedOn()), what + ": announced order does not hold");
}
SUITE(twoColumns, false, 4000, 80000, "the same through the join operation on two columns, list on either side") {
  FI x = filterInput(c);
  if (couldBeList(x)) x.v.erase(std::unique(x.v.begin(), x.v.end()), x.v.end());
  twoColumnJoin(c, "join on two columns", x);
}
SUITE(repeatedPairs, false, 300, 3000, "join on two columns whose list has repeated rows") {
  FI x = filterInput(c);
  if (x.f.empty()) return;
  Table f;
  for (auto& row : x.f)
    for (size_t k = c.rng.in(1, 2); k > 0; k--) f.push_back(row);
  x.f = f;
  c.log("with repetitions " + show(x.f) + "\n");
  twoColumnJoin(c, "join on two columns with repeated list rows", x);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
