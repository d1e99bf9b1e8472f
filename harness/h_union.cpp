// UNION: real Union against appending rows column by column.
#ifdef PLAIN
#include "engine/Union.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/Union.cpp"
#endif
#include "tables.h"
using namespace vh;
using RT = ResultTable::ResultType;

static Table randomTable(Rng& r, size_t w, size_t n) {
  Table t(n, RowV(w));
  for (auto& row : t)
    for (auto& x : row) x = r.chance(5) ? ID_NO_VALUE : r.below(900);
  return t;
}
static Table expected(const Table& a, const Table& b, const std::vector<std::array<size_t, 2>>& o) {
  Table want;
  for (int side = 0; side < 2; side++)
    for (const auto& row : side ? b : a) {
      RowV x;
      for (const auto& p : o) x.push_back(p[side] == Union::NO_COLUMN ? ID_NO_VALUE : row[p[side]]);
      want.push_back(x);
    }
  return want;
}
static size_t rows(Rng& r, size_t outWidth) {
  // around the number of rows copied at once
  if (r.below(100) == 0 && r.below(3) == 0) return 100000 / outWidth * r.in(1, 2) + r.below(3) - 1;
  return r.chance(15) ? 0 : r.below(8);
}
// Names of the variables of the two sides; columns without a name never occur in the operation's inputs.
struct In {
  Table a, b;
  std::vector<std::string> na, nb;
};
static In randomIn(Case& c) {
  auto& r = c.rng;
  In in;
  size_t wa = r.chance(20) ? r.in(5, 7) : r.in(1, 4), wb = r.chance(20) ? r.in(5, 7) : r.in(1, 4);
  std::vector<std::string> pool;
  for (int i = 0; i < 9; i++) pool.push_back("?v" + std::to_string(i));
  for (size_t i = 0; i < wa; i++) in.na.push_back(pool[i]);
  if (r.chance(40)) {
    wb = wa;
    in.nb = in.na;
  } else {
    std::vector<std::string> q = pool;
    size_t keep = r.chance(50) ? std::min(wb, wa) : 0;
    for (size_t i = keep; i < q.size(); i++) std::swap(q[i], q[i + r.below(q.size() - i)]);
    in.nb.assign(q.begin(), q.begin() + wb);
  }
  if (r.chance(40))
    for (size_t i = 0; i + 1 < wb; i++) std::swap(in.nb[i], in.nb[i + r.below(wb - i)]);
  std::set<std::string> all(in.na.begin(), in.na.end());
  all.insert(in.nb.begin(), in.nb.end());
  in.a = randomTable(r, wa, rows(r, all.size()));
  in.b = randomTable(r, wb, rows(r, all.size()));
  return in;
}
SUITE(operation, false, 4000, 60000, "whole operation, variables shared, renamed, permuted or missing on a side; tables of up to 8 rows or around the chunk size") {
  In in = randomIn(c);
  auto& r = c.rng;
  size_t wa = in.na.size(), wb = in.nb.size();
  keyTable(c, in.a);
  keyTable(c, in.b);
  if (in.a.empty() && in.b.empty()) c.trivial = true;
  std::string d = "union; left";
  for (auto& n : in.na) d += " " + n;
  d += " right";
  for (auto& n : in.nb) d += " " + n;
  c.log(d + "\nleft " + show(in.a, 12) + "\nright " + show(in.b, 12) + "\n");
  static const RT types[] = {RT::KB, RT::VERBATIM, RT::TEXT, RT::FLOAT};
  std::vector<RT> ta(wa), tb(wb);
  std::map<std::string, RT> ty;
  for (size_t i = 0; i < wa; i++) ty.emplace(in.na[i], types[r.below(4)]), ta[i] = ty[in.na[i]];
  for (size_t i = 0; i < wb; i++) ty.emplace(in.nb[i], types[r.below(4)]), tb[i] = ty[in.nb[i]];
  LeafSpec a{in.a, wa, {}, in.na, ta}, b{in.b, wb, {}, in.nb, tb};
  if (r.chance(20)) a.knownEmpty = in.a.empty();
  if (r.chance(20)) b.knownEmpty = in.b.empty();
  auto A = leafTree(a), B = leafTree(b);
  Union u(&context().qec, A, B);
  auto vc = u.getVariableColumns();
  std::set<std::string> all(in.na.begin(), in.na.end());
  all.insert(in.nb.begin(), in.nb.end());
  c.check(vc.size() == all.size() && u.getResultWidth() == all.size(), "union: one column for each variable");
  std::vector<std::array<size_t, 2>> o(all.size(), {Union::NO_COLUMN, Union::NO_COLUMN});
  std::set<size_t> used;
  for (auto& [n, col] : vc) {
    c.check(col < all.size() && used.insert(col).second, "union: columns of the variables are not distinct");
    if (col >= all.size()) return;
    for (size_t i = 0; i < wa; i++)
      if (in.na[i] == n) o[col][0] = i;
    for (size_t i = 0; i < wb; i++)
      if (in.nb[i] == n) o[col][1] = i;
  }
  auto res = runOp(u);
  expectSeq(c, "union", fromIdTable(res->_data), expected(in.a, in.b, o));
  for (auto& [n, col] : vc)
    c.check(res->getResultType(col) == ty[n], "union: type of the column of a variable");
  c.check(isSortedBy(fromIdTable(res->_data), u.resultSortedOn()), "union: announced order does not hold");
  c.check(u.knownEmptyResult() == (a.knownEmpty && b.knownEmpty), "union: known to be empty");
}
#ifndef PLAIN
SUITE(kernel, false, 3000, 60000, "the kernel alone with arbitrary column lists, also repeated and missing columns") {
  auto& r = c.rng;
  size_t wa = r.in(1, 5), wb = r.in(1, 5), wo = r.in(1, 6);
  std::vector<std::array<size_t, 2>> o;
  bool same = r.chance(30);
  if (same) wo = wa;
  for (size_t i = 0; i < wo; i++)
    o.push_back({same ? i : r.chance(20) ? Union::NO_COLUMN : r.below(wa), r.chance(20) ? Union::NO_COLUMN : r.below(wb)});
  Table a = randomTable(r, wa, rows(r, wo)), b = randomTable(r, wb, rows(r, wo));
  keyTable(c, a);
  keyTable(c, b);
  for (auto& p : o) c.key(p[0] * 7 + p[1]);
  c.log("kernel left " + show(a, 12) + " right " + show(b, 12) + " columns");
  for (auto& p : o) c.log(" " + std::to_string(p[0]) + "/" + std::to_string(p[1]));
  IdTable ta = toIdTable(a, wa), tb = toIdTable(b, wb), res(wo, alloc());
  Union u{Union::InvalidUnionOnlyUseForTestinTag{}};
  u.computeUnion<0, 0, 0>(&res, ta, tb, o);
  expectSeq(c, "union", fromIdTable(res), expected(a, b, o));
}
#endif
int main(int argc, char** argv) { return vh::main(argc, argv); }
