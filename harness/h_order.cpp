// ORDER BY and sorting: real OrderBy and Sort.
#ifdef PLAIN
#include "engine/OrderBy.h"
#include "engine/Sort.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/OrderBy.cpp"
#include "@REPO@/src/engine/Sort.cpp"
#endif
#include "tables.h"
using namespace vh;
using RT = ResultTable::ResultType;

struct In {
  Table t;
  size_t w;
  std::vector<std::pair<size_t, bool>> by;
  std::vector<RT> types;
};
static float asFloat(Id x) {
  float f;
  std::memcpy(&f, &x, sizeof f);
  return f;
}
static int cmp(RT type, Id a, Id b) {
  if (type == RT::FLOAT) return asFloat(a) < asFloat(b) ? -1 : asFloat(a) > asFloat(b);
  return a < b ? -1 : a > b;
}
static void checkResult(Case& c, const std::string& what, const In& in, Operation& op) {
  auto res = runOp(op);
  Table got = fromIdTable(res->_data);
  expectBag(c, what, got, in.t);
  for (size_t i = 1; i < got.size(); i++) {
    for (auto [col, desc] : in.by) {
      int d = cmp(in.types[col], got[i - 1][col], got[i][col]) * (desc ? -1 : 1);
      if (d < 0) break;
      if (d > 0) {
        c.fail(what + ": row " + std::to_string(i) + " " + show(got[i]) + " comes after " + show(got[i - 1]) +
               (in.types[col] == RT::FLOAT ? " (column of floating point numbers)" : ""));
        i = got.size();
        break;
      }
    }
  }
  c.check(op.getResultWidth() == in.w && res->_data.cols() == in.w, what + ": width");
  c.check(isSortedBy(got, op.resultSortedOn()), what + ": announced order does not hold");
  c.check(isSortedBy(got, res->_sortedBy), what + ": order announced with the result does not hold");
  for (size_t i = 0; i < in.w; i++) c.check(res->getResultType(i) == in.types[i], what + ": type of a column");
}
static In randomIn(Case& c, bool floats) {
  auto& r = c.rng;
  In in;
  in.w = r.chance(20) ? r.in(5, 8) : r.in(1, 4);
  size_t n = r.chance(3) ? r.in(500, 3000) : r.below(16);
  uint64_t vals = r.in(1, 5);
  in.t.assign(n, RowV(in.w));
  for (auto& row : in.t)
    for (auto& x : row) x = r.chance(3) ? ID_NO_VALUE : r.below(vals);
  spread(r, {&in.t});
  std::vector<size_t> p(in.w);
  for (size_t i = 0; i < in.w; i++) p[i] = i;
  for (size_t i = 0; i + 1 < in.w; i++) std::swap(p[i], p[i + r.below(in.w - i)]);
  for (size_t i = r.in(1, in.w); i > 0; i--) in.by.push_back({p[i - 1], r.chance(40)});
  in.types.assign(in.w, RT::VERBATIM);
  for (auto& t : in.types)
    if (r.chance(30)) t = RT::KB;
  if (floats) {
    size_t col = in.by[0].first;
    in.types[col] = RT::FLOAT;
    for (auto& row : in.t) {
      float f = ((int)r.below(9) - 4) * 0.5f;
      Id x = 0;
      std::memcpy(&x, &f, sizeof f);
      row[col] = x;
    }
  }
  keyTable(c, in.t);
  for (auto& b : in.by) c.key(b.first * 2 + b.second);
  if (n < 2) c.trivial = true;
  std::string d = "by";
  for (auto& b : in.by) d += (b.second ? " desc " : " asc ") + std::to_string(b.first);
  c.log(d + " of " + show(in.t) + "\n");
  return in;
}
static std::shared_ptr<QueryExecutionTree> leaf(const In& in) {
  LeafSpec s{in.t, in.w, {}, {}, in.types};
  for (size_t i = 0; i < in.w; i++) s.vars.push_back("?v" + std::to_string(i));
  return leafTree(s);
}
SUITE(orderBy, false, 4000, 80000, "ordering by 1 to all columns, each ascending or descending, tables of up to 16 or 500 to 3000 rows") {
  In in = randomIn(c, false);
  OrderBy o(&context().qec, leaf(in), in.by);
  checkResult(c, "order by", in, o);
}
SUITE(sort, false, 2000, 40000, "sorting by one column") {
  In in = randomIn(c, false);
  in.by = {{in.by[0].first, false}};
  Sort o(&context().qec, leaf(in), in.by[0].first);
  checkResult(c, "sort", in, o);
}
SUITE(floats, false, 500, 5000, "ordering by a column of floating point numbers, also negative ones") {
  In in = randomIn(c, true);
  OrderBy o(&context().qec, leaf(in), in.by);
  checkResult(c, "order by", in, o);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
