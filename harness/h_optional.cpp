// Optional join: real OptionalJoin against nested loops.
#ifdef PLAIN
#include "engine/OptionalJoin.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/OptionalJoin.cpp"
#endif
#include "multijoin.h"
using namespace vh;

// aOpt: rows of b without partner are kept; bOpt: rows of a without partner.
static Table oracle(const MJ& m, bool aOpt, bool bOpt) {
  Table r;
  std::vector<bool> used(m.b.size(), false);
  for (const auto& x : m.a) {
    bool found = false;
    for (size_t j = 0; j < m.b.size(); j++)
      if (agree(m, x, m.b[j])) {
        r.push_back(glue(m, &x, &m.b[j]));
        found = used[j] = true;
      }
    if (!found && bOpt) r.push_back(glue(m, &x, nullptr));
  }
  for (size_t j = 0; j < m.b.size(); j++)
    if (!used[j] && aOpt) r.push_back(glue(m, nullptr, &m.b[j]));
  return r;
}
static void go(Case& c, const MJ& m, bool aOpt, bool bOpt, bool op) {
  c.log("left optional ").log(aOpt).log(", right optional ").log(bOpt).log(", ");
  c.key(aOpt * 2 + bOpt);
  describe(c, m);
  Table want = oracle(m, aOpt, bOpt);
  if (want.empty()) c.trivial = true;
  size_t ow = m.wa + m.wb - m.jc.size();
#ifndef PLAIN
  IdTable ta = toIdTable(m.a, m.wa), tb = toIdTable(m.b, m.wb), res(ow, alloc());
  int lw = m.wa, rw = m.wb, w = ow;
  CALL_FIXED_SIZE_3(lw, rw, w, OptionalJoin::optionalJoin, ta, tb, aOpt, bOpt, m.jc, &res);
  Table got = fromIdTable(res);
  c.check(res.cols() == ow, "result width");
  expectBag(c, "join function", got, want);
  c.check(isSortedBy(got, m.ja), "result not sorted on the join columns");
  expectSeq(c, "left input changed", fromIdTable(ta), m.a);
  expectSeq(c, "right input changed", fromIdTable(tb), m.b);
#else
  op = true;
#endif
  if (op) {
    MJTrees t = trees(m, c.rng.chance(50));
    OptionalJoin o(&context().qec, t.l, aOpt, t.r, bOpt, m.jc);
    auto r = runOp(o);
    expectBag(c, "join operation", project(c, o, *r, t.vars), want);
  }
}
SUITE(small, true, 19600, 19600, "every pair of tables with at most 4 rows over two key columns with values 0 and 1, for all four combinations of optional sides") {
  go(c, smallCase(c.number / 4), c.number & 1, c.number & 2, c.number % 5 == 0);
}
SUITE(random, false, 8000, 80000, "random tables of up to 25 rows and 1 to 6 columns, 1 to 4 join columns") {
  MJ m = randomCase(c.rng, 25);
  bool ao = c.rng.chance(50), bo = c.rng.chance(60);
  go(c, m, ao, bo, c.number % 2 == 0);
}
SUITE(wide, false, 40, 200, "tables of 30 to 70 columns") {
  Rng& r = c.rng;
  MJ m;
  m.wa = r.in(30, 70);
  m.wb = r.in(30, 70);
  m.jc = {{r.below(m.wa), r.below(m.wb)}};
  for (auto* t : {&m.a, &m.b})
    for (size_t i = 0; i < 4; i++) {
      RowV row;
      for (size_t k = 0; k < (t == &m.a ? m.wa : m.wb); k++) row.push_back(r.below(2) + 10 * k);
      row[m.jc[0][t == &m.a ? 0 : 1]] = r.below(3);
      t->push_back(row);
    }
  finish(m);
  go(c, m, r.chance(50), r.chance(50), true);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
