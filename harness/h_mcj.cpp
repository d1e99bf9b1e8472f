// Join on several columns: real MultiColumnJoin against nested loops.
#ifdef PLAIN
#include "engine/MultiColumnJoin.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/MultiColumnJoin.cpp"
#endif
#include "multijoin.h"
using namespace vh;

static Table oracle(const MJ& m) {
  Table r;
  for (const auto& x : m.a)
    for (const auto& y : m.b)
      if (agree(m, x, y)) r.push_back(glue(m, &x, &y));
  return r;
}
static void go(Case& c, const MJ& m, bool op) {
  describe(c, m);
  Table want = oracle(m);
  if (want.empty()) c.trivial = true;
  size_t ow = m.wa + m.wb - m.jc.size();
#ifndef PLAIN
  IdTable ta = toIdTable(m.a, m.wa), tb = toIdTable(m.b, m.wb), res(ow, alloc());
  int lw = m.wa, rw = m.wb, w = ow;
  CALL_FIXED_SIZE_3(lw, rw, w, MultiColumnJoin::computeMultiColumnJoin, ta, tb, m.jc, &res);
  Table got = fromIdTable(res);
  c.check(res.cols() == ow, "result width");
  expectBag(c, "join function", got, want);
  c.check(isSortedBy(got, m.ja), "result not sorted on the join columns");
  expectSeq(c, "left input changed", fromIdTable(ta), m.a);
  expectSeq(c, "right input changed", fromIdTable(tb), m.b);
#else
  op = true;
#endif
  if (op) {
    MJTrees t = trees(m, c.number % 2);
    MultiColumnJoin o(&context().qec, t.l, t.r, m.jc);
    auto r = runOp(o);
    expectBag(c, "join operation", project(c, o, *r, t.vars), want);
  }
}
SUITE(small, true, 4900, 4900, "every pair of tables with at most 4 rows over two key columns with values 0 and 1, and a payload column") {
  go(c, smallCase(c.number), c.number % 5 == 0);
}
SUITE(random, false, 8000, 80000, "random tables of up to 25 rows and 1 to 6 columns, 1 to 4 join columns") {
  go(c, randomCase(c.rng, 25), c.number % 2 == 0);
}
SUITE(wide, false, 40, 200, "tables of 30 to 70 columns") {
  Rng& r = c.rng;
  MJ m;
  m.wa = r.in(30, 70);
  m.wb = r.in(30, 70);
  m.jc = {{r.below(m.wa), r.below(m.wb)}};
  for (auto* t : {&m.a, &m.b})
    for (size_t i = 0; i < 4; i++) {
      RowV row;
      for (size_t k = 0; k < (t == &m.a ? m.wa : m.wb); k++) row.push_back(r.below(2) + 10 * k);
      row[m.jc[0][t == &m.a ? 0 : 1]] = r.below(2);
      t->push_back(row);
    }
  finish(m);
  go(c, m, true);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
