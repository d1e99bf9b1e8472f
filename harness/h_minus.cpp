// MINUS: real Minus against nested loops.
#ifdef PLAIN
#include "engine/Minus.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/Minus.cpp"
#endif
#include "multijoin.h"
using namespace vh;

static Table oracle(const MJ& m) {
  if (m.jc.empty()) return m.a;
  Table r;
  for (const auto& x : m.a) {
    bool found = false;
    for (const auto& y : m.b) found = found || agree(m, x, y);
    if (!found) r.push_back(x);
  }
  return r;
}
static void go(Case& c, const MJ& m, bool op) {
  describe(c, m);
  Table want = oracle(m);
  if (m.a.empty() || m.b.empty()) c.trivial = true;
  std::vector<std::array<size_t, 2>> jc(m.jc.begin(), m.jc.end());
#ifndef PLAIN
  IdTable ta = toIdTable(m.a, m.wa), tb = toIdTable(m.b, m.wb), res(m.wa, alloc());
  int lw = m.wa, rw = m.wb;
  Minus mi{Minus::OnlyForTestingTag{}};
  CALL_FIXED_SIZE_2(lw, rw, mi.computeMinus, ta, tb, jc, &res);
  Table got = fromIdTable(res);
  c.check(res.cols() == m.wa, "result width");
  expectSeq(c, "minus function", got, want);
  expectSeq(c, "left input changed", fromIdTable(ta), m.a);
  expectSeq(c, "right input changed", fromIdTable(tb), m.b);
#else
  op = true;
#endif
  if (op) {
    MJTrees t = trees(m, c.number % 2);
    t.vars.resize(m.wa);
    Minus o(&context().qec, t.l, t.r, jc);
    auto r = runOp(o);
    expectSeq(c, "minus operation", project(c, o, *r, t.vars), want);
  }
}
SUITE(small, true, 4900, 4900, "every pair of tables with at most 4 rows over two key columns with values 0 and 1, and a payload column") {
  go(c, smallCase(c.number), c.number % 5 == 0);
}
SUITE(random, false, 8000, 80000, "random tables of up to 25 rows and 1 to 6 columns, 0 to 4 shared columns") {
  go(c, randomCase(c.rng, 25, c.number % 10 == 0 ? 0 : 1), c.number % 2 == 0);
}
SUITE(long_, false, 60, 600, "left tables of several hundred rows, so that the result grows several times") {
  MJ m = randomCase(c.rng, 600);
  go(c, m, true);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
