// Inner join on one column: real Join against a nested loop oracle.
// Built twice: with the sources included and instrumented, for a few table
// widths; and (PLAIN) linked with the libraries as the engine ships them.
#ifdef PLAIN
#include "engine/Join.h"
#else
#include "fewwidths.h"
#include "global/Constants.h"
// The size ratio from which the galloping variants are used becomes a
// variable, so that small inputs reach them as well.
static size_t vhGallop = 1000;
#define GALLOP_THRESHOLD vhGallop
#include "@REPO@/src/engine/Join.cpp"
#endif
#include "tables.h"
using namespace vh;

static Table oracleJoin(const Table& a, size_t ja, const Table& b, size_t jb) {
  std::map<Id, std::vector<const RowV*>> byKey;
  for (const auto& y : b) byKey[y[jb]].push_back(&y);
  Table r;
  for (const auto& x : a) {
    auto it = byKey.find(x[ja]);
    if (it == byKey.end()) continue;
    for (const RowV* y : it->second) {
      RowV row = x;
      for (size_t c = 0; c < y->size(); c++)
        if (c != jb) row.push_back((*y)[c]);
      r.push_back(row);
    }
  }
  return r;
}

static void describe(Case& c, const Table& a, size_t ja, const Table& b, size_t jb) {
  c.log("left on column ").log(ja).log(" ").log(show(a)).log("\nright on column ").log(jb).log(" ").log(show(b, 40)).log("\n");
  keyTable(c, a);
  c.key(ja);
  keyTable(c, b);
  c.key(jb);
}

static void viaOperation(Case& c, const Table& a, size_t wa, size_t ja, const Table& b, size_t wb, size_t jb,
                         bool knownEmpty = false);
// the join function itself, on the widths given
static void viaFunction(Case& c, const Table& a, size_t wa, size_t ja, const Table& b, size_t wb, size_t jb) {
  describe(c, a, ja, b, jb);
#ifdef PLAIN
  viaOperation(c, a, wa, ja, b, wb, jb, c.number % 2);
#else
  IdTable ta = toIdTable(a, wa), tb = toIdTable(b, wb);
  IdTable res(wa + wb - 1, alloc());
  Join j{Join::InvalidOnlyForTestingJoinTag{}};
  int lw = wa, rw = wb, ow = wa + wb - 1;
  CALL_FIXED_SIZE_3(lw, rw, ow, j.join, ta, ja, tb, jb, &res);
  Table got = fromIdTable(res), want = oracleJoin(a, ja, b, jb);
  c.check(res.cols() == wa + wb - 1, "result width");
  expectBag(c, "join function", got, want);
  c.check(isSortedBy(got, {ja}), "result not sorted on the join column");
  expectSeq(c, "left input changed", fromIdTable(ta), a);
  expectSeq(c, "right input changed", fromIdTable(tb), b);
  if (want.empty()) c.trivial = true;
#endif
}

// the operation as the engine runs it, columns found through its variables
static void viaOperation(Case& c, const Table& a, size_t wa, size_t ja, const Table& b, size_t wb, size_t jb,
                         bool knownEmpty) {
  LeafSpec l{a, wa, {ja}, {}, {}, nullptr}, r{b, wb, {jb}, {}, {}, nullptr};
  std::vector<std::string> vars;
  for (size_t i = 0; i < wa; i++) l.vars.push_back(i == ja ? "?j" : "?a" + std::to_string(i));
  for (size_t i = 0; i < wb; i++) r.vars.push_back(i == jb ? "?j" : "?b" + std::to_string(i));
  vars = l.vars;
  for (size_t i = 0; i < wb; i++)
    if (i != jb) vars.push_back(r.vars[i]);
  r.knownEmpty = knownEmpty && b.empty();
  l.knownEmpty = knownEmpty && a.empty();
  // the operation orders its children by name, so create them in either order
  std::shared_ptr<QueryExecutionTree> tl, tr;
  if (c.number % 2) {
    tl = leafTree(l);
    tr = leafTree(r);
  } else {
    tr = leafTree(r);
    tl = leafTree(l);
  }
  Join op(&context().qec, tl, tr, ja, jb);
  auto cols = op.getVariableColumns();
  Table want = oracleJoin(a, ja, b, jb), got;
  auto res = runOp(op);
  c.check(op.getResultWidth() == wa + wb - 1, "operation: width");
  c.check(res->_data.cols() == wa + wb - 1, "operation: table width");
  c.check(cols.size() == vars.size(), "operation: variables");
  Table raw = fromIdTable(res->_data);
  for (const auto& row : raw) {
    RowV x;
    for (const auto& v : vars) x.push_back(cols.count(v) && cols[v] < row.size() ? row[cols[v]] : 0);
    got.push_back(x);
  }
  if (want.empty()) c.trivial = true;
  expectBag(c, "join operation", got, want);
  c.check(isSortedBy(raw, op.getResultSortedOn()), "operation: not sorted as announced");
  c.check(isSortedBy(raw, res->_sortedBy), "operation: result not sorted as recorded");
}

static Table randomTable(Rng& r, size_t n, size_t w, size_t jc, uint64_t keys, int mode) {
  Table t;
  for (size_t i = 0; i < n; i++) {
    RowV row;
    for (size_t k = 0; k < w; k++) {
      if (k == jc) {
        uint64_t x = r.below(keys);
        if (mode == 1) x = x * x / (keys ? keys : 1);  // skewed towards small keys
        if (mode == 2 && r.chance(20)) x = ID_NO_VALUE;
        if (mode == 3) x = x + (1ull << 63);
        row.push_back(x);
      } else {
        row.push_back(r.chance(10) ? ID_NO_VALUE : r.below(1000));
      }
    }
    t.push_back(row);
  }
  sortBy(t, {jc});
  return t;
}

// all sorted key lists of length <= 4 over 4 keys, on both sides
static std::vector<std::vector<Id>> keyLists(size_t maxLen, Id keys) {
  std::vector<std::vector<Id>> r{{}};
  for (size_t i = 0; i < r.size(); i++) {
    if (r[i].size() == maxLen) continue;
    for (Id k = r[i].empty() ? 0 : r[i].back(); k < keys; k++) {
      auto n = r[i];
      n.push_back(k);
      r.push_back(n);
    }
  }
  return r;
}
static const auto kLists = keyLists(4, 4);

SUITE(small, true, 4900, 4900, "every pair of sorted key lists of length at most 4 over 4 keys, two columns per side") {
  const auto& x = kLists[c.number / kLists.size()];
  const auto& y = kLists[c.number % kLists.size()];
  Table a, b;
  for (size_t i = 0; i < x.size(); i++) a.push_back({x[i], 100 + i});
  for (size_t i = 0; i < y.size(); i++) b.push_back({200 + i, y[i]});
  viaFunction(c, a, 2, 0, b, 2, 1);
  if (c.number % 7 == 0) viaOperation(c, a, 2, 0, b, 2, 1, c.number % 2);
}

#ifndef PLAIN
SUITE(smallGallop, true, 4900, 4900, "the same pairs through the variants for lopsided sizes") {
  const auto& x = kLists[c.number / kLists.size()];
  const auto& y = kLists[c.number % kLists.size()];
  Table a, b;
  for (size_t i = 0; i < x.size(); i++) a.push_back({x[i], 100 + i});
  for (size_t i = 0; i < y.size(); i++) b.push_back({200 + i, y[i]});
  vhGallop = 0;
  viaFunction(c, a, 2, 0, b, 2, 1);
  vhGallop = 1000;
}

SUITE(randomGallop, false, 6000, 60000, "random tables through the variants for lopsided sizes") {
  Rng& r = c.rng;
  size_t wa = r.in(1, 4), wb = r.in(1, 4), ja = r.below(wa), jb = r.below(wb);
  uint64_t keys = r.in(1, 80);
  int mode = r.below(4);
  size_t n = r.below(40), m = r.below(40);
  if (r.chance(40)) n = 1 + n / 8;
  else if (r.chance(60)) m = 1 + m / 8;
  Table a = randomTable(r, n, wa, ja, keys, mode), b = randomTable(r, m, wb, jb, keys, mode);
  spread(r, {&a, &b});
  vhGallop = 0;
  viaFunction(c, a, wa, ja, b, wb, jb);
  vhGallop = 1000;
}
#endif

SUITE(random, false, 6000, 60000, "random tables of up to 60 rows and 1 to 7 columns") {
  Rng& r = c.rng;
  size_t wa = r.in(1, 7), wb = r.in(1, 7), ja = r.below(wa), jb = r.below(wb);
  uint64_t keys = r.in(1, 40);
  int mode = r.below(4);
  Table a = randomTable(r, r.below(60), wa, ja, keys, mode), b = randomTable(r, r.below(60), wb, jb, keys, mode);
  viaFunction(c, a, wa, ja, b, wb, jb);
  if (c.number % 3 == 0) viaOperation(c, a, wa, ja, b, wb, jb, c.number % 2);
}

SUITE(lopsided, false, 1000, 8000, "one side over 1000 times larger than the other, small keys and large gaps") {
  Rng& r = c.rng;
  size_t wa = r.in(1, 3), wb = r.in(1, 3), ja = r.below(wa), jb = r.below(wb);
  size_t small = r.chance(70) ? r.in(1, 4) : r.in(4, 9);
  bool atStart = r.chance(40), atEnd = r.chance(15);
  size_t large = small * 1001 + r.below(3) * r.below(1500);
  if (r.chance(20)) large = small * 1000 + r.below(small * 2 + 1);
  Table s, l;
  uint64_t gap = r.in(1, 5);
  bool dense = r.chance(50), unique = r.chance(30);
  for (size_t i = 0; i < large; i++) {
    RowV row;
    uint64_t k = dense ? 10 + i / r.in(1, 4) * gap : r.below(large * gap);
    if (unique) k = 3 + i * gap;
    for (size_t q = 0; q < (wa); q++) row.push_back(q == ja ? k : i);
    l.push_back(row);
  }
  sortBy(l, {ja});
  for (size_t i = 0; i < small; i++) {
    RowV row;
    uint64_t k = r.chance(80) ? l[r.chance(30) ? r.below(20) : r.below(large)][ja] + (r.chance(25) ? 1 : 0) : r.below(large * gap + 100);
    if (r.chance(10)) k = l.back()[ja];
    if (atStart && unique) k = r.below(small * gap);
    else if (atStart) k = r.chance(50) ? l[r.below(2 * small)][ja] : r.below(l[2 * small][ja] + 2);
    if (atEnd) k = l[large - 1 - r.below(2 * small)][ja] + r.below(2);
    if (r.chance(10)) k = l.front()[ja];
    for (size_t q = 0; q < wb; q++) row.push_back(q == jb ? k : 7000 + i);
    s.push_back(row);
  }
  sortBy(s, {jb});
  if (r.chance(50)) viaFunction(c, l, wa, ja, s, wb, jb);
  else viaFunction(c, s, wb, jb, l, wa, ja);
}

int main(int argc, char** argv) { return vh::main(argc, argv); }
