// Transitive paths: the real TransitivePath against walks counted level by level.
#ifdef PLAIN
#include "engine/TransitivePath.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/TransitivePath.cpp"
#endif
#include "tables.h"
using namespace vh;

static const size_t INF = std::numeric_limits<size_t>::max();
using Edges = std::vector<std::pair<Id, Id>>;

// all (x, y) such that a walk of length in [lo, hi] leads from x to y
static std::set<std::pair<Id, Id>> walks(const Edges& e, size_t lo, size_t hi) {
  std::set<Id> nodes;
  std::map<Id, std::set<Id>> adj;
  for (auto& x : e) nodes.insert(x.first), nodes.insert(x.second), adj[x.first].insert(x.second);
  std::set<std::pair<Id, Id>> r;
  size_t steps = hi == INF ? lo + nodes.size() + 1 : hi;
  for (Id s : nodes) {
    std::set<Id> level{s};
    for (size_t k = 1; k <= steps && !level.empty(); k++) {
      std::set<Id> next;
      for (Id x : level) next.insert(adj[x].begin(), adj[x].end());
      level = next;
      if (k >= lo)
        for (Id x : level) r.insert({s, x});
    }
  }
  return r;
}
static std::string showE(const Edges& e) {
  std::string s;
  for (auto& x : e) s += " " + std::to_string(x.first) + ">" + std::to_string(x.second);
  return s;
}
static Table subTable(Rng& r, const Edges& e, size_t w, size_t l, size_t rr) {
  Table t;
  for (auto& x : e) {
    RowV row(w);
    for (auto& v : row) v = r.below(9);
    row[l] = x.first;
    row[rr] = x.second;
    t.push_back(row);
  }
  return t;
}
static const std::vector<std::pair<size_t, size_t>> ranges{{1, INF}, {1, 1}, {1, 2}, {2, 2}, {2, 3}, {2, INF}, {1, 3}, {3, INF}, {1, 4}, {3, 4}};

static void fixedSides(Case& c, const Edges& e, size_t lo, size_t hi, bool lv, bool rv, Id left, Id right) {
  c.log("edges" + showE(e) + " length " + std::to_string(lo) + ".." + (hi == INF ? std::string("any") : std::to_string(hi)) +
        (lv ? " ?x" : " " + std::to_string(left)) + (rv ? " ?y" : " " + std::to_string(right)) + "\n");
  for (auto& x : e) c.key(x.first), c.key(x.second);
  c.key(lo * 100 + hi), c.key(lv * 2 + rv), c.key(left), c.key(right);
  Table want;
  for (auto& p : walks(e, lo, hi))
    if ((lv || p.first == left) && (rv || p.second == right)) want.push_back({p.first, p.second});
  Rng r(1);
  IdTable sub = toIdTable(subTable(r, e, 2, 0, 1), 2), res(2, alloc());
  LeafSpec spec{{}, 2, {}, {"?a", "?b"}, {}, nullptr, false};
  TransitivePath t(&context().qec, leafTree(spec), lv, rv, 0, 1, left, right, "?x", "?y", lo, hi);
  t.computeTransitivePath<2>(&res, sub, lv, rv, 0, 1, left, right, lo, hi);
  expectBag(c, "paths", fromIdTable(res), want);
}
SUITE(smallGraphs, true, 512 * 10, 512 * 10, "every graph with three nodes, ten ranges of lengths, both sides variable") {
  Edges e;
  size_t g = c.number / 10;
  for (size_t i = 0; i < 9; i++)
    if (g >> i & 1) e.push_back({i / 3, i % 3});
  auto p = ranges[c.number % 10];
  if (e.empty()) c.trivial = true;
  fixedSides(c, e, p.first, p.second, true, true, 0, 0);
}
SUITE(smallFixed, true, 512 * 10 * 3, 512 * 10 * 3, "every graph with three nodes, ten ranges of lengths, one or both sides fixed to nodes 0 and 1") {
  Edges e;
  size_t g = c.number / 30;
  for (size_t i = 0; i < 9; i++)
    if (g >> i & 1) e.push_back({i / 3, i % 3});
  auto p = ranges[c.number / 3 % 10];
  if (e.empty()) c.trivial = true;
  int k = c.number % 3;
  fixedSides(c, e, p.first, p.second, k == 1, k == 0, 0, 1);
}
// Long ranges only for chains: the number of walks shorter than the range is exponential otherwise.
static Edges randomGraph(Rng& r, size_t maxNodes, size_t maxEdges, bool& chain) {
  Edges e;
  chain = r.chance(30);
  size_t n = r.in(1, chain && r.chance(40) ? 3 * maxNodes : maxNodes), m = r.below(maxEdges + 1);
  Id off = r.below(3) == 0 ? 1000000007ull * r.below(5) : 0;
  if (chain) {  // a chain with shortcuts
    for (size_t i = 0; i + 1 < n; i++) e.push_back({off + i, off + i + 1});
    for (size_t i = r.below(4); i > 0; i--) e.push_back({off + r.below(n), off + r.below(n)});
  } else {
    for (size_t i = 0; i < m; i++) e.push_back({off + r.below(n), off + r.below(n)});
  }
  for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[r.below(i)]);
  return e;
}
SUITE(randomGraphs, false, 4000, 60000, "random graphs of up to 12 nodes and 24 edges, chains of up to 36 nodes, with repeated edges, random ranges, sides fixed at random") {
  Rng& r = c.rng;
  bool chain;
  Edges e = randomGraph(r, 12, 24, chain);
  size_t lo = r.in(1, chain && r.chance(30) ? 12 : 4), hi = r.chance(30) ? INF : lo + r.below(r.chance(30) ? 20 : 5);
  if (e.empty()) c.trivial = true;
  Id l = e.empty() ? 0 : e[r.below(e.size())].first, rr = e.empty() ? 0 : e[r.below(e.size())].second;
  fixedSides(c, e, lo, hi, r.chance(60), r.chance(60), l, rr);
}
// through the operation: no side bound, or one side bound to the rows of another table
SUITE(operation, false, 6000, 80000,
      "random graphs given as any two columns of a table with 2 to 5 columns, optionally bound to a table of 1 to 5 columns with repeated keys, on either side") {
  Rng& r = c.rng;
  bool chain;
  Edges e = randomGraph(r, 8, 14, chain);
  size_t w = r.in(2, 5), lc = r.below(w), rc = r.below(w - 1);
  if (rc >= lc) rc++;
  size_t lo = r.in(1, chain && r.chance(30) ? 10 : 3), hi = r.chance(40) ? INF : lo + r.below(r.chance(30) ? 15 : 4);
  Table sub = subTable(r, e, w, lc, rc);
  std::vector<size_t> sorted;
  if (r.chance(50)) sorted = {lc}, sortBy(sub, sorted);
  int mode = r.below(3);  // 0 unbound, 1 left, 2 right
  std::vector<std::string> vn;
  using RT = ResultTable::ResultType;
  std::vector<RT> types;
  RT all[] = {RT::KB, RT::VERBATIM, RT::FLOAT, RT::LOCAL_VOCAB};
  for (size_t i = 0; i < w; i++) vn.push_back("?s" + std::to_string(i)), types.push_back(all[r.below(4)]);
  c.log("table " + show(sub) + " from column " + std::to_string(lc) + " to column " + std::to_string(rc) + " length " + std::to_string(lo) + ".." +
        (hi == INF ? std::string("any") : std::to_string(hi)) + "\n");
  keyTable(c, sub);
  c.key(lc * 10 + rc), c.key(lo), c.key(hi), c.key(mode);
  LeafSpec spec{sub, w, sorted, vn, types, nullptr, false};
  auto tree = leafTree(spec);
  auto all2 = walks(e, lo, hi);
  auto t = std::make_shared<TransitivePath>(&context().qec, tree, true, true, lc, rc, 0, 0, "?x", "?y", lo, hi);
  if (mode == 0) {
    Table want;
    for (auto& p : all2) want.push_back({p.first, p.second});
    auto res = runOp(*t);
    expectBag(c, "operation", fromIdTable(res->_data), want);
    c.check(isSortedBy(fromIdTable(res->_data), res->_sortedBy), "announced order " + showv(res->_sortedBy) + " does not hold");
    c.check(res->getResultType(0) == types[lc] && res->getResultType(1) == types[rc], "types of the columns");
    if (e.empty()) c.trivial = true;
    return;
  }
  size_t sw = r.in(1, 5), sc = r.below(sw);
  Table side;
  size_t n = r.below(8);
  for (size_t i = 0; i < n; i++) {
    RowV row(sw);
    for (auto& v : row) v = r.below(50);
    if (i && r.chance(40)) row[sc] = side.back()[sc];
    else if (!e.empty() && r.chance(80)) {
      auto& x = e[r.below(e.size())];
      row[sc] = mode == 1 ? x.first : x.second;
    }
    side.push_back(row);
  }
  std::vector<size_t> ss;
  if (r.chance(50)) ss = {sc}, sortBy(side, ss);
  std::vector<std::string> sn;
  std::vector<RT> st;
  for (size_t i = 0; i < sw; i++) sn.push_back(i == sc ? (mode == 1 ? "?x" : "?y") : "?o" + std::to_string(i)), st.push_back(all[r.below(4)]);
  c.log(std::string(mode == 1 ? "left" : "right") + " side bound to column " + std::to_string(sc) + " of " + show(side) + "\n");
  keyTable(c, side);
  c.key(sc);
  LeafSpec sspec{side, sw, ss, sn, st, nullptr, false};
  auto stree = leafTree(sspec);
  auto b = mode == 1 ? t->bindLeftSide(stree, sc) : t->bindRightSide(stree, sc);
  Table want;
  for (auto& row : side)
    for (auto& p : all2)
      if ((mode == 1 ? p.first : p.second) == row[sc]) {
        RowV o{p.first, p.second};
        for (size_t i = 0; i < sw; i++)
          if (i != sc) o.push_back(row[i]);
        want.push_back(o);
      }
  auto res = runOp(*b);
  c.check(res->_data.cols() == sw + 1 && b->getResultWidth() == sw + 1, "result width");
  auto vars = b->getVariableColumns();
  std::vector<std::string> names{"?x", "?y"};
  for (size_t i = 0; i < sw; i++)
    if (i != sc) names.push_back(sn[i]);
  Table got;
  for (auto& row : fromIdTable(res->_data)) {
    RowV o;
    for (auto& nme : names) {
      if (!vars.count(nme) || vars[nme] >= row.size()) return c.fail("no column for " + nme);
      o.push_back(row[vars[nme]]);
    }
    got.push_back(o);
  }
  expectBag(c, "bound operation", got, want);
  Table raw = fromIdTable(res->_data);
  c.check(isSortedBy(raw, res->_sortedBy), "announced order " + showv(res->_sortedBy) + " does not hold");
  c.check(isSortedBy(raw, b->getResultSortedOn()), "order announced to the planner does not hold");
  for (size_t i = 0; i < sw; i++)
    if (i != sc) c.check(res->getResultType(vars[sn[i]]) == st[i], "type of column " + sn[i]);
  if (want.empty()) c.trivial = true;
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
