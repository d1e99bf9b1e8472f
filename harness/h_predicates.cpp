// flags: -fno-sanitize=nonnull-attribute
// Predicate scans and predicate counts: real HasPredicateScan and
// CountAvailablePredicates.
#ifdef PLAIN
#include "engine/CountAvailablePredicates.h"
#include "engine/HasPredicateScan.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/CountAvailablePredicates.cpp"
#include "@REPO@/src/engine/HasPredicateScan.cpp"
#endif
#include <map>
#include <new>
#include <set>
#include "vocab.h"
using namespace vh;
using Scan = HasPredicateScan::ScanType;

// Which predicates each entity has, and how this is stored.
struct Store {
  std::vector<std::vector<Id>> has;  // by entity; the specification
  std::vector<PatternID> hasPattern;
  std::vector<std::vector<Id>> hasPredicate, patterns;
  std::vector<Id> preds;
};
static std::vector<Id> someOf(Rng& r, const std::vector<Id>& from) {
  std::vector<Id> v;
  for (Id p : from)
    if (r.chance(45)) v.push_back(p);
  return v;
}
static Store randomStore(Case& c, std::vector<Id> preds) {
  auto& r = c.rng;
  Store s;
  s.preds = preds;
  for (size_t i = r.below(4); i > 0; i--) {
    auto p = someOf(r, preds);
    if (!p.empty()) s.patterns.push_back(p);
  }
  size_t n = r.chance(5) ? r.in(200, 1500) : r.below(12);
  size_t nPattern = r.chance(30) ? n : r.below(n + 1), nPredicate = r.chance(30) ? n : r.below(n + 1);
  s.has.resize(std::max(nPattern, nPredicate));
  s.hasPattern.assign(nPattern, NO_PATTERN);
  s.hasPredicate.resize(nPredicate);
  size_t share = r.below(101);
  for (size_t i = 0; i < s.has.size(); i++) {
    if (i < nPattern && !s.patterns.empty() && r.chance(share)) {
      s.hasPattern[i] = r.below(s.patterns.size());
      s.has[i] = s.patterns[s.hasPattern[i]];
    } else if (i < nPredicate && r.chance(70)) {
      s.has[i] = s.hasPredicate[i] = someOf(r, preds);
    }
  }
  std::string d = "entities:";
  for (size_t i = 0; i < s.has.size() && i < 40; i++) {
    d += " " + std::to_string(i) + (i < nPattern && s.hasPattern[i] != NO_PATTERN ? "=pattern" : "=") + show(s.has[i]);
  }
  c.log(d + "\n");
  for (auto& h : s.has) {
    c.key(h.size() + 77);
    for (Id p : h) c.key(p);
  }
  for (PatternID p : s.hasPattern) c.key(p);
  return s;
}
static void use(const Store& s) {
  auto& ix = context().index;
  ix._usePatterns = true;
  ix._hasPattern = s.hasPattern;
  auto build = [](auto& v, const auto& data) {
    using V = std::decay_t<decltype(v)>;
    v.~V();
    new (&v) V(data);
  };
  build(ix._hasPredicate, s.hasPredicate);
  build(ix._patterns, s.patterns);
  size_t full = 0;
  for (auto& h : s.has) full += h.size();
  ix._fullHasPredicateSize = full;
  ix._fullHasPredicateMultiplicityEntities = 1;
  ix._fullHasPredicateMultiplicityPredicates = 1;
}
static std::vector<Id> smallPreds(Rng& r) {
  std::vector<Id> p;
  Id x = 0;
  for (size_t i = r.in(1, 5); i > 0; i--) p.push_back(x += r.in(1, 3));
  if (r.chance(10)) p.push_back((1ull << 40) + r.below(5));
  return p;
}
static Table counts(const Store& s, const std::set<Id>& entities) {
  std::map<Id, Id> n;
  for (Id e : entities)
    if (e < s.has.size())
      for (Id p : s.has[e]) n[p]++;
  Table t;
  for (auto& [p, k] : n) t.push_back({p, k});
  return t;
}
static void checkOp(Case& c, const std::string& what, Operation& op, const Table& want, bool ordered = false) {
  auto res = runOp(op);
  Table got = fromIdTable(res->_data);
  if (ordered) {
    c.check(got == want, what + ": got " + show(got) + " expected " + show(want));
  } else {
    expectBag(c, what, got, want);
  }
  c.check(res->_data.cols() == op.getResultWidth(), what + ": width");
  c.check(isSortedBy(got, op.resultSortedOn()), what + ": announced order does not hold");
  c.check(isSortedBy(got, res->_sortedBy), what + ": order announced with the result does not hold");
}
// Input rows, a subject column with repetitions, gaps, unbound values and
// identifiers that belong to no entity.
static Table randomInput(Case& c, const Store& s, size_t w, size_t col, bool sorted) {
  auto& r = c.rng;
  Table t(r.chance(3) ? r.in(100, 400) : r.below(14), RowV(w));
  for (auto& row : t) {
    for (auto& x : row) x = r.below(6);
    if (r.chance(5)) {
      row[col] = r.chance(50) ? ID_NO_VALUE : s.has.size() + r.below(3);
    } else {
      row[col] = r.below(s.has.size() + 2);
    }
  }
  if (sorted) std::sort(t.begin(), t.end(), [&](auto& a, auto& b) { return a[col] < b[col]; });
  keyTable(c, t);
  c.key(col);
  c.log("column " + std::to_string(col) + " of " + show(t) + "\n");
  return t;
}
static LeafSpec leafOf(const Table& t, size_t w, std::vector<size_t> sorted) {
  LeafSpec s{t, w, sorted};
  for (size_t i = 0; i < w; i++) s.vars.push_back("?v" + std::to_string(i));
  return s;
}
SUITE(countSubtree, false, 4000, 80000, "predicates of the entities in a column of up to 14 (sometimes 400) rows and 1 to 7 columns grouped by entity; up to 12 (sometimes 1500) entities") {
  Store s = randomStore(c, smallPreds(c.rng));
  use(s);
  size_t w = c.rng.in(1, 7), col = c.rng.below(w);
  Table t = randomInput(c, s, w, col, true);
  CountAvailablePredicates op(&context().qec, leafTree(leafOf(t, w, {col})), col);
  std::set<Id> e;
  for (auto& row : t) e.insert(row[col]);
  if (t.empty() || s.has.empty()) c.trivial = true;
  checkOp(c, "counts of a column", op, counts(s, e));
}
SUITE(countAll, false, 2000, 40000, "predicates of all entities, up to 12 (sometimes 1500) of them") {
  Store s = randomStore(c, smallPreds(c.rng));
  use(s);
  CountAvailablePredicates op(&context().qec);
  std::set<Id> e;
  for (size_t i = 0; i < s.has.size(); i++) e.insert(i);
  if (s.has.empty()) c.trivial = true;
  checkOp(c, "counts of all entities", op, counts(s, e));
}
SUITE(scanSubtree, false, 4000, 80000, "predicates of the entities in a column of an input in any order; sizes as in countSubtree") {
  Store s = randomStore(c, smallPreds(c.rng));
  use(s);
  size_t w = c.rng.in(1, 7), col = c.rng.below(w);
  bool sorted = c.rng.chance(40);
  Table t = randomInput(c, s, w, col, sorted), want;
  std::vector<size_t> order;
  if (sorted) order = {col};
  HasPredicateScan op(&context().qec, Scan::SUBQUERY_S);
  op.setSubject("?v" + std::to_string(col));
  op.setObject("?p");
  op.setSubtree(leafTree(leafOf(t, w, order)));
  op.setSubtreeSubjectColumn(col);
  for (auto& row : t) {
    if (row[col] >= s.has.size()) continue;
    for (Id p : s.has[row[col]]) {
      want.push_back(row);
      want.back().push_back(p);
    }
  }
  if (want.empty()) c.trivial = true;
  checkOp(c, "scan for the entities of a column", op, want);
  auto vars = op.getVariableColumns();
  c.check(vars.size() == w + 1 && vars["?p"] == w, "column of the predicates");
}
SUITE(scanFull, false, 2000, 40000, "all pairs of entity and predicate") {
  Store s = randomStore(c, smallPreds(c.rng));
  use(s);
  HasPredicateScan op(&context().qec, Scan::FULL_SCAN);
  op.setSubject("?s");
  op.setObject("?p");
  Table want;
  for (size_t i = 0; i < s.has.size(); i++)
    for (Id p : s.has[i]) want.push_back({i, p});
  if (want.empty()) c.trivial = true;
  checkOp(c, "scan of all entities", op, want);
}
// Constant subject or predicate: they are words, so a vocabulary is needed.
SUITE(scanConstants, false, 2500, 40000, "predicates of one entity, entities of one predicate, counts for one entity; vocabularies of up to 16 words") {
  auto& r = c.rng;
  std::vector<std::string> w;
  for (size_t i = r.in(2, 16); i > 0; i--) w.push_back("<" + std::to_string(r.below(30)) + ">");
  w = useWords(w);
  std::vector<Id> preds;
  for (size_t i = 0; i < w.size() && preds.size() < 5; i++)
    if (r.chance(60)) preds.push_back(i);
  if (preds.empty()) preds.push_back(0);
  Store s = randomStore(c, preds);
  if (s.has.size() > w.size()) {  // every entity is a word
    s.has.resize(w.size());
    s.hasPattern.resize(std::min(s.hasPattern.size(), w.size()));
    s.hasPredicate.resize(std::min(s.hasPredicate.size(), w.size()));
  }
  use(s);
  size_t id = r.below(w.size());
  c.key(id);
  c.log("word " + w[id] + " with id " + std::to_string(id) + "\n");
  Table subjects, predicates;
  for (size_t i = 0; i < s.has.size(); i++)
    if (std::count(s.has[i].begin(), s.has[i].end(), id)) subjects.push_back({i});
  if (id < s.has.size())
    for (Id p : s.has[id]) predicates.push_back({p});
  if (subjects.empty() && predicates.empty()) c.trivial = true;
  HasPredicateScan freeS(&context().qec, Scan::FREE_S), freeO(&context().qec, Scan::FREE_O);
  freeS.setSubject("?s");
  freeS.setObject(w[id]);
  freeO.setSubject(w[id]);
  freeO.setObject("?p");
  checkOp(c, "entities of a predicate", freeS, subjects);
  checkOp(c, "predicates of an entity", freeO, predicates);
  CountAvailablePredicates one(&context().qec, w[id]);
  checkOp(c, "counts of one entity", one, counts(s, {id}));
  CountAvailablePredicates none(&context().qec, "<nobody>");
  checkOp(c, "counts of an unknown entity", none, {});
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
