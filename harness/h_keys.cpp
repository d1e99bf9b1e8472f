// A result found in the cache is the result the operation would have computed:
// two operations over the same inputs are run one after the other with a
// shared cache, the second is compared with its run with an empty cache.
#include "engine/Distinct.h"
#include "engine/Filter.h"
#include "engine/GroupBy.h"
#include "engine/Join.h"
#include "engine/Minus.h"
#include "engine/MultiColumnJoin.h"
#include "engine/OptionalJoin.h"
#include "engine/OrderBy.h"
#include "engine/Sort.h"
#include "engine/TransitivePath.h"
#include "engine/TwoColumnJoin.h"
#include "engine/Union.h"
#include "engine/Bind.h"
#include "engine/Values.h"
#include "tables.h"
using namespace vh;
using RT = ResultTable::ResultType;
using OpPtr = std::shared_ptr<Operation>;

// Every column is non-decreasing, so the table is sorted on all columns in any order.
static Table staircase(Rng& r, size_t w, size_t rows) {
  Table t;
  RowV cur;
  for (size_t i = 0; i < w; i++) cur.push_back(r.below(3));
  for (size_t k = 0; k < rows; k++) {
    t.push_back(cur);
    for (auto& x : cur) x += r.chance(40);
  }
  return t;
}
struct Inputs {
  Table a, b;
  size_t wa, wb;
};
static std::shared_ptr<QueryExecutionTree> leaf(const Table& t, size_t w, long serial, const std::vector<std::string>& names,
                                                const std::vector<std::array<Id, 2>>& jc = {}, int side = 0) {
  LeafSpec s{t, w, {}, names, std::vector<RT>(w, RT::VERBATIM), nullptr, false, serial};
  for (auto& x : jc) s.sorted.push_back(x[side]);
  for (size_t i = 0; i < w && jc.empty(); i++) s.sorted.push_back(i);
  return leafTree(s);
}
static std::vector<std::string> names(Rng& r, size_t w, bool perm) {
  std::vector<std::string> n;
  for (size_t i = 0; i < w; i++) n.push_back("?v" + std::to_string(i));
  if (perm)
    for (size_t i = 0; i + 1 < w; i++) std::swap(n[i], n[i + r.below(w - i)]);
  return n;
}
// Pairs of columns, each column at most once on its side.
static std::vector<std::array<Id, 2>> columnPairs(Rng& r, const Inputs& in) {
  std::vector<std::array<Id, 2>> jc;
  std::vector<size_t> x, y;
  for (size_t i = 0; i < in.wa; i++) x.push_back(i);
  for (size_t i = 0; i < in.wb; i++) y.push_back(i);
  bool anyA = r.chance(40), anyB = r.chance(60);
  for (size_t i = 0; anyA && i + 1 < in.wa; i++) std::swap(x[i], x[i + r.below(in.wa - i)]);
  for (size_t i = 0; anyB && i + 1 < in.wb; i++) std::swap(y[i], y[i + r.below(in.wb - i)]);
  size_t n = r.in(1, std::min(in.wa, in.wb));
  for (size_t i = 0; i < n; i++) jc.push_back({x[i], y[i]});
  return jc;
}
static OpPtr make(Rng& r, const Inputs& in, int kind, std::ostringstream& os) {
  auto* q = &context().qec;
  auto na = names(r, in.wa, false), nb = names(r, in.wb, false);
  for (auto& n : nb) n[1] = 'w';
  auto jc = columnPairs(r, in);
  auto show = [&]() {
    for (auto& p : jc) os << " " << p[0] << "=" << p[1];
  };
  switch (kind) {
    case 0: {
      auto A = leaf(in.a, in.wa, 1, na), B = leaf(in.b, in.wb, 2, nb);
      size_t x = r.below(in.wa), y = r.below(in.wb);
      os << "join " << x << "=" << y;
      return std::make_shared<Join>(q, A, B, x, y);
    }
    case 1: {
      auto A = leaf(in.a, in.wa, 1, na, jc, 0), B = leaf(in.b, in.wb, 2, nb, jc, 1);
      os << "multi-column join";
      show();
      return std::make_shared<MultiColumnJoin>(q, A, B, jc);
    }
    case 2: {
      auto A = leaf(in.a, in.wa, 1, na, jc, 0), B = leaf(in.b, in.wb, 2, nb, jc, 1);
      bool l = r.chance(50), rr = r.chance(50);
      os << "optional join " << l << rr;
      show();
      return std::make_shared<OptionalJoin>(q, A, l, B, rr, jc);
    }
    case 3: {
      auto A = leaf(in.a, in.wa, 1, na, jc, 0), B = leaf(in.b, in.wb, 2, nb, jc, 1);
      os << "minus";
      show();
      return std::make_shared<Minus>(q, A, B, std::vector<std::array<size_t, 2>>(jc.begin(), jc.end()));
    }
    case 4: {
      auto A = leaf(in.a, in.wa, 1, names(r, in.wa, true)), B = leaf(in.b, in.wb, 2, names(r, in.wb, true));
      os << "union";
      for (auto t : {A, B})
        for (auto& n : t->getVariableColumns()) os << " " << n.first << "@" << n.second;
      return std::make_shared<Union>(q, A, B);
    }
    case 5: {
      std::vector<size_t> keep;
      for (size_t i = 0; i < jc.size(); i++) keep.push_back(i);
      os << "distinct on the first " << keep.size();
      return std::make_shared<Distinct>(q, leaf(in.a, in.wa, 1, na), keep);
    }
    case 6: {
      using AT = ParsedQuery::AggregateType;
      std::vector<AT> types{AT::COUNT, AT::MIN, AT::MAX, AT::SUM, AT::AVG, AT::SAMPLE, AT::GROUP_CONCAT};
      std::vector<std::string> g;
      size_t n = r.in(1, in.wa);
      for (size_t i = 0; i < n; i++) g.push_back("?v" + std::to_string(i));
      ParsedQuery::Alias a;
      a._type = types[r.below(types.size())];
      a._inVarName = "?v" + std::to_string(r.below(in.wa));
      a._outVarName = "?out";
      a._isDistinct = r.chance(50);
      a._delimiter = r.chance(50) ? "," : ";";
      a._function = "f";
      os << "group by the first " << n << " aggregate " << ParsedQuery::AggregateTypeAsString(a._type) << (a._isDistinct ? " distinct " : " ")
         << a._inVarName << " delimiter " << a._delimiter;
      auto op = std::make_shared<GroupBy>(q, g, std::vector<ParsedQuery::Alias>{a});
      op->setSubtree(leaf(in.a, in.wa, 1, na));
      return op;
    }
    case 7: {
      std::vector<std::pair<size_t, bool>> s;
      size_t n = r.in(1, in.wa);
      for (size_t i = 0; i < n; i++) s.emplace_back(r.below(in.wa), r.chance(50));
      os << "order by";
      for (auto& x : s) os << " " << x.first << (x.second ? "d" : "a");
      return std::make_shared<OrderBy>(q, leaf(in.a, in.wa, 1, na), s);
    }
    case 8: {
      size_t x = r.below(in.wa);
      os << "sort on " << x;
      return std::make_shared<Sort>(q, leaf(in.a, in.wa, 1, na), x);
    }
    case 9: {
      size_t lo = r.below(2), hi = lo + r.below(2) + 1;
      bool flip = r.chance(50), bindLeft = r.chance(50), leftVar = bindLeft || r.chance(60), rightVar = !bindLeft || r.chance(60);
      size_t side = r.below(in.wb), lv = r.below(3), rv = r.below(3);
      auto A = leaf(in.a, in.wa, 1, na), B = leaf(in.b, in.wb, 2, nb);
      os << "transitive path " << flip << leftVar << rightVar << " side column " << side << " values " << lv << "," << rv << " dist " << lo << "-" << hi
         << (bindLeft ? " left" : " right");
      TransitivePath t(q, A, leftVar, rightVar, flip, !flip, lv, rv, "?l", "?r", lo, hi);
      return bindLeft ? t.bindLeftSide(B, side) : t.bindRightSide(B, side);
    }
    case 10: {
      size_t lo = r.below(2), hi = lo + r.below(2) + 1;
      bool flip = r.chance(50), leftVar = r.chance(60), rightVar = r.chance(60);
      size_t lv = r.below(3), rv = r.below(3);
      os << "transitive path " << flip << leftVar << rightVar << " values " << lv << "," << rv << " dist " << lo << "-" << hi;
      return std::make_shared<TransitivePath>(q, leaf(in.a, in.wa, 1, na), leftVar, rightVar, flip, !flip, lv, rv, "?l", "?r", lo, hi);
    }
    case 11: {
      using F = SparqlFilter;
      std::vector<F::FilterType> ty{F::EQ, F::NE, F::LT, F::LE, F::GT, F::GE};
      size_t x = r.below(in.wa), k = r.below(6);
      std::string rhs = r.chance(50) ? std::to_string(r.below(4)) : "?v" + std::to_string(r.below(in.wa));
      os << "filter ?v" << x << " type " << k << " " << rhs;
      return std::make_shared<Filter>(q, leaf(in.a, in.wa, 1, na), ty[k], "?v" + std::to_string(x), rhs, std::vector<string>{}, std::vector<string>{});
    }
    case 12: {
      GraphPatternOperation::Bind b;
      if (r.chance(40)) b._expressionVariant = GraphPatternOperation::Bind::Rename{"?v" + std::to_string(r.below(in.wa))};
      else if (r.chance(40)) b._expressionVariant = GraphPatternOperation::Bind::Constant{(int64_t)r.below(3)};
      else b._expressionVariant = GraphPatternOperation::Bind::BinaryOperation{"?v" + std::to_string(r.below(in.wa)), "?v" + std::to_string(r.below(in.wa)), r.chance(50) ? "+" : "-"};
      b._target = "?new";
      os << b.getDescriptor();
      return std::make_shared<Bind>(q, leaf(in.a, in.wa, 1, na), b);
    }
    default: {
      auto A = leaf(in.a, in.wa, 1, na), B = leaf(in.b, 2, 2, nb);
      bool flip = r.chance(50);
      os << "two column join " << flip;
      return std::make_shared<TwoColumnJoin>(q, A, B, flip ? std::vector<std::array<Id, 2>>{{0, 1}, {1, 0}} : std::vector<std::array<Id, 2>>{{0, 0}, {1, 1}});
    }
  }
}
static std::string dump(const ResultTable& r, int order) {
  Table rows = fromIdTable(r._data);
  if (order > 0 || (order == 0 && r._sortedBy.empty())) std::sort(rows.begin(), rows.end());  // no particular order
  std::string s = show(rows, 1000) + " types";
  for (auto t : r._resultTypes) s += " " + std::to_string((int)t);
  if (r._localVocab)
    for (auto& w : *r._localVocab) s += "|" + w;
  return s;
}
static void go(Case& c, const std::function<OpPtr(std::ostringstream&)>& mk, int order = 0) {
  std::ostringstream o1, o2;
  OpPtr first = mk(o1), second = mk(o2), again = second;
  c.log("first: " + o1.str() + "\nsecond: " + o2.str() + "\n");
  c.key(std::hash<std::string>()(o1.str() + "/" + o2.str()));
  if (o1.str() == o2.str()) c.trivial = true;
  std::string want, got;
  try {
    want = dump(*runOp(*second), order);
    context().cache.clearAll();
    first->getResult();
  } catch (const std::exception& e) {
    c.trivial = true;  // rejected either way
    return;
  }
  got = dump(*again->getResult(), order);
  c.check(got == want, "result of '" + o2.str() + "' is " + got + " after '" + o1.str() + "' was run, but " + want + " with an empty cache");
}
SUITE(parameters, false, 12000, 120000, "pairs of operations of the same kind (14 kinds) over the same two small tables, with random parameters") {
  Rng& r = c.rng;
  Inputs in;
  int kind = c.number % 14;
  in.wa = kind == 9 || kind == 10 || kind == 13 ? 2 : r.in(1, 4);
  in.wb = kind == 13 ? 2 : r.in(1, 4);
  if (kind == 4) in.wb = in.wa;
  in.a = staircase(r, in.wa, r.in(1, 6));
  in.b = staircase(r, in.wb, r.in(1, 6));
  c.log("tables " + show(in.a) + " and " + show(in.b) + "\n");
  keyTable(c, in.a);
  keyTable(c, in.b);
  go(c, [&](std::ostringstream& os) { return make(r, in, kind, os); }, kind == 9 || kind == 10 ? 1 : kind == 7 ? -1 : 0);
}
SUITE(filterNames, false, 1000, 5000, "filters on the same table with the columns named differently") {
  Rng& r = c.rng;
  size_t w = r.in(2, 3);
  Table t = staircase(r, w, r.in(1, 6));
  c.log("table " + show(t) + "\n");
  keyTable(c, t);
  go(c, [&](std::ostringstream& os) {
    auto n = names(r, w, true);
    os << "filter by name ?v0 < 2 on columns";
    for (auto& x : n) os << " " << x;
    return std::make_shared<Filter>(&context().qec, leaf(t, w, 1, n), SparqlFilter::LT, "?v0", "2", std::vector<string>{}, std::vector<string>{});
  });
}
SUITE(groupNames, false, 1000, 5000, "group by on the same table with the columns named differently") {
  Rng& r = c.rng;
  size_t w = r.in(2, 3);
  Table t = staircase(r, w, r.in(1, 6));
  bool two = r.chance(30);
  c.log("table " + show(t) + "\n");
  keyTable(c, t);
  go(c, [&](std::ostringstream& os) {
    auto n = names(r, w, true);
    os << "group by ?v0, sum of ?v1, on columns";
    for (auto& x : n) os << " " << x;
    ParsedQuery::Alias a;
    a._type = ParsedQuery::AggregateType::SUM;
    a._inVarName = "?v1";
    a._outVarName = "?out";
    a._isDistinct = two;
    a._function = "f";
    auto op = std::make_shared<GroupBy>(&context().qec, std::vector<std::string>{"?v0"}, std::vector<ParsedQuery::Alias>{a});
    op->setSubtree(leaf(t, w, 1, n));
    return op;
  });
}
SUITE(bindNames, false, 1000, 5000, "BIND on the same table with the columns named differently") {
  Rng& r = c.rng;
  size_t w = r.in(2, 3);
  Table t = staircase(r, w, r.in(1, 6));
  int kind = r.below(2);
  c.log("table " + show(t) + "\n");
  keyTable(c, t);
  go(c, [&](std::ostringstream& os) {
    auto n = names(r, w, true);
    GraphPatternOperation::Bind b;
    if (kind) b._expressionVariant = GraphPatternOperation::Bind::Rename{"?v0"};
    else b._expressionVariant = GraphPatternOperation::Bind::BinaryOperation{"?v0", "?v1", "-"};
    b._target = "?new";
    os << b.getDescriptor() << " on columns";
    for (auto& x : n) os << " " << x;
    return std::make_shared<Bind>(&context().qec, leaf(t, w, 1, n), b);
  });
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
