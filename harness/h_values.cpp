// Inline tables: real Values operation.
#ifdef PLAIN
#include "engine/Values.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/Values.cpp"
#endif
#include <map>
#include <set>
#include "vocab.h"
using namespace vh;

struct In {
  SparqlValues v;
  std::map<std::string, Id> ids;
};
static In randomValues(Case& c, size_t maxRows) {
  auto& r = c.rng;
  In in;
  std::vector<std::string> w;
  for (size_t i = r.in(1, 25); i > 0; i--) w.push_back(randomWord(r));
  w = useWords(w);
  for (size_t i = 0; i < w.size(); i++) in.ids[w[i]] = i;
  size_t cols = r.chance(25) ? r.in(5, 9) : r.in(1, 4);
  for (size_t i = 0; i < cols; i++) in.v._variables.push_back("?v" + std::to_string(i));
  size_t unknown = r.chance(40) ? 0 : r.in(1, 40), n = r.in(1, maxRows);
  for (size_t i = 0; i < n; i++) {
    std::vector<std::string> row;
    for (size_t k = 0; k < cols; k++) {
      row.push_back(r.chance(unknown) ? "<unknown" + std::to_string(r.below(9)) + ">" : w[r.below(w.size())]);
    }
    in.v._values.push_back(row);
  }
  return in;
}
static Table expected(const In& in) {
  Table t;
  for (auto& row : in.v._values) {
    RowV x;
    for (auto& s : row) {
      auto it = in.ids.find(s);
      if (it != in.ids.end()) x.push_back(it->second);
    }
    if (x.size() == row.size()) t.push_back(x);
  }
  return t;
}
static void logIn(Case& c, const In& in) {
  std::string d;
  for (auto& row : in.v._values) {
    d += "(";
    for (auto& s : row) d += s + " ", c.key(std::hash<std::string>{}(s));
    d += ") ";
  }
  c.log(d + "\nidentifiers:");
  for (auto& [s, i] : in.ids) c.log(" " + s + "=" + std::to_string(i));
  c.log("\n");
}
static void checkValues(Case& c, Values& op, const In& in, const std::vector<std::string>& vars) {
  auto res = runOp(op);
  Table got = fromIdTable(res->_data), want = expected(in);
  c.check(got == want, "rows " + show(got) + " expected " + show(want));
  c.check(op.getResultWidth() == vars.size() && res->_data.cols() == vars.size(), "number of columns");
  auto m = op.getVariableColumns();
  c.check(m.size() == vars.size(), "number of variables");
  for (size_t i = 0; i < vars.size(); i++) c.check(m.count(vars[i]) && m[vars[i]] == i, "column of " + vars[i]);
  c.check(isSortedBy(got, op.resultSortedOn()) && isSortedBy(got, res->_sortedBy), "announced order does not hold");
  c.check(want.empty() || !op.knownEmptyResult(), "result with rows announced as empty");
  for (size_t i = 0; i < vars.size(); i++) c.check(op.getMultiplicity(i) >= 1, "multiplicity below one");
}
SUITE(values, false, 6000, 100000, "inline tables of 1 to 12 (sometimes 300) rows and 1 to 9 columns over up to 25 known words") {
  In in = randomValues(c, c.rng.chance(3) ? 300 : 12);
  logIn(c, in);
  if (in.v._values.size() < 2) c.trivial = true;
  Values op(&context().qec, in.v);
  checkValues(c, op, in, in.v._variables);
}
SUITE(unbound, false, 2500, 40000, "inline tables with rows that bind nothing and variables that are never bound") {
  In in = randomValues(c, 8);
  auto& r = c.rng;
  // Add rows and columns that consist of UNDEF only; they are to be ignored.
  SparqlValues v = in.v;
  for (size_t k = r.in(0, 2); k > 0; k--) {
    size_t at = r.below(v._variables.size() + 1);
    v._variables.insert(v._variables.begin() + at, "?undef" + std::to_string(k));
    for (auto& row : v._values) row.insert(row.begin() + at, "UNDEF");
    c.key(at);
  }
  for (size_t k = r.in(0, 3); k > 0; k--) {
    size_t at = r.below(v._values.size() + 1);
    v._values.insert(v._values.begin() + at, std::vector<std::string>(v._variables.size(), "UNDEF"));
    c.key(at + 100);
  }
  logIn(c, in);
  Values op(&context().qec, v);
  checkValues(c, op, in, in.v._variables);
  bool thrown = false;
  try {
    SparqlValues nothing;
    nothing._variables = {"?a", "?b"};
    for (size_t k = r.below(4); k > 0; k--) nothing._values.push_back({"UNDEF", "UNDEF"});
    Values bad(&context().qec, nothing);
  } catch (const std::exception&) {
    thrown = true;
  }
  c.check(thrown, "a table that binds nothing was accepted");
}
SUITE(keys, false, 2500, 40000, "two inline tables with different meaning have different keys in the result cache") {
  In a = randomValues(c, 4), b = a;
  auto& r = c.rng;
  size_t row = r.below(b.v._values.size()), col = r.below(b.v._variables.size());
  switch (r.below(4)) {
    case 0: b.v._values[row][col] = randomWord(r); break;
    case 1: b.v._values.push_back(b.v._values[row]); break;
    case 2: std::swap(b.v._values[row], b.v._values[r.below(b.v._values.size())]); break;
    case 3: std::swap(b.v._variables[col], b.v._variables[r.below(b.v._variables.size())]); break;
  }
  logIn(c, a);
  Values x(&context().qec, a.v), y(&context().qec, b.v);
  bool same = a.v._values == b.v._values && a.v._variables == b.v._variables;
  if (same) c.trivial = true;
  c.check(same || x.asString() != y.asString(), "same key for different tables: " + x.asString());
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
