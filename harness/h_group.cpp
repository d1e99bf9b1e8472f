// GROUP BY: real GroupBy against grouping rows one by one.
#ifdef PLAIN
#include "engine/GroupBy.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/GroupBy.cpp"
#endif
#include "util/Conversions.h"
#include "vocab.h"
using namespace vh;
using RT = ResultTable::ResultType;
using AT = ParsedQuery::AggregateType;

static const char* atName(AT t) {
  switch (t) {
    case AT::AVG: return "AVG";
    case AT::COUNT: return "COUNT";
    case AT::GROUP_CONCAT: return "GROUP_CONCAT";
    case AT::MAX: return "MAX";
    case AT::MIN: return "MIN";
    case AT::SAMPLE: return "SAMPLE";
    case AT::SUM: return "SUM";
    case AT::FIRST: return "FIRST";
    default: return "LAST";
  }
}
static float asFloat(Id x) {
  float f;
  std::memcpy(&f, &x, sizeof f);
  return f;
}
static Id asId(float f) {
  Id x = 0;
  std::memcpy(&x, &f, sizeof f);
  return x;
}
struct World {
  std::vector<std::string> words;           // vocabulary
  std::map<std::string, float> numbers;     // words that stand for numbers
  std::map<std::string, std::string> shown;
};
static World& world() {
  static World w = [] {
    World x;
    std::vector<std::string> all{"<a>", "<b>", "\"c\"", "\"d\"@en", "<ab c>"};
    for (int i = -3; i <= 4; i++) {
      float f = i * 1.5f;
      std::string lit = std::to_string(f);
      std::string word = ad_utility::convertFloatStringToIndexWord(lit);
      x.numbers[word] = f;
      x.shown[word] = ad_utility::convertIndexWordToValueLiteral(word);
      all.push_back(word);
    }
    x.words = useWords(all);
    return x;
  }();
  return w;
}
static std::string text(RT t, Id v, const std::vector<std::string>& local) {
  std::ostringstream o;
  if (t == RT::VERBATIM) o << v;
  else if (t == RT::FLOAT) o << asFloat(v);
  else if (t == RT::LOCAL_VOCAB) o << (v < local.size() ? local[v] : "");
  else {
    auto& w = world();
    std::string s = v < w.words.size() ? w.words[v] : "";
    auto it = w.shown.find(s);
    o << (it == w.shown.end() ? s : it->second);
  }
  return o.str();
}
// A cell of the expected result: an id, a number (may be nan) or a text.
struct Cell {
  int kind;  // 0 id, 1 float, 2 text, 3 any of the ids
  Id id = 0;
  float f = 0;
  std::string s;
  std::vector<Id> any;
};
static Cell aggregate(AT t, bool distinct, const std::string& delim, RT type, const std::vector<Id>& in, const std::vector<std::string>& local) {
  std::vector<Id> v;
  for (Id x : in)
    if (!distinct || !std::count(v.begin(), v.end(), x)) v.push_back(x);
  switch (t) {
    case AT::COUNT: return {0, v.size()};
    case AT::SAMPLE: return {3, 0, 0, "", in};
    case AT::FIRST: return {0, in.front()};
    case AT::LAST: return {0, in.back()};
    case AT::GROUP_CONCAT: {
      std::string s;
      for (size_t i = 0; i < v.size(); i++) s += (i ? delim : "") + text(type, v[i], local);
      return {2, 0, 0, s};
    }
    case AT::MAX:
    case AT::MIN: {
      if (type == RT::LOCAL_VOCAB) return {0, ID_NO_VALUE};
      Id best = v[0];
      for (Id x : v) {
        bool less = type == RT::FLOAT ? asFloat(x) < asFloat(best) : x < best;
        bool more = type == RT::FLOAT ? asFloat(x) > asFloat(best) : x > best;
        if (t == AT::MAX ? more : less) best = x;
      }
      return {0, best};
    }
    default: {
      float sum = 0;
      for (Id x : v) {
        if (type == RT::VERBATIM) sum += x;
        else if (type == RT::FLOAT) sum += asFloat(x);
        else if (type == RT::LOCAL_VOCAB) sum = NAN;
        else {
          auto& w = world();
          auto it = w.numbers.find(x < w.words.size() ? w.words[x] : "");
          sum += it == w.numbers.end() ? NAN : it->second;
        }
      }
      return {1, 0, t == AT::AVG ? sum / v.size() : sum};
    }
  }
}
static const std::array<AT, 9> allTypes{AT::AVG, AT::COUNT, AT::GROUP_CONCAT, AT::MAX, AT::MIN, AT::SAMPLE, AT::SUM, AT::FIRST, AT::LAST};

SUITE(operation, false, 6000, 100000,
      "tables of up to 14 or 200 rows with columns of numbers, floats, words and local words, grouped by 0 to 3 variables, 0 to 3 aggregates of all kinds, also DISTINCT") {
  auto& r = c.rng;
  auto& W = world();
  size_t w = r.chance(15) ? r.in(5, 7) : r.in(1, 4), n = r.chance(5) ? r.in(100, 200) : r.chance(10) ? r.below(2) : r.below(15);
  std::vector<RT> types(w);
  Table t(n, RowV(w));
  static const RT all[] = {RT::VERBATIM, RT::FLOAT, RT::KB, RT::LOCAL_VOCAB};
  auto local = std::make_shared<std::vector<std::string>>(std::vector<std::string>{"p", "q r", "", "s", " "});
  std::vector<std::string> names;
  for (size_t i = 0; i < w; i++) {
    names.push_back("?v" + std::to_string(i));
    types[i] = all[r.below(4)];
    uint64_t vals = r.in(1, 4);
    bool onlyNumbers = r.chance(60);
    for (auto& row : t) {
      if (types[i] == RT::VERBATIM) row[i] = r.below(vals) * (1 + r.below(2));
      else if (types[i] == RT::FLOAT) row[i] = asId(((int)r.below(vals * 2) - (int)vals) * 0.5f);
      else if (types[i] == RT::LOCAL_VOCAB) row[i] = r.below(5);
      else {
        do row[i] = r.below(W.words.size());
        while (onlyNumbers && !W.numbers.count(W.words[row[i]]));
      }
    }
  }
  std::vector<size_t> by;
  for (size_t i = 0; i < w && by.size() < 3; i++)
    if (r.chance(40)) by.push_back(i);
  std::vector<std::string> byNames;
  for (size_t i : by) byNames.push_back(names[i]);
  for (size_t i = byNames.size(); i > 1; i--) {
    size_t j = r.below(i);
    std::swap(byNames[i - 1], byNames[j]);
    std::swap(by[i - 1], by[j]);
  }
  std::vector<ParsedQuery::Alias> al;
  size_t na = by.empty() ? r.in(1, 3) : r.below(4);
  for (size_t i = 0; i < na; i++) {
    ParsedQuery::Alias a;
    a._type = allTypes[r.below(9)];
    a._inVarName = names[r.below(w)];
    a._outVarName = "?" + std::string(1, char('a' + r.below(20))) + std::to_string(i);
    a._isDistinct = r.chance(40);
    a._delimiter = r.chance(50) ? " " : r.chance(50) ? ", " : "";
    al.push_back(a);
  }
  GroupBy g(&context().qec, byNames, al);
  // input sorted as the operation asks for
  std::vector<std::string> sortedNames = byNames;
  LeafSpec probe{t, w, {}, names, types, local};
  auto sc = g.computeSortColumns(leafTree(probe).get());
  std::vector<size_t> sortCols;
  for (auto& p : sc) sortCols.push_back(p.first);
  for (size_t b : by)
    if (!std::count(sortCols.begin(), sortCols.end(), b)) c.fail("group by: a grouped column is not sorted");
  sortBy(t, sortCols);
  keyTable(c, t);
  std::string d = "group by";
  for (auto& x : byNames) d += " " + x;
  for (auto& a : al) d += std::string(", ") + atName(a._type) + (a._isDistinct ? " DISTINCT " : " ") + a._inVarName + " AS " + a._outVarName + (a._type == AT::GROUP_CONCAT ? " '" + a._delimiter + "'" : "");
  d += "; types";
  for (auto x : types) d += " " + std::to_string((int)x);
  c.key(hashStr(d));
  c.log(d + "\nof " + show(t) + "\n");
  if (n == 0) c.trivial = true;
  LeafSpec s{t, w, sortCols, names, types, local};
  g.setSubtree(leafTree(s));
  auto res = runOp(g);
  auto vc = g.getVariableColumns();
  c.check(g.getResultWidth() == by.size() + na && res->_data.cols() == by.size() + na, "group by: width");
  for (auto& x : byNames)
    if (!vc.count(x) || vc[x] >= by.size() + na) return c.fail("group by: no column for " + x);
  for (auto& a : al)
    if (!vc.count(a._outVarName) || vc[a._outVarName] >= by.size() + na) return c.fail("group by: no column for " + a._outVarName);
  // expected groups in order of their keys
  std::map<RowV, std::vector<size_t>> groups;
  for (size_t i = 0; i < n; i++) {
    RowV k;
    for (size_t b : by) k.push_back(t[i][b]);
    groups[k].push_back(i);
  }
  Table got = fromIdTable(res->_data);
  c.check(isSortedBy(got, g.resultSortedOn()), "group by: announced order does not hold");
  if (got.size() != groups.size()) return c.fail("group by: " + std::to_string(got.size()) + " groups instead of " + std::to_string(groups.size()));
  std::set<RowV> seen;
  for (auto& row : got) {
    RowV k;
    for (auto& x : byNames) k.push_back(row[vc[x]]);
    auto it = groups.find(k);
    if (it == groups.end() || !seen.insert(k).second) return c.fail("group by: unexpected group " + show(row));
    for (auto& a : al) {
      size_t col = std::find(names.begin(), names.end(), a._inVarName) - names.begin();
      std::vector<Id> in;
      for (size_t i : it->second) in.push_back(t[i][col]);
      Cell want = aggregate(a._type, a._isDistinct, a._delimiter, types[col], in, *local);
      Id v = row[vc[a._outVarName]];
      std::string what = std::string("group by: ") + atName(a._type) + (a._isDistinct ? " DISTINCT" : "") + " of " + a._inVarName + " in group " + show(k) + " is ";
      if (want.kind == 0) c.check(v == want.id, what + std::to_string(v) + " instead of " + std::to_string(want.id));
      if (want.kind == 3) c.check(std::count(want.any.begin(), want.any.end(), v), what + std::to_string(v) + ", which is not in the group");
      if (want.kind == 1)
        c.check(asId(asFloat(v)) == v && (asFloat(v) == want.f || std::abs(asFloat(v) - want.f) <= 1e-5 * std::abs(want.f) || (std::isnan(want.f) && std::isnan(asFloat(v)))),
                what + std::to_string(asFloat(v)) + " instead of " + std::to_string(want.f));
      if (want.kind == 2) {
        auto got = res->idToOptionalString(v);
        c.check(got && *got == want.s, what + "'" + got.value_or("(nothing)") + "' instead of '" + want.s + "'");
      }
    }
  }
  // types, and words that are passed through
  auto passed = [&](const std::string& out, const std::string& in) {
    size_t col = std::find(names.begin(), names.end(), in) - names.begin();
    c.check(res->getResultType(vc[out]) == types[col], "group by: type of " + out);
    if (types[col] == RT::LOCAL_VOCAB)
      for (auto& row : got) c.check(row[vc[out]] == ID_NO_VALUE || res->idToOptionalString(row[vc[out]]) == (*local)[row[vc[out]]], "group by: word in column " + out);
  };
  for (auto& x : byNames) passed(x, x);
  for (auto& a : al) {
    RT ty = res->getResultType(vc[a._outVarName]);
    if (a._type == AT::COUNT) c.check(ty == RT::VERBATIM, "group by: type of COUNT");
    else if (a._type == AT::SUM || a._type == AT::AVG) c.check(ty == RT::FLOAT, "group by: type of SUM or AVG");
    else if (a._type == AT::GROUP_CONCAT) c.check(ty == RT::LOCAL_VOCAB, "group by: type of GROUP_CONCAT");
    else passed(a._outVarName, a._inVarName);
  }
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
