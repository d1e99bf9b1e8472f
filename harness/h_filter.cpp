// FILTER: real Filter against row-wise evaluation.
#ifdef PLAIN
#include "engine/Filter.h"
#else
#include "fewwidths.h"
#include "@REPO@/src/engine/Filter.cpp"
#endif
#include "vocab.h"
using namespace vh;
using RT = ResultTable::ResultType;
using F = SparqlFilter::FilterType;
static const F KINDS[] = {F::EQ, F::NE, F::LT, F::LE, F::GT, F::GE};
static const char* NAMES[] = {"=", "!=", "<", "<=", ">", ">="};

template <typename A>
static bool holds(F k, const A& a, const A& b) {
  switch (k) {
    case F::EQ: return a == b;
    case F::NE: return a != b;
    case F::LT: return a < b;
    case F::LE: return a <= b;
    case F::GT: return a > b;
    default: return a >= b;
  }
}
struct In {
  Table t;
  size_t w, lhs;
  bool sorted;
  std::vector<RT> types;
  std::shared_ptr<std::vector<std::string>> vocab;
};
static void describe(Case& c, const In& in, const std::string& what) {
  keyTable(c, in.t);
  c.key(hashStr(what));
  c.key(in.lhs * 2 + in.sorted);
  c.log("filter " + what + " on column " + std::to_string(in.lhs) + (in.sorted ? " (sorted)" : " (unsorted)") + " of " +
        show(in.t) + "\n");
  if (in.t.empty()) c.trivial = true;
}
static LeafSpec spec(const In& in) {
  LeafSpec s{in.t, in.w, {}, {}, in.types, in.vocab};
  if (in.sorted) s.sorted = {in.lhs};
  for (size_t i = 0; i < in.w; i++) s.vars.push_back("?v" + std::to_string(i));
  return s;
}
static void run(Case& c, const In& in, F k, const std::string& rhs, const std::function<bool(const RowV&)>& keep,
                std::vector<std::string> addLhs = {}, std::vector<std::string> addPre = {}, bool icase = false) {
  Table want;
  for (const auto& r : in.t)
    if (keep(r)) want.push_back(r);
  Filter f(&context().qec, leafTree(spec(in)), k, "?v" + std::to_string(in.lhs), rhs, addLhs, addPre);
  f.setRegexIgnoreCase(icase);
  auto res = runOp(f);
  expectSeq(c, "filter", fromIdTable(res->_data), want);
  c.check(res->_data.cols() == in.w, "filter: number of columns changed");
  for (size_t i = 0; i < in.w; i++) c.check(res->getResultType(i) == in.types[i], "filter: type of a column changed");
  if (in.vocab) c.check(res->_localVocab && *res->_localVocab == *in.vocab, "filter: strings of the input lost");
  c.check(f.getResultWidth() == in.w, "filter: announced width");
  auto order = f.resultSortedOn();
  c.check(isSortedBy(fromIdTable(res->_data), order) || in.types[order[0]] == RT::FLOAT, "filter: announced order does not hold");
}
static In randomIn(Rng& r, uint64_t values, size_t maxRows, RT type) {
  In in;
  in.w = r.chance(20) ? r.in(6, 7) : r.in(1, 5);
  in.lhs = r.below(in.w);
  in.sorted = r.chance(50);
  in.types.assign(in.w, RT::VERBATIM);
  in.types[in.lhs] = type;
  size_t n = r.chance(15) ? r.below(3) : r.below(maxRows + 1);
  for (size_t i = 0; i < n; i++) {
    RowV row;
    for (size_t j = 0; j < in.w; j++) row.push_back(r.below(j == in.lhs ? values : 5));
    in.t.push_back(row);
  }
  if (in.sorted) sortBy(in.t, {in.lhs});
  return in;
}

#ifndef PLAIN
SUITE(ranges, false, 6000, 200000, "the three kernels on tables with few values, all comparisons and bounds, sorted and unsorted") {
  In in = randomIn(c.rng, 5, 8, RT::KB);
  int k = c.rng.below(6);
  Id v = c.rng.below(6), up = v + c.rng.below(3);
  size_t other = c.rng.below(in.w);
  describe(c, in, std::string("kernels ") + NAMES[k] + " " + std::to_string(v) + " / [" + std::to_string(v) + "," + std::to_string(up) +
                      ") / column " + std::to_string(other));
  auto sub = std::make_shared<ResultTable>(alloc());
  sub->_data = toIdTable(in.t, in.w);
  if (in.sorted) sub->_sortedBy = {in.lhs};
  Filter f(&context().qec, leafTree(spec(in)), KINDS[k], "?v0", "x", {}, {});
  std::shared_ptr<const ResultTable> csub = sub;
  auto go = [&](const std::string& what, auto call, auto keep) {
    Table want;
    for (const auto& r : in.t)
      if (keep(r)) want.push_back(r);
    IdTableStatic<0> res(in.w, alloc());
    auto view = csub->_data.asStaticView<0>();
    call(&res, view);
    IdTable dyn = res.moveToDynamic();
    expectSeq(c, what, fromIdTable(dyn), want);
  };
  go("constant", [&](auto* res, auto& v0) { f.computeFilterFixedValue<RT::KB, 0>(res, in.lhs, v, v0, csub); },
     [&](const RowV& r) { return holds<Id>(KINDS[k], r[in.lhs], v); });
  go("range", [&](auto* res, auto& v0) { f.computeFilterRange<RT::KB, 0, false>(res, in.lhs, v, up, v0, csub); },
     [&](const RowV& r) { return v <= r[in.lhs] && r[in.lhs] < up; });
  go("outside of range", [&](auto* res, auto& v0) { f.computeFilterRange<RT::KB, 0, true>(res, in.lhs, v, up, v0, csub); },
     [&](const RowV& r) { return !(v <= r[in.lhs] && r[in.lhs] < up); });
  go("columns", [&](auto* res, auto& v0) { f.computeFilter<RT::KB, 0>(res, in.lhs, other, v0); },
     [&](const RowV& r) { return holds<Id>(KINDS[k], r[in.lhs], r[other]); });
}
#endif

SUITE(numbers, false, 3000, 60000, "whole operation on columns of plain numbers, all comparisons with constants and columns") {
  bool big = c.rng.chance(10);
  In in = randomIn(c.rng, big ? 300 : 6, big ? 400 : 12, RT::VERBATIM);
  int k = c.rng.below(6);
  if (c.rng.chance(60)) {
    Id v = c.rng.below(big ? 310 : 7);
    describe(c, in, NAMES[k] + std::string(" ") + std::to_string(v));
    run(c, in, KINDS[k], std::to_string(v), [&](const RowV& r) { return holds<Id>(KINDS[k], r[in.lhs], v); });
  } else {
    size_t o = c.rng.below(in.w);
    describe(c, in, NAMES[k] + std::string(" column ") + std::to_string(o));
    run(c, in, KINDS[k], "?v" + std::to_string(o), [&](const RowV& r) { return holds<Id>(KINDS[k], r[in.lhs], r[o]); });
  }
}
static Id fromFloat(float f) {
  Id x = 0;
  std::memcpy(&x, &f, sizeof f);
  return x;
}
static float toFloat(Id x) {
  float f;
  std::memcpy(&f, &x, sizeof f);
  return f;
}
SUITE(floats, false, 2000, 40000, "whole operation on columns of floating point numbers, also negative ones, ordered by stored word or unordered") {
  In in = randomIn(c.rng, 9, 12, RT::FLOAT);
  for (auto& r : in.t) r[in.lhs] = fromFloat(((int)r[in.lhs] - 4) * 0.5f);
  if (in.sorted) sortBy(in.t, {in.lhs});
  int k = c.rng.below(6);
  if (c.rng.chance(70)) {
    float v = ((int)c.rng.below(11) - 5) * 0.5f;
    std::ostringstream os;
    os << v;
    describe(c, in, NAMES[k] + std::string(" ") + os.str());
    run(c, in, KINDS[k], os.str(), [&](const RowV& r) { return holds<float>(KINDS[k], toFloat(r[in.lhs]), v); });
  } else {
    size_t o = c.rng.below(in.w);
    in.types[o] = RT::FLOAT;
    if (o != in.lhs)
      for (auto& r : in.t) r[o] = fromFloat(((int)r[o] - 2) * 0.5f);
    describe(c, in, NAMES[k] + std::string(" column ") + std::to_string(o));
    run(c, in, KINDS[k], "?v" + std::to_string(o),
        [&](const RowV& r) { return holds<float>(KINDS[k], toFloat(r[in.lhs]), toFloat(r[o])); });
  }
}
static std::vector<std::string> words(Case& c, std::ostringstream& os) {
  std::vector<std::string> w;
  size_t n = c.rng.in(1, 12);
  for (size_t i = 0; i < n; i++) w.push_back(randomWord(c.rng));
  if (c.rng.chance(30))
    for (int i = -2; i < 3; i++) w.push_back(ad_utility::convertNumericToIndexWord(std::to_string(i * 7)));
  w = useWords(w);
  os << " vocabulary:";
  for (auto& x : w) os << " " << x, c.key(hashStr(x));
  return w;
}
SUITE(strings, false, 3000, 60000, "whole operation on columns of vocabulary words, constants inside and outside of the vocabulary") {
  std::ostringstream os;
  auto w = words(c, os);
  In in = randomIn(c.rng, w.size(), 12, RT::KB);
  int k = c.rng.below(6);
  if (c.rng.chance(20)) {
    size_t o = c.rng.below(in.w);
    describe(c, in, NAMES[k] + std::string(" column ") + std::to_string(o));
    run(c, in, KINDS[k], "?v" + std::to_string(o), [&](const RowV& r) { return holds<Id>(KINDS[k], r[in.lhs], r[o]); });
    return;
  }
  std::string rhs = c.rng.chance(50) ? w[c.rng.below(w.size())] : randomWord(c.rng);
  std::string word = rhs;
  if (c.rng.chance(15)) {
    rhs = std::to_string((int)c.rng.below(30) - 15);
    word = ad_utility::convertNumericToIndexWord(rhs);
  } else if (rhs.substr(0, 4) == ":v:n" || rhs.substr(0, 2) == ":v") {
    rhs = "7";
    word = ad_utility::convertNumericToIndexWord(rhs);
  }
  describe(c, in, NAMES[k] + std::string(" ") + rhs + os.str());
  run(c, in, KINDS[k], rhs, [&](const RowV& r) {
    return holds<int>(KINDS[k], cmpWords(w[r[in.lhs]], word, RdfsVocabulary::SortLevel::QUARTERNARY), 0);
  });
}
static std::string lower(std::string s) {
  for (auto& x : s) x = tolower(x);
  return s;
}
SUITE(prefixes, false, 3000, 60000, "prefix filters with one or several alternatives, on one or several columns") {
  std::vector<std::string> w;
  std::ostringstream os;
  size_t n = c.rng.in(1, 12);
  for (size_t i = 0; i < n; i++) w.push_back(randomWord(c.rng, true));
  w = useWords(w);
  os << " vocabulary:";
  for (auto& x : w) os << " " << x, c.key(hashStr(x));
  In in = randomIn(c.rng, w.size(), 12, RT::KB);
  auto pre = [&]() {
    std::string s = "\"";
    for (size_t i = c.rng.in(1, 2); i > 0; i--) s += "abABc1"[c.rng.below(6)];
    return s;
  };
  std::vector<std::pair<size_t, std::string>> alt{{in.lhs, pre()}};
  std::vector<std::string> al, ap;
  for (size_t i = c.rng.chance(50) ? c.rng.below(4) : 0; i > 0; i--) {
    size_t col = c.rng.chance(70) ? in.lhs : c.rng.below(in.w);
    alt.push_back({col, pre()});
    al.push_back("?v" + std::to_string(col));
    ap.push_back("^" + alt.back().second);
  }
  for (auto& r : in.t)
    for (auto& x : r) x %= w.size();
  if (in.sorted) sortBy(in.t, {in.lhs});
  std::string d = "prefix";
  for (auto& [col, p] : alt) d += " " + std::to_string(col) + ":" + p;
  describe(c, in, d + os.str());
  run(c, in, F::PREFIX, "^" + alt[0].second,
      [&](const RowV& r) {
        for (auto& [col, p] : alt)
          if (lower(w[r[col]]).substr(0, p.size()) == lower(p)) return true;
        return false;
      },
      al, ap);
}
SUITE(texts, false, 1500, 30000, "regular expressions and language filters on vocabulary words and on strings of the result itself") {
  std::ostringstream os;
  bool local = c.rng.chance(40);
  std::vector<std::string> w = words(c, os);
  In in = randomIn(c.rng, w.size(), 12, local ? RT::LOCAL_VOCAB : RT::KB);
  if (local) in.vocab = std::make_shared<std::vector<std::string>>(w);
  int kind = c.rng.below(local ? 4 : 2);
  if (kind == 0) {
    static const char* lang[] = {"@en", "@de", "@en-us", "@fr"};
    std::string l = lang[c.rng.below(4)];
    describe(c, in, "language " + l + os.str());
    run(c, in, F::LANG_MATCHES, l,
        [&](const RowV& r) { return w[r[in.lhs]].size() >= l.size() && w[r[in.lhs]].substr(w[r[in.lhs]].size() - l.size()) == l; });
  } else if (kind == 1) {
    std::string p;
    for (size_t i = c.rng.in(1, 2); i > 0; i--) p += "abABc1"[c.rng.below(6)];
    bool ic = c.rng.chance(50);
    describe(c, in, std::string(ic ? "expression ignoring case " : "expression ") + p + os.str());
    run(c, in, F::REGEX, p,
        [&](const RowV& r) {
          return ic ? lower(w[r[in.lhs]]).find(lower(p)) != std::string::npos : w[r[in.lhs]].find(p) != std::string::npos;
        },
        {}, {}, ic);
  } else {
    std::string rhs = c.rng.chance(60) ? w[c.rng.below(w.size())] : randomWord(c.rng);
    describe(c, in, std::string(kind == 2 ? "= " : "!= ") + rhs + os.str());
    run(c, in, kind == 2 ? F::EQ : F::NE, rhs, [&](const RowV& r) { return (w[r[in.lhs]] == rhs) == (kind == 2); });
  }
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
