// List operations of the text search against definitions over sets of postings.
#include <algorithm>
#include <map>
#include <set>
#ifndef PLAIN
#include "@REPO@/src/index/FTSAlgorithms.cpp"
#else
#include "index/FTSAlgorithms.h"
#endif
#include "engine/CallFixedSize.h"
#include "rows.h"
using namespace vh;
using Ids = std::vector<Id>;
using Scores = std::vector<Score>;

// Non-decreasing ids; distinct if asked for.
static Ids sorted(Rng& r, size_t n, size_t range, bool distinct) {
  Ids v;
  for (size_t i = 0; i < n; i++) v.push_back(r.below(range));
  std::sort(v.begin(), v.end());
  if (distinct) v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static size_t length(Rng& r) { return r.chance(10) ? 0 : r.chance(70) ? r.below(8) : r.below(60); }
static Scores scoresFor(Rng& r, size_t n) {
  Scores s;
  size_t range = r.chance(30) ? 2 : r.chance(80) ? 20 : 60000;
  for (size_t i = 0; i < n; i++) s.push_back(r.below(range));
  return s;
}
// values far apart, including large ones
static Ids spreadOut(Rng& r, Ids v) {
  if (r.chance(30))
    for (auto& x : v) x = x * ((1ull << 33) + 7);
  return v;
}
template <typename T>
static std::string list(const std::vector<T>& v) {
  std::string s = "[";
  for (auto x : v) s += std::to_string(x) + " ";
  return s + "]";
}
template <typename T>
static void keyList(Case& c, const std::vector<T>& v) {
  c.key(v.size());
  for (auto x : v) c.key(x);
}
template <typename T>
static void same(Case& c, const std::string& what, const std::vector<T>& got, const std::vector<T>& want) {
  c.check(got == want, what + ": " + list(got) + " instead of " + list(want));
}

SUITE(range, false, 6000, 60000, "up to 60 postings, word ranges with both ends anywhere") {
  Rng& r = c.rng;
  size_t n = length(r);
  Ids cids = sorted(r, n, 30, false), wids;
  Scores sc = scoresFor(r, n);
  for (size_t i = 0; i < n; i++) wids.push_back(r.below(8));
  IdRange range;
  range._first = r.below(9);
  range._last = range._first + r.below(5);
  if (r.chance(5)) range._first++;
  keyList(c, cids), keyList(c, wids), keyList(c, sc), c.key(range._first * 100 + range._last);
  c.log("contexts " + list(cids) + " words " + list(wids) + " scores " + list(sc) + " range " + std::to_string(range._first) + ".." + std::to_string(range._last) + "\n");
  Ids rc{1, 2, 3}, wc;
  Scores rs{4}, ws;
  FTSAlgorithms::filterByRange(range, cids, wids, sc, rc, rs);
  for (size_t i = 0; i < n; i++)
    if (wids[i] >= range._first && wids[i] <= range._last) wc.push_back(cids[i]), ws.push_back(sc[i]);
  same(c, "contexts", rc, wc);
  same(c, "scores", rs, ws);
}
SUITE(entities, false, 10000, 100000, "up to 60 contexts, repeated or not, and up to 60 entity postings") {
  Rng& r = c.rng;
  size_t n = length(r), m = length(r), range = r.chance(50) ? 8 : 60;
  Ids match = sorted(r, n, range, r.chance(50)), ec = sorted(r, m, range, false), ee;
  Scores es = scoresFor(r, m);
  for (size_t i = 0; i < m; i++) ee.push_back(r.below(6));
  keyList(c, match), keyList(c, ec), keyList(c, ee), keyList(c, es);
  c.log("contexts " + list(match) + " postings " + list(ec) + " of " + list(ee) + " scores " + list(es) + "\n");
  Ids rc, re, wc, we;
  Scores rs, ws;
  FTSAlgorithms::intersect(match, ec, ee, es, rc, re, rs);
  for (size_t j = 0; j < m; j++)
    if (std::count(match.begin(), match.end(), ec[j])) wc.push_back(ec[j]), we.push_back(ee[j]), ws.push_back(es[j]);
  same(c, "contexts", rc, wc);
  same(c, "entities", re, we);
  same(c, "scores", rs, ws);
}
SUITE(twoLists, false, 10000, 100000, "two lists of up to 60 contexts; repeated contexts are paired occurrence by occurrence") {
  Rng& r = c.rng;
  size_t range = r.chance(50) ? 8 : 60;
  bool distinct = r.chance(50);
  Ids a = sorted(r, length(r), range, distinct), b = sorted(r, length(r), range, distinct);
  Scores sa = scoresFor(r, a.size()), sb = scoresFor(r, b.size());
  keyList(c, a), keyList(c, b), keyList(c, sa), keyList(c, sb);
  c.log("contexts " + list(a) + " scores " + list(sa) + "\nand " + list(b) + " scores " + list(sb) + "\n");
  Ids rc, wc;
  Scores rs, ws;
  FTSAlgorithms::intersectTwoPostingLists(a, sa, b, sb, rc, rs);
  std::map<Id, std::vector<size_t>> ina, inb;
  for (size_t i = 0; i < a.size(); i++) ina[a[i]].push_back(i);
  for (size_t i = 0; i < b.size(); i++) inb[b[i]].push_back(i);
  for (auto& [x, l] : ina)
    for (size_t k = 0; k < std::min(l.size(), inb[x].size()); k++) wc.push_back(x), ws.push_back(sa[l[k]] + sb[inb[x][k]]);
  same(c, "contexts", rc, wc);
  same(c, "scores", rs, ws);
}
SUITE(manyLists, false, 20000, 200000, "2 to 5 lists of up to 60 contexts, with and without entities for the last list") {
  Rng& r = c.rng;
  size_t k = r.in(2, 5), range = r.chance(50) ? 6 : r.chance(50) ? 15 : 60;
  bool entities = r.chance(50), distinct = r.chance(60);
  std::vector<Ids> cids(k);
  std::vector<Scores> sc(k);
  Ids eids;
  for (size_t i = 0; i < k; i++) {
    cids[i] = sorted(r, r.chance(50) ? range : length(r), range, i + 1 == k && entities ? false : distinct);
    sc[i] = scoresFor(r, cids[i].size());
    keyList(c, cids[i]), keyList(c, sc[i]);
    c.log("list " + list(cids[i]) + " scores " + list(sc[i]) + "\n");
  }
  for (auto x : cids[k - 1]) eids.push_back(100 + r.below(5)), (void)x;
  if (entities) keyList(c, eids), c.log("entities " + list(eids) + "\n");
  Ids rc, re, wc, we;
  Scores rs, ws;
  FTSAlgorithms::intersectKWay(cids, sc, entities ? &eids : nullptr, rc, re, rs);
  std::set<Id> done;
  for (size_t j = 0; j < cids[k - 1].size(); j++) {
    Id x = cids[k - 1][j];
    Score s = sc[k - 1][j];
    bool in = entities || done.insert(x).second;
    for (size_t i = 0; i + 1 < k; i++) {
      auto it = std::find(cids[i].begin(), cids[i].end(), x);
      if (it == cids[i].end()) in = false;
      else s += sc[i][it - cids[i].begin()];
    }
    if (in) wc.push_back(x), ws.push_back(s), we.push_back(eids[j]);
  }
  same(c, "contexts", rc, wc);
  same(c, "scores", rs, ws);
  if (entities) same(c, "entities", re, we);
}
SUITE(topContexts, false, 6000, 60000, "up to 60 contexts and any limit") {
  Rng& r = c.rng;
  Ids a = sorted(r, length(r), 200, true);
  Scores s = scoresFor(r, a.size());
  size_t k = r.chance(20) ? 0 : r.below(70);
  keyList(c, a), keyList(c, s), c.key(k);
  c.log("contexts " + list(a) + " scores " + list(s) + " limit " + std::to_string(k) + "\n");
  FTSAlgorithms::WidthOneList res;
  FTSAlgorithms::getTopKByScores(a, s, k, &res);
  Scores want = s, got;
  std::sort(want.rbegin(), want.rend());
  want.resize(std::min(k, want.size()));
  std::set<Id> seen;
  for (auto& x : res) {
    auto it = std::find(a.begin(), a.end(), x[0]);
    c.check(it != a.end() && seen.insert(x[0]).second, "context " + std::to_string(x[0]) + " is not in the list or repeated");
    if (it != a.end()) got.push_back(s[it - a.begin()]);
  }
  same(c, "scores in decreasing order", got, want);
}

// Postings of entities in contexts, no entity twice in a context.
struct Postings {
  Ids cids, eids;
  Scores scores;
};
static Postings postings(Case& c, bool oneScorePerContext) {
  Rng& r = c.rng;
  Postings p;
  size_t contexts = r.chance(5) ? 0 : r.in(1, r.chance(70) ? 5 : 14), entities = r.in(1, 5);
  Scores base = scoresFor(r, 200);
  Id cid = r.below(3), factor = r.chance(30) ? (1ull << 34) + 3 : 1;
  for (size_t i = 0; i < contexts; i++, cid += r.in(1, 3)) {
    Score s = base[r.below(200)];
    for (Id e = 0; e < entities; e++)
      if (r.chance(50)) p.cids.push_back(cid * factor), p.eids.push_back(e * factor + 10), p.scores.push_back(oneScorePerContext ? s : base[r.below(200)]);
  }
  if (!oneScorePerContext) {
    // within a context in any order
    for (size_t i = 0; i + 1 < p.cids.size(); i++)
      if (p.cids[i] == p.cids[i + 1] && r.chance(40)) std::swap(p.eids[i], p.eids[i + 1]);
  } else {
    for (size_t i = 0; i + 1 < p.cids.size(); i++)
      if (p.cids[i] == p.cids[i + 1] && r.chance(40)) std::swap(p.eids[i], p.eids[i + 1]);
  }
  keyList(c, p.cids), keyList(c, p.eids), keyList(c, p.scores);
  c.log("contexts " + list(p.cids) + " entities " + list(p.eids) + " scores " + list(p.scores) + "\n");
  return p;
}
using Key = std::vector<Id>;
// Groups: key -> (context, score). Every key must be returned with the number
// of its contexts and its best contexts up to the limit, each with every tail.
static void expectGroups(Case& c, const IdTable& t, const std::map<Key, std::vector<std::pair<Id, Score>>>& groups, size_t k,
                         const std::function<std::vector<Key>(const Key&)>& tails, size_t width) {
  c.check(t.cols() == width, "columns: " + std::to_string(t.cols()) + " instead of " + std::to_string(width));
  if (!c.problems.empty()) return;
  // expected rows without the context, and how often
  std::map<Key, std::vector<std::pair<Id, Score>>> want;
  for (auto& [key, ctx] : groups)
    for (auto& tail : tails(key)) {
      Key row{(Score)ctx.size()};
      row.insert(row.end(), tail.begin(), tail.end());
      auto& w = want[row];
      w.insert(w.end(), ctx.begin(), ctx.end());
    }
  std::map<Key, std::vector<Id>> got;
  for (size_t i = 0; i < t.size(); i++) {
    Key row;
    for (size_t j = 1; j < width; j++) row.push_back(t(i, j));
    got[row].push_back(t(i, 0));
  }
  for (auto& [row, ctx] : got) c.check(want.count(row), "row (count, values) " + list(row) + " must not appear");
  for (auto& [row, ctx] : want) {
    Scores all, best;
    std::map<Id, Score> scoreOf;
    for (auto& [x, s] : ctx) all.push_back(s), scoreOf[x] = s;
    std::sort(all.rbegin(), all.rend());
    all.resize(std::min(k, all.size()));
    std::set<Id> seen;
    for (Id x : got[row]) {
      c.check(scoreOf.count(x) && seen.insert(x).second, "context " + std::to_string(x) + " for " + list(row) + " is wrong or repeated");
      best.push_back(scoreOf.count(x) ? scoreOf[x] : 0);
    }
    std::sort(best.rbegin(), best.rend());
    same(c, "best scores for " + list(row), best, all);
    if (!c.problems.empty()) return;
  }
}
static size_t limit(Rng& r) { return r.chance(35) ? 1 : r.chance(80) ? r.in(2, 5) : 1000; }
SUITE(perEntity, false, 8000, 80000, "up to 14 contexts with up to 5 entities, limits 1 to 5 and 1000, with and without a set of allowed entities") {
  Rng& r = c.rng;
  auto p = postings(c, false);
  size_t k = limit(r);
  bool filter = r.chance(50);
  ad_utility::HashSet<Id> set;
  for (auto e : p.eids)
    if (r.chance(30)) set.insert(e);
  if (r.chance(30)) set.insert(5);
  c.key(k * 2 + filter);
  c.log("limit " + std::to_string(k) + (filter ? " allowed:" : ""));
  IdTable res(3, vh::alloc());
  if (filter) {
    std::set<Id> o(set.begin(), set.end());
    for (auto e : o) c.log(" " + std::to_string(e)), c.key(e);
    FTSAlgorithms::oneVarFilterAggScoresAndTakeTopKContexts(p.cids, p.eids, p.scores, set, k, &res);
  } else {
    FTSAlgorithms::aggScoresAndTakeTopKContexts(p.cids, p.eids, p.scores, k, &res);
  }
  c.log("\n");
  std::map<Key, std::vector<std::pair<Id, Score>>> groups;
  for (size_t i = 0; i < p.cids.size(); i++)
    if (!filter || set.contains(p.eids[i])) groups[{p.eids[i]}].emplace_back(p.cids[i], p.scores[i]);
  expectGroups(c, res, groups, k, [](const Key& key) { return std::vector<Key>{key}; }, 3);
}
// all tuples of entities that occur in one context
static std::map<Key, std::vector<std::pair<Id, Score>>> tuples(const Postings& p, size_t vars, const std::function<bool(Id)>& first) {
  std::map<Id, std::pair<Score, Ids>> byContext;
  for (size_t i = 0; i < p.cids.size(); i++) byContext[p.cids[i]].first = p.scores[i], byContext[p.cids[i]].second.push_back(p.eids[i]);
  std::map<Key, std::vector<std::pair<Id, Score>>> groups;
  for (auto& [cid, v] : byContext) {
    std::vector<Key> keys{{}};
    for (size_t i = 0; i < vars; i++) {
      std::vector<Key> next;
      for (auto& k : keys)
        for (auto e : v.second)
          if (i > 0 || first(e)) next.push_back(k), next.back().push_back(e);
      keys = next;
    }
    for (auto& k : keys) groups[k].emplace_back(cid, v.first);
  }
  return groups;
}
// static widths that are instantiated
template <typename F>
static void withWidth(Rng& r, size_t width, F f) {
  int w = width <= 5 && r.chance(70) ? width : 0;
  switch (w) {
    case 3: return f(std::integral_constant<int, 3>{});
    case 4: return f(std::integral_constant<int, 4>{});
    case 5: return f(std::integral_constant<int, 5>{});
    default: return f(std::integral_constant<int, 0>{});
  }
}
// Postings of one context with all combinations of the rows of entities in it.
SUITE(crossProducts, false, 6000, 60000, "part of up to 12 postings with 0 to 3 tables of rows for 5 entities, or two sets") {
  Rng& r = c.rng;
  size_t n = r.below(13), from = r.below(n + 1), to = from + r.below(n - from + 1), m = r.below(4);
  Ids cids = spreadOut(r, sorted(r, n, 3, false)), eids;
  Scores sc = scoresFor(r, n);
  for (size_t i = 0; i < n; i++) eids.push_back(r.below(6));
  keyList(c, cids), keyList(c, eids), keyList(c, sc);
  c.key(from * 16 + to);
  c.log("contexts " + list(cids) + ", entities " + list(eids) + ", scores " + list(sc) + ", from " + std::to_string(from) + " to " + std::to_string(to) + "\n");
  std::vector<ad_utility::HashMap<Id, std::vector<Ids>>> maps(m);
  ad_utility::HashSet<Id> sets[2];
  std::set<Id> present(eids.begin() + from, eids.begin() + to);
  std::vector<std::vector<Ids>> found(m);
  Id fresh = 100;
  for (size_t j = 0; j < m; j++) {
    c.log("table " + std::to_string(j) + ":");
    size_t w = r.in(1, 3);
    for (Id e = 0; e < 5; e++) {
      if (!r.chance(50)) continue;
      auto& rows = maps[j][e];
      for (size_t k = r.in(1, 2); k > 0; k--) {
        Ids row;
        for (size_t x = 0; x < w; x++) row.push_back(fresh++);
        rows.push_back(row);
        if (present.count(e)) found[j].push_back(row);
        c.log(" " + std::to_string(e) + " " + list(row));
      }
      c.key(j * 8 + e), c.key(rows.size());
    }
    c.log("\n");
  }
  auto show = [](std::vector<Ids> v) {
    std::sort(v.begin(), v.end());
    std::string s;
    for (auto& x : v) s += list(x);
    return s;
  };
  auto expect = [&](const std::string& what, const std::vector<Ids>& got, const std::vector<std::vector<Ids>>& tables) {
    std::vector<Ids> want;
    for (size_t i = from; i < to; i++) {
      std::vector<Ids> rows{{eids[i], sc[i], cids[i]}};
      for (auto& t : tables) {
        std::vector<Ids> next;
        for (auto& row : rows)
          for (auto& x : t) {
            next.push_back(row);
            next.back().insert(next.back().end(), x.begin(), x.end());
          }
        rows = next;
      }
      want.insert(want.end(), rows.begin(), rows.end());
    }
    std::string g = show(got), w = show(want);
    c.check(g == w, what + ": rows " + g + " instead of " + w);
  };
  {
    std::vector<Ids> res;
    FTSAlgorithms::appendCrossProduct(cids, eids, sc, from, to, maps, res);
    expect("tables", res, found);
  }
  for (Id e = 0; e < 6; e++)
    for (size_t j = 0; j < 2; j++)
      if (r.chance(50)) sets[j].insert(e), c.key(e * 2 + j), c.log("set " + std::to_string(j) + " has " + std::to_string(e) + "\n");
  std::vector<std::vector<Ids>> both(2);
  for (size_t j = 0; j < 2; j++)
    for (Id e : present)
      if (sets[j].count(e)) both[j].push_back({e});
  std::vector<std::array<Id, 5>> res;
  FTSAlgorithms::appendCrossProduct(cids, eids, sc, from, to, sets[0], sets[1], res);
  std::vector<Ids> got;
  for (auto& x : res) got.emplace_back(x.begin(), x.end());
  expect("sets", got, both);
}
SUITE(tuplesOfEntities, false, 6000, 60000, "tuples of 2 to 4 entities in the same context, up to 14 contexts, all scores of a context equal") {
  Rng& r = c.rng;
  auto p = postings(c, true);
  size_t k = limit(r), vars = r.in(2, p.cids.size() > 12 ? 2 : 4);
  c.key(k * 8 + vars);
  c.log("limit " + std::to_string(k) + ", " + std::to_string(vars) + " variables\n");
  IdTable res(2 + vars, vh::alloc());
  withWidth(r, 2 + vars, [&](auto w) { FTSAlgorithms::multVarsAggScoresAndTakeTopKContexts<w>(p.cids, p.eids, p.scores, vars, k, &res); });
  expectGroups(c, res, tuples(p, vars, [](Id) { return true; }), k, [](const Key& key) { return std::vector<Key>{key}; }, 2 + vars);
}
SUITE(filteredTuples, false, 8000, 80000, "1 to 3 entities in the same context of which the first is joined with rows of a table or restricted to a set") {
  Rng& r = c.rng;
  auto p = postings(c, true);
  size_t k = limit(r), vars = r.in(1, p.cids.size() > 12 ? 2 : 3);
  bool table = r.chance(50);
  size_t fw = table ? r.in(1, 3) : 1;
  if (!table && vars == 1) vars = 2;
  size_t col = r.below(fw);
  ad_utility::HashMap<Id, IdTable> rows;
  ad_utility::HashSet<Id> set;
  std::map<Id, std::vector<Key>> want;
  std::set<Id> es(p.eids.begin(), p.eids.end());
  es.insert(5);
  c.log("limit " + std::to_string(k) + ", " + std::to_string(vars) + " variables, first one from");
  for (Id e : es) {
    if (!r.chance(50)) continue;
    set.insert(e);
    IdTable t(fw, vh::alloc());
    for (size_t n = r.in(1, 3); n > 0; n--) {
      Key row;
      for (size_t j = 0; j < fw; j++) row.push_back(j == col ? e : 1000 * (want[e].size() + 1) + j + r.below(2) * 7);
      want[e].push_back(row);
      t.push_back();
      for (size_t j = 0; j < fw; j++) t(t.size() - 1, j) = row[j];
      c.log(" " + list(row));
      if (fw == 1) break;
    }
    rows.insert({e, std::move(t)});
    c.key(e);
  }
  c.key(k * 16 + vars * 2 + table), c.key(fw);
  c.log(table ? " (table)\n" : " (set)\n");
  size_t width = table ? 2 + (vars - 1) + fw : 2 + vars;
  IdTable res(width, vh::alloc());
  withWidth(r, width, [&](auto w) {
    if (!table) FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts<w>(p.cids, p.eids, p.scores, set, vars, k, &res);
    else if (vars == 1) FTSAlgorithms::oneVarFilterAggScoresAndTakeTopKContexts<w>(p.cids, p.eids, p.scores, rows, k, &res);
    else FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts<w>(p.cids, p.eids, p.scores, rows, vars, k, &res);
  });
  expectGroups(
      c, res, tuples(p, vars, [&](Id e) { return set.contains(e); }), k,
      [&](const Key& key) {
        std::vector<Key> tails;
        for (auto& f : table ? want[key[0]] : std::vector<Key>{{key[0]}}) {
          Key t(key.begin() + 1, key.end());
          t.insert(t.end(), f.begin(), f.end());
          tails.push_back(t);
        }
        return tails;
      },
      width);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
