// Merging partial vocabularies, against a sorted set of words.
#include <filesystem>
#include <map>
#include <set>

#include "common.h"
#ifndef PLAIN
#include "@REPO@/src/parser/RdfEscaping.cpp"
#endif
#include "index/VocabularyGenerator.h"
using namespace vh;

static std::string scratch() {
  const char* t = getenv("VH_TMP");
  return std::string(t ? t : ".") + "/merge-" + std::to_string(getpid());
}
static const TripleComponentComparator& comparator() {
  static TripleComponentComparator c("en", "US", false);
  return c;
}
static std::string visible(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126) snprintf(b, 8, "[%02x]", ch);
    else snprintf(b, 8, "%c", ch);
    o += b;
  }
  return o;
}
static std::string content(Rng& r) {
  std::string s;
  for (size_t n = r.below(4); n > 0; n--) s += r.chance(8) ? "\\\n \xc3\xa4"[r.below(3)] : "abABnc1"[r.below(7)];
  return s;
}
static std::string word(Rng& r, bool external) {
  static const char* tail[] = {"\"", "\"", "\"@en", "\"@de", "\"^^<t>"};
  int k = r.below(external ? 10 : 7);
  if (k < 4) return "\"" + content(r) + tail[r.below(5)];
  if (k < 6) return "<" + content(r) + ">";
  if (k == 6) return std::string("@") + (r.chance(50) ? "en" : "de") + "@<" + content(r) + ">";
  if (k < 9) return EXTERNALIZED_LITERALS_PREFIX + content(r) + tail[r.below(5)];
  return EXTERNALIZED_ENTITIES_PREFIX + content(r) + ">";
}
static std::string plain(std::string w) {
  if (w[0] == EXTERNALIZED_LITERALS_PREFIX_CHAR) w[0] = '"';
  if (w[0] == EXTERNALIZED_ENTITIES_PREFIX_CHAR) w[0] = '<';
  return w;
}
static bool isExternal(const std::string& w) { return plain(w) != w; }
static std::vector<std::string> lines(const std::string& f) {
  std::ifstream in(f);
  std::vector<std::string> res;
  for (std::string l; std::getline(in, l);) {
    // undo the escaping by hand
    std::string w;
    for (size_t i = 0; i < l.size(); i++)
      if (l[i] == '\\' && i + 1 < l.size()) w += l[++i] == 'n' ? '\n' : l[i];
      else w += l[i];
    res.push_back(w);
  }
  return res;
}
template <typename Less>
static void merge(Case& c, const std::vector<std::vector<std::string>>& raw, size_t batch, Less less) {
  Rng& r = c.rng;
  std::string dir = scratch();
  std::filesystem::create_directories(dir);
  std::string base = dir + "/v";
  std::set<std::string, Less> all(less);
  std::vector<std::map<Id, std::string>> local;
  for (size_t f = 0; f < raw.size(); f++) {
    std::vector<std::string> p(raw[f]);
    std::sort(p.begin(), p.end(), less);
    p.erase(std::unique(p.begin(), p.end()), p.end());
    local.emplace_back();
    ItemVec items;
    Id id = r.below(3);
    for (auto& w : p) {
      all.insert(w);
      local[f][id] = w;
      items.emplace_back(w, IdAndSplitVal{id, {}});
      id += 1 + (r.chance(10) ? r.below(4) : 0);
      c.key(hashStr(w));
    }
    c.key(f);
    std::string t = "part:";
    for (auto& [i, w] : local[f]) t += " " + std::to_string(i) + "=" + visible(w);
    c.log(t + "\n");
    writePartialVocabularyToFile(items, base + PARTIAL_VOCAB_FILE_NAME + std::to_string(f));
  }
  c.log("batches of " + std::to_string(batch) + "\n");
  VocabularyMerger m;
  const_cast<size_t&>(m._bufferSize) = batch;
  auto res = m.mergeVocabulary(base, raw.size(), less);
  auto words = lines(base + ".vocabulary"), ext = lines(base + EXTERNAL_LITS_TEXT_FILE_NAME);
  std::vector<std::string> eWords, eExt, order;
  for (auto& w : all) (isExternal(w) ? eExt : eWords).push_back(plain(w));
  for (auto& w : all) order.push_back(w);
  auto text = [](const std::vector<std::string>& v) {
    std::string o;
    for (auto& x : v) o += " " + visible(x);
    return o;
  };
  c.check(words == eWords, "merged words:" + text(words) + " expected:" + text(eWords));
  c.check(ext == eExt, "externalised words:" + text(ext) + " expected:" + text(eExt));
  c.check(res._numWordsTotal == all.size(), std::to_string(res._numWordsTotal) + " words counted instead of " + std::to_string(all.size()));
  for (size_t f = 0; f < raw.size(); f++) {
    auto map = IdMapFromPartialIdMapFile(base + PARTIAL_MMAP_IDS + std::to_string(f));
    c.check(map.size() == local[f].size(), "part " + std::to_string(f) + ": " + std::to_string(map.size()) + " identifiers mapped instead of " + std::to_string(local[f].size()));
    for (auto& [id, w] : local[f]) {
      size_t expected = std::lower_bound(order.begin(), order.end(), w, less) - order.begin();
      auto it = map.find(id);
      if (it == map.end()) c.fail("no identifier for " + visible(w) + " of part " + std::to_string(f));
      else c.check(it->second == expected, visible(w) + " of part " + std::to_string(f) + " gets " + std::to_string(it->second) + " instead of " + std::to_string(expected));
      if (c.problems.size() > 3) break;
    }
  }
  std::filesystem::remove_all(dir);
}
static std::vector<std::vector<std::string>> parts(Rng& r, bool external) {
  std::vector<std::vector<std::string>> raw(r.in(1, 5));
  std::vector<std::string> pool;
  for (size_t n = r.in(1, 30); n > 0; n--) pool.push_back(word(r, external));
  for (auto& p : raw)
    if (!r.chance(8))
      for (size_t n = r.below(25); n > 0; n--) p.push_back(r.chance(80) ? pool[r.below(pool.size())] : word(r, external));
  return raw;
}
struct ByBytes {
  bool operator()(const std::string& a, const std::string& b) const { return a < b; }
};
struct ByLocale {
  bool operator()(const std::string& a, const std::string& b) const { return comparator()(a, b, TripleComponentComparator::Level::TOTAL); }
};
static size_t batch(Rng& r) { return r.chance(60) ? r.in(5, 12) : r.chance(50) ? r.in(5, 60) : 10000000; }
SUITE(byteOrder, false, 1500, 20000, "up to five parts of up to 25 words in byte order, batches of 5 to 60 words or all at once") {
  auto raw = parts(c.rng, true);
  merge(c, raw, batch(c.rng), ByBytes());
}
SUITE(localeOrder, false, 1500, 20000, "the same in the order of the vocabulary") {
  auto raw = parts(c.rng, true);
  merge(c, raw, batch(c.rng), ByLocale());
}
SUITE(localNumbers, false, 6000, 60000, "renumbering of up to 30 sorted words with repetitions") {
  Rng& r = c.rng;
  std::vector<std::string> w;
  for (size_t n = r.below(10); n > 0; n--) w.push_back(word(r, true));
  for (size_t n = w.size() ? r.below(20) : 0; n > 0; n--) w.push_back(w[r.below(w.size())]);
  std::sort(w.begin(), w.end());
  ItemVec items;
  std::vector<Id> ids;
  for (size_t i = 0; i < w.size(); i++) ids.push_back(7 * i + 3);
  for (size_t i = ids.size(); i > 1; i--) std::swap(ids[i - 1], ids[r.below(i)]);
  std::string t;
  for (size_t i = 0; i < w.size(); i++) items.emplace_back(w[i], IdAndSplitVal{ids[i], {}}), t += " " + std::to_string(ids[i]) + "=" + visible(w[i]), c.key(hashStr(w[i]) + ids[i]);
  c.log(t + "\n");
  auto map = createInternalMapping(&items);
  c.check(map.size() == w.size(), "wrong number of identifiers mapped");
  size_t next = 0;
  for (size_t i = 0; i < w.size() && c.problems.size() < 3; i++) {
    if (i && w[i] != w[i - 1]) next++;
    c.check(items[i].first == w[i] && items[i].second.m_id == next, visible(w[i]) + " at position " + std::to_string(i) + " gets number " + std::to_string(items[i].second.m_id) + " instead of " + std::to_string(next));
    c.check(map.count(ids[i]) && map[ids[i]] == next, "identifier " + std::to_string(ids[i]) + " is mapped to " + std::to_string(map[ids[i]]) + " instead of " + std::to_string(next));
  }
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
