// Vocabularies: prefix compression, lookup of words, ranges of prefixes.
#include <filesystem>
#include <set>

#include <nlohmann/json.hpp>
#include "common.h"
#ifndef PLAIN
#include "@REPO@/src/parser/RdfEscaping.cpp"
#include "@REPO@/src/index/ExternalVocabulary.cpp"
#include "@REPO@/src/index/Vocabulary.cpp"
#else
#include "index/Vocabulary.h"
#include "global/Constants.h"
#endif
using namespace vh;
using Level = LocaleManager::Level;

static std::string scratch() {
  const char* t = getenv("VH_TMP");
  std::string d = std::string(t ? t : ".") + "/vocab-" + std::to_string(getpid());
  std::filesystem::create_directories(d);
  return d;
}
static std::string visible(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    char b[8];
    if (ch < 32 || ch > 126) snprintf(b, 8, "[%02x]", ch);
    else snprintf(b, 8, "%c", ch);
    o += b;
  }
  return o;
}
static std::string visible(const std::vector<std::string>& v) {
  std::string o;
  for (auto& x : v) o += " " + visible(x);
  return o;
}
static std::string escaped(const std::string& s) {
  std::string o;
  for (char ch : s)
    if (ch == '\n') o += "\\n";
    else if (ch == '\\') o += "\\\\";
    else o += ch;
  return o;
}
static void writeLines(const std::string& f, const std::vector<std::string>& v) {
  std::ofstream out(f);
  for (auto& x : v) out << escaped(x) << '\n';
}
static std::string letters(Rng& r, size_t max, bool special) {
  // accents and a soft hyphen, in composed and decomposed form
  static const char* S[] = {"\n", "\\", " ", "\xc3\xa4", "a\xcc\x88", "\xc2\xad", "\xc3\xb6", "\xe2\x82\xac", "-"};
  std::string s;
  for (size_t n = r.below(max + 1); n > 0; n--) s += special && r.chance(15) ? std::string(S[r.below(9)]) : std::string(1, "abABc1"[r.below(6)]);
  return s;
}
static std::string term(Rng& r, bool special = true) {
  static const char* tail[] = {"\"", "\"", "\"@en", "\"@de", "\"@fr", "\"^^<t>"};
  if (r.chance(70)) return "\"" + letters(r, 4, special) + tail[r.below(6)];
  return "<" + letters(r, 4, false) + ">";
}
static bool external(const std::string& w) {
  auto at = w.rfind("\"@");
  return w[0] == '"' && at != std::string::npos && at > 0 && w.substr(at + 2) != "en";
}

SUITE(compression, false, 4000, 60000, "up to 130 prefixes of words, overlapping or empty, and words with any bytes; also through files") {
  Rng& r = c.rng;
  std::vector<std::string> words, prefixes;
  for (size_t n = r.in(1, 20); n > 0; n--) {
    std::string w = term(r);
    if (r.chance(10)) w += (char)r.in(128, 255);
    words.push_back(w);
  }
  size_t np = r.chance(80) ? r.below(12) : r.in(120, 130);
  for (size_t i = 0; i < np; i++) {
    const std::string& w = words[r.below(words.size())];
    prefixes.push_back(r.chance(np > 50 ? 30 : 80) ? w.substr(0, r.below(w.size() + 1)) : "<" + letters(r, 3, false));
  }
  c.log("prefixes:" + visible(prefixes) + "\nwords:" + visible(words) + "\n");
  for (auto& x : prefixes) c.key(hashStr(x));
  for (auto& x : words) c.key(hashStr(x));
  RdfsVocabulary v;
  v.initializePrefixes(prefixes);
  for (auto& w : words) {
#ifndef PLAIN
    auto comp = v.compressPrefix(w);
    std::string back = v.expandPrefix(comp);
    c.check(back == w, "compressing and expanding " + visible(w) + " gives " + visible(back));
    c.check(comp.toStringView().size() <= w.size() + 1, "compressed form of " + visible(w) + " is longer than the word with its mark");
#endif
    v.push_back(w);
    c.check(v.at(v.size() - 1) == w, "stored word " + visible(w) + " is read as " + visible(v.at(v.size() - 1)));
  }
  if (r.chance(30) && c.problems.empty()) {
    std::string d = scratch();
    writeLines(d + "/words", words);
    RdfsVocabulary::prefixCompressFile(d + "/words", d + "/compressed", prefixes);
    RdfsVocabulary u;
    u.initializePrefixes(prefixes);
    u.readFromFile(d + "/compressed");
    std::vector<std::string> got;
    for (size_t i = 0; i < u.size(); i++) got.push_back(u.at(i));
    c.check(got == words, "compressed file holds" + visible(got));
    std::filesystem::remove_all(d);
  }
}
static void externalWord(std::string& w) { w[0] = EXTERNALIZED_LITERALS_PREFIX_CHAR; }
SUITE(lookup, false, 2500, 40000, "vocabularies of up to 25 words with externalised languages; every word and up to 20 others are looked up") {
  Rng& r = c.rng;
  RdfsVocabulary v;
  auto less = [&](const std::string& a, const std::string& b) { return v.getCaseComparator()(a, b, Level::TOTAL); };
  std::set<std::string> in;
  std::vector<std::string> internal, ext, all;
  bool special = r.chance(50);
  for (size_t n = r.below(26); n > 0; n--) in.insert(term(r, special));
  for (auto& w : in) (external(w) ? ext : internal).push_back(w);
  if (r.chance(20)) ext.resize(std::min<size_t>(ext.size(), 1));
  for (auto& w : ext) externalWord(w);
  std::sort(internal.begin(), internal.end(), less);
  std::sort(ext.begin(), ext.end(), less);
  for (auto& w : ext) w[0] = '"';
  c.log("words:" + visible(internal) + "\nexternalised:" + visible(ext) + "\n");
  all = internal;
  all.insert(all.end(), ext.begin(), ext.end());
  for (auto& w : all) c.key(hashStr(w));
  c.trivial = all.empty();
  v.initializePrefixes(std::vector<std::string>{"\"a", "<ab", "\""});
  for (auto& w : internal) v.push_back(w);
  std::string d = scratch();
  writeLines(d + "/ext", ext);
  v.externalizeLiteralsFromTextFile(d + "/ext", d + "/ext.index");
  c.check(v.size() == internal.size() && v.getExternalVocab().size() == ext.size(), "number of words");
  std::vector<std::string> asked = all;
  for (int i = 0; i < 20; i++) {
    std::string w = all.empty() || r.chance(40) ? term(r, special) : all[r.below(all.size())];
    if (r.chance(50)) w.insert(1, letters(r, 1, special));
    asked.push_back(w);
  }
  // the smallest and largest possible words
  asked.push_back("\"\"@de"), asked.push_back("\"\""), asked.push_back("<zz>"), asked.push_back("\"zz\"@fr");
  for (size_t i = 0; i < asked.size() && c.problems.size() < 3; i++) {
    auto it = std::find(all.begin(), all.end(), asked[i]);
    Id id = 12345;
    bool found = v.getId(asked[i], &id);
    c.check(found == (it != all.end()), visible(asked[i]) + (found ? " is found although it is not there" : " is not found"));
    if (found && it != all.end()) {
      c.check(id == (Id)(it - all.begin()), visible(asked[i]) + " has number " + std::to_string(it - all.begin()) + " but " + std::to_string(id) + " is found");
      auto w = v.idToOptionalString(id);
      c.check(w && *w == asked[i], "number " + std::to_string(id) + " stands for " + (w ? visible(*w) : "nothing") + " instead of " + visible(asked[i]));
    }
    // positions of bounds
    if (external(asked[i])) continue;
    auto level = r.chance(50) ? Level::TOTAL : r.chance(50) ? Level::QUARTERNARY : Level::PRIMARY;
    size_t lb = 0, ub = 0;
    for (auto& w : internal) {
      lb += v.getCaseComparator()(w, asked[i], level);
      ub += !v.getCaseComparator()(asked[i], w, level);
    }
    c.check(v.lower_bound(asked[i], level) == lb, "lower bound of " + visible(asked[i]) + " is " + std::to_string(v.lower_bound(asked[i], level)) + " instead of " + std::to_string(lb));
    c.check(v.upper_bound(asked[i], level) == ub, "upper bound of " + visible(asked[i]) + " is " + std::to_string(v.upper_bound(asked[i], level)) + " instead of " + std::to_string(ub));
  }
  c.check(!v.idToOptionalString(ID_NO_VALUE), "no value stands for a word");
  std::filesystem::remove_all(d);
}
static std::string folded(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if ((unsigned char)s[i] == 0xc3 && (unsigned char)s[i + 1] == 0xa4) o += 'a', i++;
    else o += tolower(s[i]);
  }
  return o;
}
static std::string simple(Rng& r, size_t max) {
  std::string s;
  for (size_t n = r.below(max + 1); n > 0; n--) s += r.chance(8) ? "\xc3\xa4" : std::string(1, "abABczZ019"[r.below(10)]);
  return s;
}
SUITE(notExternalised, false, 1500, 20000, "vocabularies of up to 25 words built without externalising any; every word and up to 10 others are looked up") {
  Rng& r = c.rng;
  RdfsVocabulary v;
  std::set<std::string> in;
  for (size_t n = r.below(26); n > 0; n--) {
    std::string w = term(r);
    if (r.chance(10)) w = "\"" + std::string(r.in(1020, 1030), 'a' + r.below(2)) + "\"";
    in.insert(w);
  }
  std::vector<std::string> words(in.begin(), in.end());
  std::sort(words.begin(), words.end(), [&](auto& a, auto& b) { return v.getCaseComparator()(a, b, Level::TOTAL); });
  if (r.chance(50)) v.initializeExternalizePrefixes(nlohmann::json::array({"<a"}));
  if (r.chance(50)) v.initializeInternalizedLangs(nlohmann::json::array({"en"}));
  v.initializePrefixes(std::vector<std::string>{"\"a", "<ab", "\""});
  for (auto& w : words) v.push_back(w), c.key(hashStr(w));
  c.log("words:" + visible(words) + "\n");
  c.trivial = words.empty();
  for (size_t k = 0; k < words.size(); k++) {
    Id id = 12345;
    c.check(v.getId(words[k], &id) && id == k, "word " + visible(words[k]) + " not found at " + std::to_string(k));
    auto back = v.idToOptionalString(k);
    c.check(back && *back == words[k], "word with identifier " + std::to_string(k));
  }
  for (int i = 0; i < 10; i++) {
    std::string w = term(r);
    Id id;
    if (!in.count(w)) c.check(!v.getId(w, &id), "word " + visible(w) + " found, but it is not in the vocabulary");
  }
}
SUITE(prefixes, false, 4000, 60000, "vocabularies of up to 25 literals and IRIs of letters and digits, prefixes of up to 4 characters") {
  Rng& r = c.rng;
  RdfsVocabulary v;
  std::set<std::string> in;
  for (size_t n = r.below(26); n > 0; n--) in.insert(r.chance(70) ? "\"" + simple(r, 4) + (r.chance(30) ? "\"@en" : "\"") : "<" + simple(r, 4) + ">");
  std::vector<std::string> words(in.begin(), in.end());
  std::sort(words.begin(), words.end(), [&](auto& a, auto& b) { return v.getCaseComparator()(a, b, Level::TOTAL); });
  v.initializePrefixes(std::vector<std::string>{"\"a"});
  for (auto& w : words) v.push_back(w), c.key(hashStr(w));
  c.log("words:" + visible(words) + "\n");
  for (int i = 0; i < 6 && c.problems.size() < 3; i++) {
    std::string p = (r.chance(70) ? "\"" : "<") + simple(r, r.chance(20) ? 0 : 4);
    if (!words.empty() && r.chance(60)) {
      const std::string& w = words[r.below(words.size())];
      p = w.substr(0, r.in(1, w.find_last_of("\">")));
      if ((unsigned char)p.back() == 0xc3) p += "\xa4";
      if (p == "\"\"") p = "\"";
    }
    c.key(hashStr(p));
    auto [from, to] = v.prefix_range(p);
    std::string got, want;
    for (size_t k = 0; k < words.size(); k++) {
      bool starts = folded(words[k]).substr(0, folded(p).size()) == folded(p);
      // the quote at the end of a literal is not part of its text
      if (starts) want += " " + visible(words[k]);
      if (from <= k && k < to) got += " " + visible(words[k]);
    }
    c.check(got == want, "prefix " + visible(p) + " has the words" + got + " instead of" + want);
  }
  auto [from, to] = v.prefix_range("");
  c.check(from == 0 && to == words.size(), "the empty prefix does not have all words");
}
SUITE(textVocabulary, false, 3000, 40000, "vocabularies of up to 40 words of texts created from a set, written and read, with lookups and prefixes") {
  Rng& r = c.rng;
  bool special = r.chance(50);
  ad_utility::HashSet<std::string> set;
  std::set<std::string> in;
  for (size_t n = r.below(40); n > 0; n--) {
    std::string w = special ? letters(r, 4, true) : simple(r, 5);
    for (auto& ch : w) ch = ch == '\n' || ch == ' ' ? 'b' : ch >= 'A' && ch <= 'Z' ? tolower(ch) : ch;
    if (w.empty()) w = "a";
    in.insert(w), set.insert(w);
  }
  c.trivial = in.empty();
  for (auto& w : in) c.key(hashStr(w));
  c.log("words:" + visible(std::vector<std::string>(in.begin(), in.end())) + "\n");
  TextVocabulary v;
  v.createFromSet(set);
  if (r.chance(30)) {
    std::string d = scratch();
    v.writeToFile(d + "/words");
    TextVocabulary u;
    u.readFromFile(d + "/words");
    c.check(u.size() == v.size(), "words written " + std::to_string(v.size()) + " and read " + std::to_string(u.size()));
    for (size_t i = 0; i < u.size() && i < v.size(); i++) c.check(u.at(i) == v.at(i), "word " + std::to_string(i) + " read as " + visible(u.at(i)));
    std::filesystem::remove_all(d);
  }
  c.check(v.size() == in.size(), "number of words");
  std::set<Id> seen;
  for (auto& w : in) {
    Id id = 12345;
    bool found = v.getId(w, &id);
    c.check(found, visible(w) + " is not found");
    if (found) c.check(v.at(id) == w && seen.insert(id).second, "number of " + visible(w));
    if (c.problems.size() > 2) break;
  }
  for (int i = 0; i < 6; i++) {
    std::string w = special ? letters(r, 4, true) : simple(r, 5);
    Id id;
    if (!in.count(w)) c.check(!v.getId(w, &id), visible(w) + " is found although it is not there");
  }
  if (special) return;
  for (int i = 0; i < 6 && c.problems.size() < 3; i++) {
    std::string p = simple(r, 4);
    if (!in.empty() && r.chance(60)) p = v.at(r.below(v.size())), p = p.substr(0, r.in(1, p.size()));
    if (!p.empty() && (unsigned char)p.back() == 0xc3) p += "\xa4";
    if (p.empty()) continue;
    IdRange range;
    bool any = v.getIdRangeForFullTextPrefix(p + "*", &range), want = false;
    for (size_t k = 0; k < v.size(); k++) {
      bool starts = folded(v.at(k)).substr(0, folded(p).size()) == folded(p);
      want = want || starts;
      c.check(starts == (any && range._first <= k && k <= range._last), visible(v.at(k)) + (starts ? " is not in" : " is in") + " the range of the prefix " + visible(p));
    }
    c.check(any == want, "prefix " + visible(p));
  }
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
