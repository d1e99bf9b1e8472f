// Building small indexes in the scratch directory of the run.
#pragma once
#include <filesystem>
#include <set>

#include "rows.h"
#include "index/Index.h"
#include "parser/NTriplesParser.h"
#include "parser/TsvParser.h"
#include "parser/TurtleParser.h"
#include "util/Conversions.h"

namespace vh {
using Fact = std::array<std::string, 3>;

inline std::string indexScratch() {
  static std::string dir = [] {
    const char* t = getenv("VH_TMP");
    std::string d = std::string(t ? t : ".") + "/index-" + std::to_string(getpid());
    std::filesystem::create_directories(d);
    std::ofstream(d + "/cfg") << "disk=" << d << "/disk,64,syscall\n";
    setenv("STXXLCFG", (d + "/cfg").c_str(), 1);
    return d;
  }();
  return dir;
}

struct BuildOptions {
  size_t triplesPerPart = 100000;
  size_t batch = 1000;
  size_t maxPatterns = 1000000;
  int parser = 0;
  bool patterns = false, patternsLater = false, external = false, compress = true;
  std::string externalPrefix;
  std::string show() const {
    std::ostringstream o;
    o << "parts of " << triplesPerPart << " triples, batches of " << batch << ", at most " << maxPatterns << " patterns, parser " << parser
      << (patterns ? patternsLater ? ", patterns added later" : ", patterns" : "") << (external ? ", literals not in English on disk" : "")
      << (compress ? ", prefixes compressed" : "") << (externalPrefix.empty() ? "" : ", words with prefix " + externalPrefix + " on disk") << "\n";
    return o.str();
  }
};
inline std::string languageOf(const std::string& w) {
  if (w.empty() || w[0] != '"') return "";
  size_t p = w.rfind("\"@");
  return p == std::string::npos ? "" : w.substr(p + 2);
}
// The triples of the index: the given ones, with numbers as words of the index,
// and those added for languages.
inline std::set<Fact> allFacts(const std::vector<Fact>& facts) {
  std::set<Fact> r;
  for (Fact f : facts) {
    if (f[2].find("\"^^<") != std::string::npos) f[2] = ad_utility::convertValueLiteralToIndexWord(f[2]);
    r.insert(f);
    std::string l = languageOf(f[2]);
    if (l.empty()) continue;
    r.insert({f[0], "@" + l + "@" + f[1], f[2]});
    r.insert({f[2], LANGUAGE_PREDICATE, ad_utility::convertLangtagToEntityUri(l)});
  }
  return r;
}
inline void buildIndex(const std::vector<Fact>& facts, const BuildOptions& o, Index& index) {
  std::string base = indexScratch() + "/i";
  for (auto& e : std::filesystem::directory_iterator(indexScratch())) {
    std::string n = e.path().filename().string();
    if (n != "cfg" && n != "disk") std::filesystem::remove(e.path());
  }
  {
    std::ofstream s(base + ".settings");
    s << "{\"num-triples-per-partial-vocab\": " << o.triplesPerPart << ", \"parser-batch-size\": " << o.batch;
    if (o.external) s << ", \"languages-internal\": [\"en\"]";
    if (!o.externalPrefix.empty()) s << ", \"prefixes-external\": [\"" << o.externalPrefix << "\"]";
    if (o.parser > 2) s << ", \"ascii-prefixes-only\": " << (o.parser == 4 ? "true" : "false");
    s << "}";
  }
  std::string input = base + ".input";
  {
    std::ofstream f(input);
    for (const Fact& t : facts) f << t[0] << (o.parser == 0 ? "\t" : " ") << t[1] << (o.parser == 0 ? "\t" : " ") << t[2] << (o.parser == 0 ? "\t.\n" : " .\n");
  }
  {
    Index b;
    b.setOnDiskBase(base);
    b.setSettingsFile(base + ".settings");
    b.setUsePatterns(o.patterns && !o.patternsLater);
    b._maxNumPatterns = o.maxPatterns;
    b.setPrefixCompression(o.compress);
    if (o.parser == 0) b.createFromFile<TsvParser>(input);
    else if (o.parser == 1) b.createFromFile<NTriplesParser>(input);
    else if (o.parser == 2) b.createFromFile<TurtleStreamParser<Tokenizer>>(input);
    else b.createFromFile<TurtleParserDummy>(input);
  }
  index.setUsePatterns(o.patterns && !o.patternsLater);
  index._maxNumPatterns = o.maxPatterns;
  index.createFromOnDiskIndex(base);
  if (o.patterns && o.patternsLater) {
    index.addPatternsToExistingIndex();
    index.setUsePatterns(true);
  }
}
// Identifiers of all words of the facts; problems are reported to the case.
inline std::map<std::string, Id> identifiers(Case& c, const Index& index, const std::set<Fact>& facts) {
  std::map<std::string, Id> ids;
  std::map<Id, std::string> back;
  for (const Fact& f : facts)
    for (const std::string& w : f) {
      if (ids.count(w)) continue;
      Id id;
      if (!index.getVocab().getId(w, &id)) {
        c.fail("the word " + w + " is not in the vocabulary");
        id = 1000000 + ids.size();
      } else if (back.count(id)) {
        c.fail("the words " + w + " and " + back[id] + " have the same identifier " + std::to_string(id));
      } else {
        auto s = index.idToOptionalString(id);
        c.check(s && *s == w, "the word of the identifier of " + w + " is " + (s ? *s : "missing"));
      }
      ids[w] = id;
      back[id] = w;
    }
  return ids;
}
}  // namespace vh
