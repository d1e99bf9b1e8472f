// Fills the vocabulary of the shared context with a small sorted word list.
#pragma once
#include "tables.h"

namespace vh {
inline int cmpWords(const std::string& a, const std::string& b, RdfsVocabulary::SortLevel l) {
  const auto& cc = context().index._vocab.getCaseComparator();
  return cc(a, b, l) ? -1 : cc(b, a, l) ? 1 : 0;
}
// Sorted list of distinct words; also becomes the vocabulary of the context.
inline std::vector<std::string> useWords(std::vector<std::string> w) {
  auto& v = context().index._vocab;
  std::sort(w.begin(), w.end(), [&](const std::string& a, const std::string& b) {
    return v.getCaseComparator()(a, b, RdfsVocabulary::SortLevel::TOTAL);
  });
  w.erase(std::unique(w.begin(), w.end()), w.end());
  v.clear();
  v.initializePrefixes(std::vector<std::string>{"\"a", "<ab"});
  for (const auto& x : w) v.push_back(x);
  return w;
}
inline std::string randomWord(Rng& r, bool literalOnly = false) {
  static const char* L = "abABc1";
  int kind = literalOnly ? 0 : r.below(4);
  std::string s;
  size_t n = r.below(4);
  for (size_t i = 0; i < n; i++) s += L[r.below(6)];
  if (kind == 3) return "<" + s + ">";
  static const char* lang[] = {"", "", "@en", "@de", "@en-us"};
  return "\"" + s + "\"" + (r.chance(60) ? lang[r.below(5)] : "");
}
}  // namespace vh
