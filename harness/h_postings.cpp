// Posting lists written to a text index file and read back.
#ifndef PLAIN
#include "@REPO@/src/index/Index.Text.cpp"
#endif
#include "common.h"
#include "index/Index.h"
using namespace vh;

static std::string tmpFile() {
  static std::string f = std::string(getenv("VH_TMP") ? getenv("VH_TMP") : ".") + "/postings." + std::to_string(getpid());
  return f;
}
static void oneFile(Case& c, const std::vector<std::vector<Index::Posting>>& lists, const std::vector<bool>& skip) {
  Index index;
  index._currentoff_t = 0;
  std::vector<ContextListMetaData> metas;
  {
    ad_utility::File out(tmpFile().c_str(), "w");
    for (size_t i = 0; i < lists.size(); i++) metas.push_back(index.writePostings(out, lists[i], skip[i]));
    out.close();
  }
  index._textIndexFile.open(tmpFile().c_str(), "r");
  off_t end = 0;
  for (size_t i = 0; i < lists.size() && c.problems.empty(); i++) {
    const auto& l = lists[i];
    const auto& m = metas[i];
    std::string at = "list " + std::to_string(i) + ": ";
    c.check(m._nofElements == l.size(), at + "number of elements");
    c.check(m._startContextlist == end && m._startWordlist >= m._startContextlist && m._startScorelist >= m._startWordlist && m._lastByte + 1 >= m._startScorelist,
            at + "positions in the file");
    end = m._lastByte + 1;
    std::set<Id> words;
    for (auto& p : l) words.insert(std::get<1>(p));
    // hasMultipleWords() tells the reader whether there is a word list
    if (!l.empty()) c.check(m.hasMultipleWords() == (!skip[i] || words.size() > 1), at + "word list present");
    std::vector<Id> cids{7}, wids{7};
    std::vector<Score> scores{7};
    index.readGapComprList(m._nofElements, m._startContextlist, m._startWordlist - m._startContextlist, cids);
    bool withWords = m.hasMultipleWords() || (l.empty() && !skip[i]);
    if (withWords) index.readFreqComprList(m._nofElements, m._startWordlist, m._startScorelist - m._startWordlist, wids);
    index.readFreqComprList(m._nofElements, m._startScorelist, m._lastByte + 1 - m._startScorelist, scores);
    c.check(cids.size() == l.size() && scores.size() == l.size() && (!withWords || wids.size() == l.size()), at + "sizes read");
    for (size_t k = 0; k < l.size() && c.problems.empty(); k++) {
      std::string el = at + "element " + std::to_string(k) + " of " + std::to_string(l.size()) + ": ";
      c.check(cids[k] == std::get<0>(l[k]), el + "text " + std::to_string(cids[k]) + " instead of " + std::to_string(std::get<0>(l[k])));
      if (withWords) c.check(wids[k] == std::get<1>(l[k]), el + "word " + std::to_string(wids[k]) + " instead of " + std::to_string(std::get<1>(l[k])));
      c.check(scores[k] == std::get<2>(l[k]), el + "score " + std::to_string(scores[k]) + " instead of " + std::to_string(std::get<2>(l[k])));
    }
  }
  index._textIndexFile.close();
  unlink(tmpFile().c_str());
}
SUITE(postings, false, 5000, 40000, "files of up to 4 lists with up to 700 postings each, gaps below 2^50, up to 400 words and scores") {
  Rng& r = c.rng;
  std::vector<std::vector<Index::Posting>> lists;
  std::vector<bool> skip;
  for (size_t n = r.in(1, 4); n > 0; n--) {
    std::vector<Index::Posting> l;
    Id ctx = r.chance(50) ? 0 : r.below(1ull << r.below(50));
    size_t nw = r.chance(30) ? 1 : r.chance(70) ? r.in(2, 8) : r.in(2, 400), ns = r.chance(30) ? 1 : r.chance(70) ? r.in(2, 8) : r.in(2, 300);
    Id wordBase = r.chance(50) ? 0 : r.below(1ull << 62);
    int gapBits = r.below(20);
    size_t size = r.chance(15) ? 0 : r.chance(60) ? r.below(20) : r.below(700);
    std::string s;
    for (size_t k = 0; k < size; k++) {
      if (!r.chance(gapBits < 4 ? 80 : 20)) ctx += r.below(1ull << (r.chance(3) ? r.below(50) : gapBits));
      Id w = wordBase + r.below(nw) * (1 + (wordBase & 0xffff));
      Score sc = (r.below(ns) * 211 + 1) & 0xffff;
      l.emplace_back(ctx, w, sc);
      c.key(ctx), c.key(w), c.key(sc);
      if (k < 40) s += " (" + std::to_string(ctx) + "," + std::to_string(w) + "," + std::to_string(sc) + ")";
    }
    lists.push_back(l);
    skip.push_back(r.chance(50));
    c.log(std::to_string(size) + " postings" + (skip.back() ? " without the word if there is one:" : ":") + s + "\n");
  }
  oneFile(c, lists, skip);
}
int main(int argc, char** argv) { return vh::main(argc, argv); }
