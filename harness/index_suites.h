// Suites over indexes; ONLY_PATTERNS selects those about stored predicates.
#pragma once
#include "indexing.h"
#include "engine/HasPredicateScan.h"
using namespace vh;

static std::string showFacts(const std::vector<Fact>& v) {
  std::string o;
  for (auto& f : v) o += f[0] + " " + f[1] + " " + f[2] + " .\n";
  return o;
}
static std::vector<Fact> randomFacts(Rng& r, bool values) {
  size_t nS = r.in(1, 8), nP = r.in(1, 5), nO = r.in(1, 8), n = r.chance(20) ? r.in(1, 3) : r.in(1, 60);
  auto iri = [&](const char* k, size_t i) { return std::string("<") + k + std::to_string(i) + ">"; };
  static const char* lang[] = {"", "@en", "@de", "@fr"};
  std::vector<Fact> v;
  for (size_t i = 0; i < n; i++) {
    std::string o;
    size_t k = r.below(nO);
    if (r.chance(40)) o = iri("x", k);
    else if (values && r.chance(20)) o = "\"w" + std::to_string(k) + "\"" + lang[r.below(4)];
    else if (values && r.chance(15)) o = iri("s", k);
    else if (values && r.chance(15)) o = "\"" + std::to_string(int(k) * 7 - 20) + "\"^^<http://www.w3.org/2001/XMLSchema#int>";
    else if (values && r.chance(10)) o = "\"" + std::to_string(k + 1) + ".25\"^^<http://www.w3.org/2001/XMLSchema#float>";
    else o = "\"t" + std::to_string(k) + "\"" + (values ? lang[r.below(4)] : "");
    v.push_back({r.chance(10) ? iri("x", r.below(nO)) : iri("s", r.below(nS)), r.chance(5) ? iri("s", r.below(nS)) : iri("p", r.below(nP)), o});
    if (r.chance(10)) v.push_back(v[r.below(v.size())]);
  }
  return v;
}
static BuildOptions randomOptions(Rng& r) {
  BuildOptions o;
  if (r.chance(60)) o.triplesPerPart = r.in(1, 30);
  o.batch = r.chance(50) ? r.in(1, 10) : 1000;
  o.parser = r.below(5);
  o.external = r.chance(40);
  o.compress = r.chance(70);
  static const char* prefixes[] = {"<x", "<s1", "<p2", "<"};
  if (r.chance(25)) o.externalPrefix = prefixes[r.below(4)];
  return o;
}

#ifndef ONLY_PATTERNS
// ---------------------------------------------------------------- order
template <typename S>
static void order(Case& c, const char* name, std::array<int, 3> o, const array<Id, 3>& a, const array<Id, 3>& b) {
  S s;
  auto t = [&](const array<Id, 3>& x) { return std::make_tuple(x[o[0]], x[o[1]], x[o[2]]); };
  auto show = [](const array<Id, 3>& x) { return std::to_string(x[0]) + " " + std::to_string(x[1]) + " " + std::to_string(x[2]); };
  c.check(s(a, b) == (t(a) < t(b)), std::string(name) + ": (" + show(a) + ") before (" + show(b) + ") is " + (s(a, b) ? "true" : "false"));
}
static void orders(Case& c, const array<Id, 3>& a, const array<Id, 3>& b) {
  order<SortBySPO>(c, "SPO", {0, 1, 2}, a, b);
  order<SortBySOP>(c, "SOP", {0, 2, 1}, a, b);
  order<SortByPSO>(c, "PSO", {1, 0, 2}, a, b);
  order<SortByPOS>(c, "POS", {1, 2, 0}, a, b);
  order<SortByOSP>(c, "OSP", {2, 0, 1}, a, b);
  order<SortByOPS>(c, "OPS", {2, 1, 0}, a, b);
}
SUITE(order, true, 729, 729, "all pairs of triples of identifiers below 3, the six orders") {
  uint64_t n = c.number;
  array<Id, 3> a, b;
  for (int i = 0; i < 3; i++) a[i] = n % 3, n /= 3;
  for (int i = 0; i < 3; i++) b[i] = n % 3, n /= 3;
  c.key(c.number);
  orders(c, a, b);
}
SUITE(orderLarge, false, 3000, 100000, "random pairs of triples of any identifiers, often neighbours or differing in high bits") {
  auto id = [&]() -> Id {
    switch (c.rng.below(4)) {
      case 0: return c.rng.below(4);
      case 1: return (uint64_t(1) << c.rng.in(31, 63)) + c.rng.below(2);
      case 2: return std::numeric_limits<Id>::max() - c.rng.below(3);
      default: return c.rng.next();
    }
  };
  array<Id, 3> a{id(), id(), id()}, b = a;
  for (int i = 0; i < 3; i++)
    if (c.rng.chance(40)) b[i] = c.rng.chance(50) ? id() : a[i] + 1;
  for (int i = 0; i < 3; i++) c.key(a[i]), c.key(b[i]);
  orders(c, a, b);
}

// ---------------------------------------------------------------- relation descriptions
static FullRelationMetaData randomHeader(Rng& r, Id id, double& m1, double& m2, uint64_t& n, bool& fun, bool& blocks, off_t& start) {
  n = r.chance(30) ? r.below(1000) : r.next() >> r.in(24, 60);
  auto mult = [&]() { return r.chance(40) ? 1.0 : r.chance(60) ? 1 + r.below(100000) / 7.0 : std::ldexp(1.0 + r.below(8) / 8.0, r.below(300)); };
  m1 = mult(), m2 = mult();
  fun = r.chance(50), blocks = r.chance(50);
  start = r.next() >> r.in(8, 60);
  return FullRelationMetaData(id, start, n, m1, m2, fun, blocks);
}
static void checkHeader(Case& c, const FullRelationMetaData& m, Id id, double m1, double m2, uint64_t n, bool fun, bool blocks, off_t start, const char* when) {
  auto lg = [](double m) { int k = 0; while (k < 255 && std::ldexp(1.0, k + 1) <= m) k++; return k; };
  std::string w = std::string(when) + ": ";
  c.check(m._relId == id, w + "identifier " + std::to_string(m._relId) + " instead of " + std::to_string(id));
  c.check(m._startFullIndex == start, w + "start " + std::to_string(m._startFullIndex) + " instead of " + std::to_string(start));
  c.check(m.getNofElements() == n, w + "number of elements " + std::to_string(m.getNofElements()) + " instead of " + std::to_string(n));
  c.check(m.isFunctional() == fun, w + "functional is " + std::to_string(m.isFunctional()));
  c.check(m.hasBlocks() == blocks, w + "blocks is " + std::to_string(m.hasBlocks()));
  c.check(m.getCol1LogMultiplicity() == lg(m1), w + "first multiplicity 2^" + std::to_string(m.getCol1LogMultiplicity()) + " for " + std::to_string(m1));
  c.check(m.getCol2LogMultiplicity() == lg(m2), w + "second multiplicity 2^" + std::to_string(m.getCol2LogMultiplicity()) + " for " + std::to_string(m2));
  c.check(m.getNofBytesForFulltextIndex() == n * 16, w + "number of bytes " + std::to_string(m.getNofBytesForFulltextIndex()));
  if (blocks) c.check(m.getStartOfLhs() == start + (off_t)(n * 16), w + "start of the left-hand list " + std::to_string(m.getStartOfLhs()));
}
SUITE(headers, false, 4000, 100000, "descriptions of relations with up to 2^40 elements, any flags and multiplicities; changed and written to a buffer") {
  double m1, m2;
  uint64_t n;
  bool fun, blocks;
  off_t start;
  Id id = c.rng.chance(50) ? c.rng.below(100) : c.rng.next();
  FullRelationMetaData m = randomHeader(c.rng, id, m1, m2, n, fun, blocks, start);
  c.key(n), c.key(id), c.key(start), c.key(fun * 2 + blocks);
  c.log("relation ").log(id).log(", ").log(n).log(" elements, multiplicities ").log(m1).log(" ").log(m2).log(fun ? ", functional" : "").log(blocks ? ", blocks" : "").log(", start ").log(start).log("\n");
  checkHeader(c, m, id, m1, m2, n, fun, blocks, start, "after construction");
  for (int k = c.rng.below(4); k > 0; k--) {
    switch (c.rng.below(4)) {
      case 0: m.setIsFunctional(fun = c.rng.chance(50)); break;
      case 1: m.setHasBlocks(blocks = c.rng.chance(50)); break;
      case 2: { int e = c.rng.below(256); m1 = std::ldexp(1.0, e); m.setCol1LogMultiplicity(e); break; }
      default: { int e = c.rng.below(256); m2 = std::ldexp(1.0, e); m.setCol2LogMultiplicity(e); break; }
    }
  }
  checkHeader(c, m, id, m1, m2, n, fun, blocks, start, "after changes");
  BlockBasedRelationMetaData b;
  b._startRhs = c.rng.next() >> 8, b._offsetAfter = c.rng.next() >> 8;
  for (size_t k = c.rng.below(6); k > 0; k--) b._blocks.emplace_back(c.rng.next(), c.rng.next() >> 8);
  std::string f = indexScratch() + "/header";
  {
    ad_utility::File out(f, "w");
    out << m << b;
    out.close();
  }
  c.check(std::filesystem::file_size(f) == m.bytesRequired() + b.bytesRequired(), "number of bytes written and announced differ");
  std::vector<unsigned char> buf(std::filesystem::file_size(f));
  {
    std::ifstream in(f, std::ios::binary);
    in.read((char*)buf.data(), buf.size());
  }
  FullRelationMetaData m2nd;
  m2nd.createFromByteBuffer(buf.data());
  checkHeader(c, m2nd, id, m1, m2, n, fun, blocks, start, "after reading back");
  c.check(m2nd == m && !(m2nd != m), "the description read back is not equal");
  BlockBasedRelationMetaData b2;
  b2.createFromByteBuffer(buf.data() + m.bytesRequired());
  bool same = b2._startRhs == b._startRhs && b2._offsetAfter == b._offsetAfter && b2._blocks.size() == b._blocks.size();
  for (size_t i = 0; same && i < b._blocks.size(); i++) same = b2._blocks[i]._firstLhs == b._blocks[i]._firstLhs && b2._blocks[i]._startOffset == b._blocks[i]._startOffset;
  c.check(same, "the list of blocks read back differs");
}

// All descriptions of an index, kept by a map or in a file.
template <typename Meta, typename ReadMeta>
static void metaFile(Case& c) {
  constexpr bool mmap = Meta::_isMmapBased;
  std::string f = indexScratch() + "/meta";
  size_t ids = c.rng.in(1, 40);
  std::map<Id, std::pair<FullRelationMetaData, BlockBasedRelationMetaData>> want;
  off_t after = 0;
  std::string name = std::string(c.rng.below(10), 'n');
  Meta m;
  if constexpr (mmap) m.setup(ids, FullRelationMetaData::empty, f + ".mmap");
  m.setName(name);
  size_t elements = 0;
  for (Id id = 0; id < ids; id++) {
    if (c.rng.chance(40)) continue;
    size_t n = c.rng.in(1, 50);
    bool blocks = c.rng.chance(40);
    FullRelationMetaData r(id, after, n, 1 + c.rng.below(9), 1 + c.rng.below(9), c.rng.chance(50), blocks);
    BlockBasedRelationMetaData b;
    after += n * 16;
    if (blocks) {
      for (size_t k = c.rng.in(1, 3); k > 0; k--) b._blocks.emplace_back(c.rng.next(), after), after += 16;
      b._startRhs = after;
      b._offsetAfter = after += n * 8;
    }
    m.add(r, b);
    want[id] = {r, b};
    elements += n;
    c.key(id), c.key(n), c.key(blocks);
    c.check(m.getOffsetAfter() == after, "offset after the last relation is " + std::to_string(m.getOffsetAfter()) + " instead of " + std::to_string(after));
  }
  m.calculateExpensiveStatistics();
  {
    ad_utility::File out(f, "w");
    std::string junk(c.rng.below(50), 'x');
    out.write(junk.data(), junk.size());
    m.appendToFile(&out);
    out.close();
  }
  auto verify = [&](const auto& x, const std::string& when) {
    c.check(x.getNofTriples() == elements, when + ": number of elements " + std::to_string(x.getNofTriples()) + " instead of " + std::to_string(elements));
    c.check(x.getNofDistinctC1() == want.size(), when + ": number of relations " + std::to_string(x.getNofDistinctC1()) + " instead of " + std::to_string(want.size()));
    c.check(x.getName() == name, when + ": name " + x.getName());
    c.check(x.getOffsetAfter() == after, when + ": offset after all relations");
    for (Id i = 0; i < ids + 4; i++) {
      Id id = i == ids + 3 ? ID_NO_VALUE : i;
      bool e = x.relationExists(id);
      if (e != (want.count(id) > 0)) { c.fail(when + ": relation " + std::to_string(id) + (e ? " exists" : " is missing")); continue; }
      if (!e) continue;
      auto r = x.getRmd(id);
      c.check(r._rmdPairs == want[id].first, when + ": description of relation " + std::to_string(id) + " differs");
      if (!want[id].first.hasBlocks()) continue;
      const auto& b = want[id].second;
      bool same = r._rmdBlocks && r._rmdBlocks->_startRhs == b._startRhs && r._rmdBlocks->_offsetAfter == b._offsetAfter && r._rmdBlocks->_blocks.size() == b._blocks.size();
      for (size_t i = 0; same && i < b._blocks.size(); i++) same = r._rmdBlocks->_blocks[i]._firstLhs == b._blocks[i]._firstLhs && r._rmdBlocks->_blocks[i]._startOffset == b._blocks[i]._startOffset;
      c.check(same, when + ": blocks of relation " + std::to_string(id) + " differ");
    }
    size_t seen = 0;
    for (auto it = x.data().cbegin(); it != x.data().cend(); ++it) {
      auto el = *it;
      c.check(want.count(el.first) && want[el.first].first == el.second, when + ": walking over the relations gives a wrong description");
      seen++;
    }
    c.check(seen == want.size(), when + ": walking over the relations gives " + std::to_string(seen) + " of " + std::to_string(want.size()));
  };
  verify(m, "before writing");
  if constexpr (mmap) {
    Meta moved = std::move(m);  // flushes on destruction
  }
  ReadMeta back;
  if constexpr (mmap) back.setup(f + ".mmap", ad_utility::ReuseTag());
  back.readFromFile(f);
  verify(back, "after reading back");
}
SUITE(metaMap, false, 1500, 20000, "up to 40 relations with and without blocks, kept in a map, written and read") { metaFile<IndexMetaDataHmap, IndexMetaDataHmap>(c); }
SUITE(metaDense, false, 1000, 20000, "the same, kept in a file") { metaFile<IndexMetaDataMmap, IndexMetaDataMmapView>(c); }

// ---------------------------------------------------------------- block lookup
SUITE(blocks, false, 6000, 100000, "up to 12 blocks with any first keys; keys of blocks, their neighbours and others") {
  BlockBasedRelationMetaData b;
  size_t n = c.rng.in(1, 12);
  Id lhs = c.rng.below(5);
  off_t off = c.rng.below(1000) * 16;
  bool high = c.rng.chance(20);
  for (size_t i = 0; i < n; i++) {
    b._blocks.emplace_back(lhs, off);
    lhs += high ? c.rng.next() >> 8 : c.rng.in(1, 4);
    off += c.rng.in(1, 5) * 16;
  }
  b._startRhs = off;
  b._offsetAfter = off + c.rng.below(100) * 8;
  auto end = [&](size_t i) { return i + 1 < n ? b._blocks[i + 1]._startOffset : b._startRhs; };
  for (int q = 0; q < 12; q++) {
    Id k = c.rng.chance(70) ? b._blocks[c.rng.below(n)]._firstLhs + c.rng.below(3) - 1 : c.rng.next();
    c.key(k);
    auto got = b.getBlockStartAndNofBytesForLhs(k);
    auto follow = b.getFollowBlockForLhs(k);
    std::string key = "key " + std::to_string(k);
    if (k < b._blocks[0]._firstLhs) {
      c.check(got.second == 0, key + " before all blocks gives " + std::to_string(got.second) + " bytes");
      continue;
    }
    size_t i = n - 1;
    while (b._blocks[i]._firstLhs > k) i--;
    size_t j = std::min(i + 1, n - 1);
    c.log(key).log(" block ").log(i).log("\n");
    c.check(got.first == b._blocks[i]._startOffset && (off_t)got.second == end(i) - b._blocks[i]._startOffset,
            key + " of block " + std::to_string(i) + " gives offset " + std::to_string(got.first) + " and " + std::to_string(got.second) + " bytes");
    c.check(follow.first == b._blocks[j]._startOffset && (off_t)follow.second == end(j) - b._blocks[j]._startOffset,
            key + " of block " + std::to_string(i) + " gives follow offset " + std::to_string(follow.first) + " and " + std::to_string(follow.second) + " bytes");
  }
}

// ---------------------------------------------------------------- large relations
// Words that are in the order of their numbers.
static const std::string& numbered(size_t i) {
  static std::vector<std::string> v = [] {
    std::vector<std::string> r;
    for (size_t i = 0; i < 60000; i++) {
      char b[20];
      snprintf(b, 20, "<%06zu>", i);
      r.push_back(b);
    }
    return r;
  }();
  return v[i];
}
static Index& numberedIndex() {
  static Index* x = [] {
    auto* i = new Index();
    i->_vocab.initializePrefixes(std::vector<std::string>{"<00"});
    for (size_t k = 0; k < 60000; k++) i->_vocab.push_back(numbered(k));
    return i;
  }();
  return *x;
}
SUITE(largeRelations, false, 24, 300, "relations of up to 50000 pairs around the size from which blocks are kept, and around the size of a block, with one or several values per key") {
  Index& index = numberedIndex();
  Id first;
  if (!index.getVocab().getId(numbered(777), &first) || first != 777) return c.fail("words and identifiers do not match");
  std::string f = indexScratch() + "/large";
  Permutation::PermutationImpl<SortByPSO, IndexMetaDataHmap> p{SortByPSO(), "PSO", ".pso", {1, 0, 2}};
  std::map<Id, std::map<Id, std::vector<Id>>> want;
  {
    ad_utility::File out(f, "w");
    off_t off = 0;
    for (Id rel = 5; rel < 5 + c.rng.in(2, 3); rel++) {
      ad_utility::BufferedVector<array<Id, 2>> data(2 << 20, f + ".buf");
      size_t distinct = 0;
      bool functional = true;
      size_t target;  // number of keys
      switch (c.rng.below(4)) {
        case 0: target = 10000 * c.rng.in(1, 3) + c.rng.below(3) - 1; break;
        case 1: target = c.rng.in(1, 40); break;
        default: target = c.rng.in(9000, 31000);
      }
      size_t total = target * c.rng.in(1, 3) + c.rng.below(200);
      if (c.rng.chance(40)) total = 20000 + c.rng.below(3) - 1;
      if (total > 50000) total = 50000;
      if (c.rng.chance(35)) target = std::min<size_t>(target * c.rng.in(1, 2), 29000), total = target;  // one value per key
      if (total < target) total = target;
      size_t gap = c.rng.in(1, 2);
      for (Id k = c.rng.below(20); distinct < target; k += c.rng.in(1, gap)) {
        size_t rest = total - data.size(), keys = target - distinct;
        size_t m = distinct + 1 == target ? std::max<size_t>(1, rest) : c.rng.chance(c.number % 2 ? 100 : 3) ? std::min<size_t>(1 + c.rng.below(2 * rest / keys), rest - keys + 1) : 1;
        Id v = c.rng.below(30);
        if (m > 1) functional = false;
        for (size_t i = 0; i < m; i++, v += c.rng.in(1, 3)) data.push_back({k, v}), want[rel][k].push_back(v);
        distinct++;
      }
      c.log("relation ").log(rel).log(": ").log(data.size()).log(" pairs, ").log(distinct).log(" keys\n");
      c.key(data.size()), c.key(distinct);
      auto md = index.writeRel(out, off, rel, data, distinct, functional);
      p._meta.add(md.first, md.second);
      off = p._meta.getOffsetAfter();
    }
    out.close();
    c.check((off_t)std::filesystem::file_size(f) == off, "the relations end at " + std::to_string(off) + " in a file of " + std::to_string(std::filesystem::file_size(f)) + " bytes");
  }
  p._file.open(f, "r");
  for (auto& [rel, rows] : want) {
    IdTable full(2, alloc());
    index.scan(rel, &full, p);
    Table w;
    for (auto& [k, vs] : rows)
      for (Id v : vs) w.push_back({k, v});
    c.check(fromIdTable(full) == w, "scan of relation " + std::to_string(rel) + " gives " + std::to_string(full.size()) + " of " + std::to_string(w.size()) + " pairs");
    std::vector<Id> keys;
    for (auto& [k, vs] : rows) keys.push_back(k);
    std::set<Id> ask;
    Id last = keys.back();
    for (Id k = 0; k < 4; k++) ask.insert(last + k), ask.insert(k), ask.insert(keys[0] + k);
    for (size_t b = 10000; b < keys.size() + 3; b += 10000)
      for (size_t d = 0; d < 6; d++)
        if (b + d - 3 < keys.size()) ask.insert(keys[b + d - 3]), ask.insert(keys[b + d - 3] + 1);
    for (int i = 0; i < 60; i++) ask.insert(c.rng.below(last + 10));
    for (Id k : ask) {
      if (k >= 60000) continue;
      IdTable t(1, alloc());
      index.scan(numbered(rel), numbered(k), &t, p);
      std::vector<Id> got;
      for (size_t i = 0; i < t.size(); i++) got.push_back(t(i, 0));
      std::vector<Id> exp;
      if (rows.count(k)) exp = rows[k];
      c.check(got == exp, "scan of relation " + std::to_string(rel) + " for key " + std::to_string(k) + " gives " + std::to_string(got.size()) + " values " + showv(got).substr(0, 100) + " instead of " + std::to_string(exp.size()) + " " + showv(exp).substr(0, 100));
      if (c.problems.size() > 5) return;
    }
  }
  std::filesystem::remove(f);
}

// ---------------------------------------------------------------- whole indexes
template <typename P>
static void scans(Case& c, const Index& index, const P& p, std::array<int, 3> o, const std::set<Fact>& facts, const std::map<std::string, Id>& ids) {
  std::map<std::string, std::map<std::string, std::set<std::string>>> want;
  std::set<std::string> words;
  for (auto& f : facts) want[f[o[0]]][f[o[1]]].insert(f[o[2]]), words.insert(f.begin(), f.end());
  words.insert("<unknown>");
  auto problem = [&](const std::string& a, const std::string& b, const Table& got, const Table& exp) {
    c.fail(p._readableName + " scan for " + a + " " + b + " gives " + show(got) + " instead of " + show(exp));
  };
  for (auto& a : words) {
    Table exp;
    if (want.count(a))
      for (auto& [b, cs] : want[a])
        for (auto& x : cs) exp.push_back({ids.at(b), ids.at(x)});
    std::sort(exp.begin(), exp.end());
    IdTable t(2, alloc());
    index.scan(a, &t, p);
    if (fromIdTable(t) != exp) problem(a, "", fromIdTable(t), exp);
    auto mult = index.getMultiplicities(a, p);
    c.check(mult.size() == 2 && mult[0] >= 1 && mult[1] >= 1, p._readableName + ": multiplicities of " + a + " below one");
    if (!want.count(a)) continue;
    for (auto& b : words) {
      if (!want[a].count(b) && c.rng.chance(80)) continue;
      Table e;
      if (want[a].count(b))
        for (auto& x : want[a][b]) e.push_back({ids.at(x)});
      std::sort(e.begin(), e.end());
      IdTable t(1, alloc());
      index.scan(a, b, &t, p);
      if (fromIdTable(t) != e) problem(a, b, fromIdTable(t), e);
    }
    if (c.problems.size() > 5) return;
  }
}
SUITE(indexes, false, 120, 2000, "indexes of up to 60 triples with repetitions and languages, numbers as objects, five ways to parse, parts of any number of triples, languages and prefixes on disk; all scans of all six permutations") {
  std::vector<Fact> v = randomFacts(c.rng, true);
  BuildOptions o = randomOptions(c.rng);
  c.log(o.show()).log(showFacts(v));
  for (auto& f : v)
    for (auto& w : f) c.key(hashStr(w));
  Index index;
  buildIndex(v, o, index);
  std::set<Fact> facts = allFacts(v);
  auto ids = identifiers(c, index, facts);
  if (!c.problems.empty()) return;
  scans(c, index, index.SPO(), {0, 1, 2}, facts, ids);
  scans(c, index, index.SOP(), {0, 2, 1}, facts, ids);
  scans(c, index, index.PSO(), {1, 0, 2}, facts, ids);
  scans(c, index, index.POS(), {1, 2, 0}, facts, ids);
  scans(c, index, index.OSP(), {2, 0, 1}, facts, ids);
  scans(c, index, index.OPS(), {2, 1, 0}, facts, ids);
  std::array<std::set<std::string>, 3> distinct;
  std::array<std::map<std::string, size_t>, 3> count;
  for (auto& f : facts)
    for (int i = 0; i < 3; i++) distinct[i].insert(f[i]), count[i][f[i]]++;
  auto number = [&](const char* what, size_t got, size_t exp) { c.check(got == exp, std::string(what) + ": " + std::to_string(got) + " instead of " + std::to_string(exp)); };
  number("triples", index.getNofTriples(), facts.size());
  number("subjects", index.getNofSubjects(), distinct[0].size());
  number("predicates", index.getNofPredicates(), distinct[1].size());
  number("objects", index.getNofObjects(), distinct[2].size());
  for (auto& [w, id] : ids) {
    number(("triples with subject " + w).c_str(), index.sizeEstimate(w, "", ""), count[0].count(w) ? count[0][w] : 0);
    number(("triples with predicate " + w).c_str(), index.sizeEstimate("", w, ""), count[1].count(w) ? count[1][w] : 0);
    number(("triples with object " + w).c_str(), index.sizeEstimate("", "", w), count[2].count(w) ? count[2][w] : 0);
  }
}
#else
SUITE(storedPatterns, false, 150, 2500, "indexes of up to 60 triples with any limit on the number of patterns; the stored predicates of all entities") {
  std::vector<Fact> v = randomFacts(c.rng, c.rng.chance(60));
  BuildOptions o = randomOptions(c.rng);
  o.patterns = true;
  o.patternsLater = c.rng.chance(30);
  o.maxPatterns = c.rng.chance(30) ? 1000000 : c.rng.in(1, 6);
  c.log(o.show()).log(showFacts(v));
  c.key(o.maxPatterns);
  for (auto& f : v)
    for (auto& w : f) c.key(hashStr(w));
  Index index;
  buildIndex(v, o, index);
  std::set<Fact> facts = allFacts(v);
  auto ids = identifiers(c, index, facts);
  if (!c.problems.empty()) return;
  std::set<RowV> want;
  for (auto& f : facts)
    if (f[1][0] != '@') want.insert({ids[f[0]], ids[f[1]]});
  auto verify = [&](const Index& x, const std::string& when) {
    ResultTable r(alloc());
    r._data.setCols(2);
    HasPredicateScan::computeFullScan(&r, x.getHasPattern(), x.getHasPredicate(), x.getPatterns(), x.getHasPredicateFullSize());
    Table got = fromIdTable(r._data), exp(want.begin(), want.end());
    c.check(got == exp, when + "stored predicates " + show(got) + " instead of " + show(exp));
    c.check(x.getHasPredicateFullSize() == exp.size(), when + "number of pairs " + std::to_string(x.getHasPredicateFullSize()) + " instead of " + std::to_string(exp.size()));
    c.check(x.getPatterns().size() <= o.maxPatterns, when + "more patterns than allowed");
  };
  verify(index, "");
  if (o.patternsLater) {
    Index again;
    again.setUsePatterns(true);
    again.createFromOnDiskIndex(indexScratch() + "/i");
    verify(again, "after reading again: ");
  }
}
#endif
int main(int argc, char** argv) { return vh::main(argc, argv); }
