#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Inner join returns exactly the matching row pairs",
  "Joining two tables on one column, both sorted on that column, yields one result row for every pair of a left row and a right row with equal join values, each pair exactly as often as it occurs, and nothing else; the result row is the left row followed by the right row without its join column. This holds for every size ratio of the inputs, so the strategies for very differently sized inputs agree with the plain one. The result comes out sorted on the join column.",
  ["inputs", "configurations"], "all pairs of sorted tables of any size and width, all join columns, all size ratios",
  "The tests join a handful of hand-written tables; wrong step sizes, run boundaries and resets only show for particular run lengths and size ratios.",
  ["src/engine/Join.cpp", "src/engine/Join.h", "src/engine/IdTable.h"],
  [("merge join with cross products over equal runs", "Join::join"),
   ("galloping join for inputs of very different size", "Join::doGallopInnerJoin")],
  observe=["rows of the result table"])
p("C02", "Multi-column join returns exactly the rows equal on all join columns",
  "Joining two tables on several columns, both sorted by those columns in order, yields exactly one row for each pair of rows that agree on every join column, made of the left row followed by the right row's other columns. No pair is lost or duplicated however the runs of equal rows are arranged.",
  ["inputs", "configurations"], "all pairs of tables sorted by their join columns, any number and choice of join columns",
  "Tests use a few small tables; partial agreement on a prefix of the join columns and repeated runs are combinatorial.",
  ["src/engine/MultiColumnJoin.h", "src/engine/MultiColumnJoin.cpp"],
  [("merge on the first column, then comparison of the remaining ones", "MultiColumnJoin::computeMultiColumnJoin")])
p("C03", "OPTIONAL keeps every row and pads unmatched ones with no-value",
  "An optional join returns every pair of rows that agree on all join columns, plus, exactly once each, the rows without a partner on the other side where that other side is optional, the missing columns filled with the no-value marker. Join columns of padded rows carry the value of the row that is present, and rows without a partner on a side that is not optional do not appear.",
  ["inputs", "configurations"], "all sorted input pairs, all four combinations of optional sides, any join columns, either input possibly empty",
  "Tests cover a few tables; rows left over at the end, in the middle and before the first match with each side optional are only sampled.",
  ["src/engine/OptionalJoin.cpp", "src/engine/OptionalJoin.h"],
  [("merge with emission of unmatched rows", "OptionalJoin::optionalJoin"),
   ("construction of one result row", "OptionalJoin::createOptionalResult")])
p("C04", "MINUS removes exactly the rows that have a match on the right",
  "The difference of two tables over shared columns, both sorted by these columns, consists of exactly those left rows for which no right row agrees on all shared columns, in their original order and with their original multiplicity. With no shared columns or an empty right side the left side is returned unchanged.",
  ["inputs"], "all pairs of sorted tables, any shared columns",
  "Tests check two fixed examples; the interplay of duplicate left rows and partially equal right rows is not enumerated.",
  ["src/engine/Minus.cpp", "src/engine/Minus.h"],
  [("merge that skips matched left rows", "Minus::computeMinus"),
   ("comparison of the remaining columns", "Minus::isRowEqSkipFirst")])
p("C05", "FILTER keeps exactly the rows that satisfy the comparison",
  "Filtering a table by comparing a column with a constant, with a range of constants or with another column keeps exactly the rows for which the comparison is true, in their original order and multiplicity. The outcome is the same whether or not the input is known to be sorted on that column, so the binary-search shortcut never changes an answer.",
  ["inputs", "configurations"], "all tables, all comparison operators, all constants, sorted and unsorted inputs",
  "Tests fix a few operators, constants and tables; the binary-search path and the scan path are compared on hardly any data, and boundary constants are rare.",
  ["src/engine/Filter.cpp", "src/engine/Filter.h", "src/engine/Engine.h"],
  [("binary search on sorted input", "Filter::computeFilterFixedValue, Filter::computeFilterRange"),
   ("row-wise evaluation", "Engine::filter, Filter::computeFilter")])
p("C06", "UNION returns all rows of both sides with columns put in place",
  "The union of two tables contains every row of the left table followed by every row of the right table, none lost, duplicated or reordered. Each output column takes the value of the side's column it is mapped to and the no-value marker when that side has none, also when whole tables are copied in chunks.",
  ["inputs", "configurations"], "all table pairs, all column mappings, sizes below and above the copy chunk",
  "Tests use two tables of a few rows; chunk boundaries need tens of thousands of rows, and column mappings are sampled.",
  ["src/engine/Union.cpp", "src/engine/Union.h"],
  [("column-wise copy and chunked append", "Union::computeUnion")])
p("C07", "DISTINCT and row-set intersection keep exactly the right rows",
  "Removing duplicates from a table sorted by the key columns leaves exactly one row for each distinct key, the first one, in order. Restricting a sorted table to the pairs listed in a sorted two-column table keeps exactly the rows whose pair is listed, with their multiplicity and order.",
  ["inputs", "configurations"], "all sorted tables, any key columns",
  "Only a few small tables are tested; duplicates at the ends and interleaved runs are input-dependent.",
  ["src/engine/Engine.h", "src/engine/Distinct.cpp"],
  [("duplicate removal by adjacent comparison", "Engine::distinct"),
   ("merge against a two-column relation", "Engine::filter (two column variant)")])
p("C08", "GROUP BY forms each group once and aggregates all of its rows",
  "Grouping a table sorted by the group columns produces exactly one row for each distinct combination of group values, and every input row contributes to exactly the group it belongs to. Counts, minima, maxima, sums, averages and samples are those of all rows of the group (of its distinct values when DISTINCT is given).",
  ["inputs", "configurations"], "all sorted tables, any group columns, every aggregate, with and without DISTINCT",
  "The tests aggregate one table; group boundaries, single-row groups, no group columns and the last group are not enumerated.",
  ["src/engine/GroupBy.cpp", "src/engine/GroupBy.h"],
  [("block detection", "GroupBy::doGroupBy"), ("aggregation of a block", "GroupBy::processGroup")])
p("C09", "Transitive paths return exactly the pairs reachable in range",
  "A property path with bounds returns a pair of nodes exactly when the second is reachable from the first over at least the minimum and at most the maximum number of edges, each pair once. Fixing or binding either end only restricts the answer to pairs with that end.",
  ["inputs", "configurations"], "all edge relations including cycles, all bounds, both ends free, bound or fixed",
  "Tests use a few small graphs; cycles, diamonds and depth limits interact in ways a few examples do not reach.",
  ["src/engine/TransitivePath.cpp", "src/engine/TransitivePath.h"],
  [("depth-first enumeration with marks", "TransitivePath::computeTransitivePath*")])
p("C10", "Result tables behave as a list of rows under any operation sequence",
  "After any sequence of appending, inserting, erasing, clearing, reserving and resizing, a result table contains exactly the rows a plain list of rows would contain, in the same order, with every other row unchanged. Views, copies, moves and conversions between fixed and dynamic width preserve the rows, and row iterators address the rows they claim to.",
  ["histories", "inputs", "configurations"], "all operation histories, all widths, fixed and dynamic",
  "Tests exercise one scripted history per operation; growth at particular sizes, insertion in the middle and erasing at the end depend on the history.",
  ["src/engine/IdTable.h"],
  [("row-major storage with width", "detail::IdTableImpl, detail::IdTableTemplated"),
   ("row iterators", "detail::IdTableImpl::iterator / const_iterator")],
  state=[("data, width", "row r column c is stored at r*width+c; the number of stored values is size*width", "src/engine/IdTable.h")])
p("C11", "Compressed posting lists decode to exactly what was encoded",
  "Every list of numbers that fit the code is encoded into words that decode to the same list in the same order, and the encoder reports exactly the number of bytes it wrote. Turning a list into gaps or frequency ranks before coding and back afterwards reproduces the list.",
  ["inputs"], "all lists of values below 2^60 of any length",
  "The tests round-trip a few lists; each bit-width selector, partially filled last words and mixed magnitudes give a huge input space.",
  ["src/util/Simple8bCode.h", "src/index/Index.Text.cpp"],
  [("selector choice and packing", "Simple8bCode::encode"), ("unpacking", "Simple8bCode::decode"),
   ("gap and frequency coding", "Index::createCodebooks, Index::writeList, Index::readGapComprList, Index::readFreqComprList")])
p("C12", "Text search list operations return exactly the matching postings",
  "Restricting postings to a word range keeps exactly the postings in range; intersecting posting lists keeps exactly the contexts present in all of them and adds their scores; combining them with entity lists yields one result per matching entity occurrence. Aggregation returns for each entity its number of contexts and its best-scored ones up to the limit.",
  ["inputs", "configurations"], "all sorted posting lists, any number of lists, any limit",
  "Tests intersect lists of a few elements; different run lengths, lists that end early and ties in scores are not enumerated.",
  ["src/index/FTSAlgorithms.cpp", "src/index/FTSAlgorithms.h"],
  [("range filter and list intersections", "FTSAlgorithms::filterByRange, intersectTwoPostingLists, intersect, intersectKWay, getTopKByScores"),
   ("aggregation", "FTSAlgorithms::aggScoresAndTakeTopKContexts and variants")])
p("C13", "The result cache keeps its accounting and evicts only what it may",
  "After any sequence of inserts, lookups, pins and clears, the cache finds exactly the entries that were inserted and not evicted, its recorded size and entry count equal what it holds, and its limits hold for unpinned entries. Pinned entries are never evicted, and eviction removes the least recently used entry first.",
  ["histories"], "all histories of cache operations, all entry sizes and limits",
  "Tests run two or three short scripts; eviction order and accounting errors need particular histories.",
  ["src/util/Cache.h", "src/util/PriorityQueue.h"],
  [("insertion, shrinking and pinning", "ad_utility::FlexibleCache"), ("lazy priority queue", "ad_utility::HeapBasedPQ, TreeBasedPQ")])
p("C14", "Memory accounting never lets allocations exceed the limit",
  "The memory left plus the memory handed out and not yet returned always equals the configured limit. A request for more than what is left is refused and changes nothing; returning memory makes exactly that amount available again, for all allocators sharing the limit.",
  ["histories"], "all histories of allocations and deallocations",
  "Tests do a few allocations; accounting drift needs a history that mixes refused, successful and returned requests.",
  ["src/util/AllocatorWithLimit.h"],
  [("shared counter of free bytes", "ad_utility::detail::AllocationMemoryLeft"), ("allocation and deallocation", "ad_utility::AllocatorWithLimit")])
p("C15", "Index permutations are sorted correctly and scans find every triple",
  "Each of the six triple orderings orders all triples first by its first, then second, then third component, without ties between different triples. Relation descriptions written to the index are read back unchanged, and looking up the block of a key in a block-wise stored relation yields the block range containing every occurrence of the key.",
  ["inputs", "configurations"], "all triples, all relation sizes and flags, all keys and block layouts",
  "The tests index a handful of triples, far below the size at which blocks are used.",
  ["src/index/StxxlSortFunctors.h", "src/index/MetaDataTypes.h", "src/index/MetaDataTypes.cpp"],
  [("triple comparators", "SortBy*"), ("packed relation header", "FullRelationMetaData"), ("block lookup", "BlockBasedRelationMetaData::getBlockStartAndNofBytesForLhs, getFollowBlockForLhs")])
p("C16", "Numbers and dates keep their order when turned into index words",
  "Two numeric literals compare as index words exactly as their values compare, and two dates likewise as points in time. Turning an index word back gives a literal of the same value.",
  ["inputs"], "all decimal numbers and ISO dates within the supported exponent range",
  "Tests compare a few pairs; ordering of encoded values involves sign, exponent and mantissa length in all combinations.",
  ["src/util/Conversions.h"],
  [("order-preserving encoding", "ad_utility::convertFloatStringToIndexWord, convertDateToIndexWord")])
p("C17", "Escaping of stored literals and words is lossless",
  "Escaping a string for a line-based file and reading it back returns the same string for every string, and the escaped form never contains a line break. Escape sequences in Turtle literals decode to the characters they denote.",
  ["inputs"], "all strings",
  "Tests use a few strings; sequences of backslashes followed by letters are the hard case.",
  ["src/parser/RdfEscaping.cpp", "src/parser/RdfEscaping.h"],
  [("newline and backslash escaping", "RdfEscaping::escapeNewlinesAndBackslashes, unescapeNewlinesAndBackslashes"), ("literal escapes", "RdfEscaping::normalizeRDFLiteral")])
p("C18", "Vocabulary lookup and prefix compression are exact",
  "Compressing a word with any prefix table and expanding it again returns the word. Looking up a word in a sorted vocabulary finds it exactly if it is there, and the identifier range of a prefix contains exactly the words that start with it.",
  ["inputs", "configurations"], "all sorted vocabularies, all words, all prefix tables",
  "Tests look up a few words in tiny vocabularies; binary search boundaries depend on size and position.",
  ["src/index/Vocabulary.h", "src/index/Vocabulary.cpp", "src/index/ExternalVocabulary.cpp"],
  [("prefix codes", "Vocabulary::compressPrefix, expandPrefix"), ("binary search", "Vocabulary::lower_bound, upper_bound, prefix_range, ExternalVocabulary::binarySearchInVocab")])
p("C19", "Merging partial vocabularies gives every word one identifier",
  "Merging sorted partial vocabularies yields each distinct word once, in order, and maps every local identifier of every part to the identifier of the same word in the merged vocabulary. Different words never share an identifier and equal words never get two.",
  ["inputs"], "all collections of sorted partial vocabularies",
  "The test merges two fixed files; batch boundaries and words shared by several parts are input-dependent.",
  ["src/index/VocabularyGenerator.h", "src/index/VocabularyGeneratorImpl.h"],
  [("k-way merge", "VocabularyMerger"), ("local renumbering", "createInternalMapping, createMappings")])
p("C20", "Predicate counts and predicate scans agree with the triples",
  "Counting the predicates of a set of entities gives for each predicate exactly the number of distinct entities in the set that have it, whether their predicates are stored as shared patterns or individually. Scanning for the predicates of entities returns exactly the pairs of entity and predicate that are stored.",
  ["inputs", "configurations"], "all pattern tables, entity sets and input tables",
  "Tests use one small fixed pattern table; mixtures of patterned and unpatterned entities and gaps in the tables are input-dependent.",
  ["src/engine/CountAvailablePredicates.cpp", "src/engine/HasPredicateScan.cpp"],
  [("pattern counting", "CountAvailablePredicates::computePatternTrick, computePatternTrickAllEntities"), ("scans", "HasPredicateScan::compute*")])
p("C21", "VALUES rows are returned completely and in order",
  "An inline table of values yields one result row for each row whose values are all known, in order, every column holding the identifier of its value, and rows with unknown values are left out.",
  ["inputs"], "all inline tables",
  "Tests use one inline table; rows with unknown values between known ones are not enumerated.",
  ["src/engine/Values.cpp"],
  [("row construction", "Values::writeValues")])
p("C22", "Concurrent requests for one result compute it once and agree",
  "However requests from several threads interleave, a result that is being computed is not computed a second time at the same time, every requester of a key obtains the value computed for that key, and a failed computation is reported to everyone waiting and is not cached.",
  ["schedules", "fault_sequences"], "all interleavings of any number of requesters, any failures",
  "Tests run a few threads with sleeps; the interleavings are a matter of luck.",
  ["src/util/ConcurrentCache.h", "src/util/Synchronized.h"],
  [("in-progress table under a lock", "ad_utility::ConcurrentCache")])
p("C23", "Buffered and disk-backed arrays store what was written",
  "An array that starts in memory and moves to disk when it grows returns for every index the value last written there, and reports the number of elements appended, across any sequence of appends, resizes and overwrites.",
  ["histories", "configurations"], "all operation histories and all thresholds",
  "Tests use one threshold and one history; the switch between memory and disk can be crossed in many ways.",
  ["src/util/BufferedVector.h", "src/util/MmapVectorImpl.h"],
  [("switch at the threshold", "ad_utility::BufferedVector"), ("file-backed growth", "ad_utility::MmapVector")])

p("C24", "An answer does not depend on which queries ran before",
  "Running an operation of a query gives the same rows, column types and words whether the result cache is empty or already holds results of other operations. In particular two operations over the same inputs that differ in any parameter affecting the result never take each other's cached result.",
  ["histories", "configurations"], "all pairs of operations of any kind over the same inputs, with all parameters",
  "Tests run one operation against an empty cache; the pairs of parameters that must not be confused are many, and only the second query of a pair goes wrong.",
  ["src/engine/Operation.cpp", "src/engine/QueryExecutionTree.cpp", "src/engine/Distinct.cpp", "src/engine/Union.cpp", "src/engine/GroupBy.cpp"],
  [("textual cache key of an operation", "Operation::asString"), ("lookup by that key", "Operation::getResult")])

p("C25", "ORDER BY gives the rows in the requested order and announces no more",
  "Ordering a table returns the same rows with the same multiplicity such that each row is not smaller than the one before with respect to the listed columns, ascending or descending. The order announced to other operations holds for the returned rows.",
  ["inputs", "configurations"], "all tables and all lists of ascending and descending columns",
  "Tests order a few small tables; an announced order that does not hold only shows when another operation relies on it.",
  ["src/engine/OrderBy.cpp", "src/engine/Sort.cpp", "src/engine/Engine.h"],
  [("comparison over the listed columns", "OrderBy::computeResult"), ("announced order", "OrderBy::resultSortedOn")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
