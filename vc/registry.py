"""Which contracts and which real-code harnesses decide which property."""

# harness entries: (source, variant); variant "san" includes the sources with
# instrumentation, "plain" links the libraries as built by the project;
# "solosan" and "solo" likewise without the project's libraries
PROPS = {
    "C01": dict(contracts=[("join", "JoinContract")], harness=[("h_join", "san"), ("h_join", "plain")],
                level_note="Join::join with both galloping variants inlined is proved for all inputs against a ghost bijection between "
                           "result rows and matching pairs; table accessors, row iterators and std::lower_bound are assumed contracts "
                           "(the table itself is C10). Dispatch, widths, variable columns and sortedness announced by the operation "
                           "are covered by bounded runs only."),
    "C02": dict(contracts=[("multijoin", "MultiColumnJoinContract")], harness=[("h_mcj", "san"), ("h_mcj", "plain")],
                level_note="MultiColumnJoin::computeMultiColumnJoin is proved for all inputs against a ghost bijection between result rows and "
                           "pairs of rows that agree on all matched columns. The order on the matched columns enters as integer ranks. "
                           "Dispatch, variable columns and result types of the operation are covered by bounded runs only."),
    "C03": dict(contracts=[("multijoin", "OptionalJoinContract")], harness=[("h_optional", "san"), ("h_optional", "plain")],
                level_note="OptionalJoin::optionalJoin with createOptionalResult inlined is proved for all inputs and all four combinations of "
                           "optional sides: pairs, kept rows without partner, padding, order. Dispatch, variable columns and result types "
                           "of the operation are covered by bounded runs only."),
    "C04": dict(contracts=[("multijoin", "MinusContract")], harness=[("h_minus", "san"), ("h_minus", "plain")],
                level_note="Minus::computeMinus with isRowEqSkipFirst inlined is proved for all inputs: exactly the left rows without partner, "
                           "each once and in order. Dispatch and matching of variables are covered by bounded runs only."),
    "C09": dict(contracts=[], harness=[("h_transitive", "san"), ("h_transitive", "plain")],
                level_note="bounded: every graph with three nodes and random graphs with up to 12 nodes, compared with walks counted level by "
                           "level; the search over hash sets is not under contract"),
    "C24": dict(contracts=[], harness=[("h_keys", "plain")],
                level_note="bounded: pairs of operations of 14 kinds over small tables; the property relates runs through textual keys, which "
                           "is out of reach of the function contracts"),
    "C05": dict(contracts=[("filter", "FilterFixed" + o) for o in "EQ NE LT LE GT GE".split()] + [("filter", "FilterRange"), ("filter", "FilterRangeInverse")] +
                          [("filter", "FilterColumns" + o) for o in "EQ NE LT LE GT GE".split()],
                harness=[("h_filter", "san"), ("h_filter", "plain")],
                level_note="Filter::computeFilterFixedValue, computeFilterRange and computeFilter are proved for all inputs and all six comparisons: exactly "
                           "the satisfying rows in order, with and without binary search. Translating constants into ids, prefixes, regular "
                           "expressions and texts are covered by bounded runs only."),
    "C06": dict(contracts=[("union", "UnionContract")], harness=[("h_union", "san"), ("h_union", "plain")],
                level_note="Union::computeUnion is proved for all inputs: left rows then right rows, each column from its source or without value, "
                           "for any chunk size. Column assignment, types and dispatch of the operation are covered by bounded runs only."),
    "C07": dict(contracts=[("setops", "FilterByPairs"), ("setops", "DistinctContract")], harness=[("h_setops", "san"), ("h_setops", "plain")],
                level_note="Engine::filter (two columns) and Engine::distinct are proved for all sorted inputs; std::unique is an assumed contract. "
                           "The operations around them are covered by bounded runs only."),
    "C25": dict(contracts=[("order", "SortedOn"), ("order", "Compute"), ("order", "ComputeOne")], harness=[("h_order", "san"), ("h_order", "plain")],
                level_note="OrderBy::computeResult, OrderBy::resultSortedOn and Sort::computeResult are proved for all inputs and widths: the rows of the operand, each "
                           "once, sorted as wanted, column types kept, and an announced order that holds. std::sort is an assumed contract whose requirements on "
                           "the comparator are proved. Evaluating the operand and running out of time are not modelled."),
    "C08": dict(contracts=[("groupby", c) for c in ("Groups", "Count", "CountDistinct", "First", "Last", "Sample", "Max", "Min")], harness=[("h_group", "san"), ("h_group", "plain")],
                level_note="GroupBy::doGroupBy is proved for all inputs: the groups are the maximal runs of rows that agree on the group columns and each aggregate "
                           "is computed once per group; GroupBy::processGroup is proved for COUNT with and without DISTINCT, MIN and MAX of entities and "
                           "integers, SAMPLE, and the first and last row. Sums, averages, joined texts and the set up of the operation are covered by "
                           "bounded runs only."),
    "C16": dict(contracts=[], harness=[("h_conv", "solosan"), ("h_conv", "solo")],
                level_note="bounded: random pairs of numbers with up to 27 digits and of dates, often equal or neighbours, compared with decimal "
                           "arithmetic on the digits; index words keep 30 digits, so longer numbers are outside the property"),
    "C10": dict(contracts=[("table", c) for c in (
                    "AppendEmpty", "AppendList", "AppendRow", "AppendFrom", "PopBack", "Clear", "Reserve", "Resize", "Cell", "Insert", "Erase", "EraseOne", "Equal",
                    "StepForward", "StepForwardOld", "StepBack", "StepBackOld", "Advance", "Retreat", "Ahead", "Behind", "Assigned", "Distance",
                    "Same", "Different", "Before", "After", "NotAfter", "NotBefore", "RowAssign", "RowMove")],
                harness=[("h_idtable", "solosan"), ("h_idtable", "solo")],
                level_note="Appending, removing, inserting, erasing, resizing, access and comparison of tables of any width fixed at run time, their iterators and the "
                           "assignment of their rows are proved for all inputs. Tables of widths fixed at compile time, conversions between the kinds of tables and "
                           "views are covered by bounded runs: histories of up to 30 operations on tables of 1 to 8 columns against a list of rows; appending a "
                           "row of the same table and tables without columns are outside the property"),
    "C14": dict(contracts=[("memory", c) for c in ("Take", "Give", "Allocate", "Deallocate", "Free")], harness=[("h_alloc", "solosan"), ("h_alloc", "solo")],
                level_note="AllocationMemoryLeft and AllocatorWithLimit are proved for all inputs: memory is handed out only within the limit, and held and free "
                           "memory add up whether or not a request succeeds, exceptions included. That each access is atomic is assumed of the lock and covered "
                           "by bounded runs with four threads; tables using the allocator are covered by bounded runs."),
    "C13": dict(contracts=[("cache", c) for c in ("Shrink", "SetLimit", "Insert", "InsertPinned", "Numbers", "NumbersPinned", "Contains", "Lookup", "Erase", "Pin", "ClearAll", "ClearUnpinned")],
                harness=[("h_cache", "solosan"), ("h_cache", "solo")],
                level_note="The cache (values, pinning, limits, accounting, exceptions) is proved for all inputs, given assumed contracts of hash maps and of the "
                           "priority queue. Which entry is thrown out first and the priority queues themselves are bounded: histories of up to 60 operations on caches with any limits and of up to 50 operations on both priority queues, "
                           "compared with plain lists"),
    "C11": dict(contracts=[("lists", "Gaps"), ("lists", "Codes")], harness=[("h_codes", "solosan"), ("h_codes", "solo"), ("h_postings", "san"), ("h_postings", "plain")],
                level_note="Turning the decoded gaps and codes of a list into its elements, with positions and room of the buffers, is proved for all lists on top of assumed "
                           "contracts of the file and of decoding. Coding itself is bounded: lists of up to 2000 numbers below 2^60 with every boundary between code words, and posting lists written to "
                           "and read back from files"),
    "C12": dict(contracts=[("fts", "FilterByRange"), ("fts", "IntersectEntities"), ("fts", "IntersectWords")], harness=[("h_fts", "solosan"), ("h_fts", "plain")],
                level_note="FTSAlgorithms::filterByRange, intersect and intersectTwoPostingLists are proved for all sorted lists: exactly the wanted "
                           "entries, in order, with their scores. Intersecting more than two lists, ranking and combining with tables are covered by "
                           "bounded runs only."),
    "C17": dict(contracts=[], harness=[("h_escape", "solosan"), ("h_escape", "solo")],
                level_note="bounded: all strings of up to 7 characters out of four, random byte strings, and Turtle literals, IRIs and local names with "
                           "every escape sequence"),
    "C18": dict(contracts=[("vocab", k + c) for c in "Lower Upper ForLT ForGE ForLE ForGT GetId PrefixRange TextRange".split() for k in ("Text", "Rdf")]
                + [("vocab", c) for c in "ExtSearch ExtGetId Expand Compress Prefixes ShouldEntity StartsWith".split()],
                harness=[("h_vocab", "san"), ("h_vocab", "plain")],
                level_note="Lookups of words, of bounds for comparisons and of ranges for prefixes in both kinds of vocabularies and in the one on disk, and compressing "
                           "and expanding words, are proved for all sorted vocabularies, words and tables of prefixes, on top of assumed contracts of strings and of the "
                           "order of words. The order itself, files and languages are bounded: vocabularies of up to 40 words, in memory, external and of texts, with "
                           "lookups of words in and not in them, and prefix tables of up to 130 prefixes"),
    "C19": dict(contracts=[("merge", c) for c in ("Mapping", "Writes", "Batch")], harness=[("h_merge", "san"), ("h_merge", "plain")],
                level_note="Numbering the words of a part, numbering the sorted words of all parts across batches and writing the numbers for each part are proved "
                           "for all inputs. The merge of the sorted files and the files themselves are bounded: up to five parts of up to 25 words with shared and externalised words, any batch size"),
    "C23": dict(contracts=[("arrays", c) for c in ("Append", "Length", "Access", "Clear", "MappedAppend", "MappedResize", "MappedReserve", "MappedAt", "MappedAccess")],
                harness=[("h_arrays", "solosan"), ("h_arrays", "solo")],
                level_note="BufferedVector (appending with the move to the file, access, size, clearing) is proved on top of the contracts of MmapVector, and MmapVector "
                           "(appending, resizing, reserving, access) on top of assumed contracts of mremap and truncate, for all states. Opening, closing and reopening "
                           "files are covered by bounded runs only."),
    "C15": dict(contracts=[("index", "SortBy" + o) for o in "PSO POS SPO SOP OSP OPS".split()] + [("index", "BlockFor"), ("index", "BlockAfter")],
                harness=[("h_index", "san"), ("h_index", "plain")],
                level_note="the six orders of triples and the lookup of the blocks for an id are proved for all inputs. Writing and reading the data, that is "
                           "whole indexes of up to 60 triples built, reopened and scanned in all six orders, is covered by bounded runs only."),
    "C20": dict(contracts=[("predicates", c) for c in ("FreeS", "FreeO", "FullScan", "SubqueryS")], harness=[("h_predicates", "san"), ("h_predicates", "plain"), ("h_patterns", "san"), ("h_patterns", "plain")],
                level_note="the four scans of HasPredicateScan are proved for all inputs: exactly the rows for the predicates of each entity, in order; the "
                           "stored lists are read through an assumed contract of CompactStringVector. Counting predicates and storing patterns are "
                           "covered by bounded runs only."),
    "C21": dict(contracts=[("values", "WriteValues")], harness=[("h_values", "san"), ("h_values", "plain")],
                level_note="Values::writeValues is proved for all inputs: exactly the rows whose words are all known, in order and translated; looking a word "
                           "up is an assumed contract (C18). Removing UNDEF and dispatch are covered by bounded runs only; UNDEF only in rows that bind "
                           "nothing or for variables that are never bound."),
    "C22": dict(contracts=[("sharedcache", c) for c in ("Once", "Finish", "Abort", "Wait")],
                harness=[("h_concurrent", "solo"), ("h_concurrent", "solosan"), ("h_concurrent", "solotsan")],
                level_note="Asking for a result is proved for all cache contents, keys and interferences of other threads, with the lock as the point where they "
                           "interfere and with the guarantees they rely on proved in turn; so are handing on results and failures and waiting for them. That locks "
                           "are held as long as they should be, and that threads are not left waiting, is bounded: two threads with all schedules of at most two "
                           "preemptions, two to four threads with random schedules (threads change at lock, wait and notify operations and whenever a key is "
                           "hashed or compared), plus data race detection on free running threads"),
}
