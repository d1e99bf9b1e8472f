// flags: -fno-sanitize=nonnull-attribute
// Index permutations: order of triples, descriptions of relations, block
// lookup, and scans of whole indexes built from text.
#ifndef PLAIN
#include "@REPO@/src/index/MetaDataTypes.cpp"
#include "@REPO@/src/index/Index.cpp"
#endif
#include "index_suites.h"
