// flags: -fno-sanitize=nonnull-attribute
// Predicates of entities as stored in an index.
#define ONLY_PATTERNS
#ifndef PLAIN
#include "@REPO@/src/index/MetaDataTypes.cpp"
#include "@REPO@/src/index/Index.cpp"
#endif
#include "index_suites.h"
